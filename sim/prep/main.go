// Command prep turns the current /repo tree into a build overlay in which every source of
// nondeterminism goes through the simulator (module zzsim). It never writes to /repo.
//
//	prep -repo /repo -sim /verif/sim -goroot GOROOT -modcache DIR -out BUILDDIR
//
// It writes BUILDDIR/overlay.json, BUILDDIR/go.mod, BUILDDIR/go.sum, instrumented copies of
// the repository's source files, patched copies of three dependencies and of four runtime
// files, and BUILDDIR/sites.txt (site id -> file:line).
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var (
	repo     = flag.String("repo", "/repo", "")
	sim      = flag.String("sim", "/verif/sim", "")
	goroot   = flag.String("goroot", "", "")
	modcache = flag.String("modcache", "", "")
	out      = flag.String("out", "", "")
	noos     = flag.Bool("noos", false, "leave files to the operating system (fallback)")
	plain    = flag.Bool("plain", false, "do not split read-modify-writes (fallback)")
)

type overlay struct{ Replace map[string]string }

func must(err error) {
	if err != nil {
		log.Fatal("prep: ", err)
	}
}

func write(path string, b []byte) {
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	if old, err := os.ReadFile(path); err == nil && string(old) == string(b) {
		return
	}
	must(os.WriteFile(path, b, 0o644))
}

type edit struct{ old, new string }

// patch applies exact, unique text replacements.
func patch(name, src string, edits []edit) string {
	for _, e := range edits {
		if n := strings.Count(src, e.old); n != 1 {
			log.Fatalf("prep: %s: anchor occurs %d times: %q", name, n, e.old)
		}
		src = strings.Replace(src, e.old, e.new, 1)
	}
	return src
}

func main() {
	flag.Parse()
	log.SetFlags(0)
	ov := overlay{Replace: map[string]string{}}
	runtimeOverlay(&ov)
	reps := deps()
	instrumentRepo(&ov)

	// harness files
	hs, err := filepath.Glob(filepath.Join(*sim, "harness", "*.go"))
	must(err)
	for _, h := range renameHarness(hs) {
		b := strings.TrimSuffix(filepath.Base(h), ".go")
		ov.Replace[filepath.Join(*repo, "cmd/rq", "zz_"+b+"_test.go")] = h
	}
	// go.mod
	mod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	must(err)
	sum, err := os.ReadFile(filepath.Join(*repo, "go.sum"))
	must(err)
	m := string(mod) + "\nrequire zzsim v0.0.0\nreplace zzsim => " + filepath.Join(*sim, "zzsim") + "\n"
	keys := make([]string, 0, len(reps))
	for k := range reps {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		m += "replace " + k + " => " + reps[k] + "\n"
	}
	write(filepath.Join(*out, "go.mod"), []byte(m))
	write(filepath.Join(*out, "go.sum"), sum)
	b, _ := json.MarshalIndent(ov, "", " ")
	write(filepath.Join(*out, "overlay.json"), b)
	fmt.Printf("prep: %d files overlaid, %d yield sites\n", len(ov.Replace), len(sites))
}

func runtimeOverlay(ov *overlay) {
	do := func(rel string, edits []edit, tail string) {
		p := filepath.Join(*goroot, "src", rel)
		b, err := os.ReadFile(p)
		must(err)
		s := patch(rel, string(b), edits) + tail
		o := filepath.Join(*out, "goroot", rel)
		write(o, []byte(s))
		ov.Replace[p] = o
	}
	do("runtime/runtime2.go", []edit{{"	bubble  *synctestBubble\n", "	bubble  *synctestBubble\n	simtag  unsafe.Pointer // simulator task\n	simctr  uint64\n"}}, "")
	do("runtime/proc.go", []edit{{"	gp.timer = nil\n	gp.bubble = nil\n", "	gp.timer = nil\n	gp.bubble = nil\n	gp.simtag = nil\n	gp.simctr = 0\n"}}, "")
	do("runtime/select.go", []edit{{"j := cheaprandn(uint32(norder + 1))", "j := simrandn(uint32(norder + 1))"}}, "")
	do("runtime/alg.go", []edit{{"		hashkey[i] = uintptr(bootstrapRand())", "		hashkey[i] = uintptr(0x9e3779b97f4a7c15 * uint64(i+1))"},
		{"		key[i] = bootstrapRand()", "		key[i] = 0xbf58476d1ce4e5b9 * uint64(i+3)"}}, "")
	do("runtime/rand.go", []edit{{"func maps_rand() uint64 {\n	return rand()\n}", "func maps_rand() uint64 {\n	return simSeed\n}"},
		{"func rand() uint64 {\n", `func rand() uint64 {
	if gp := getg(); gp.bubble != nil && gp.simtag != nil {
		gp.simctr += 0x9e3779b97f4a7c15
		z := simSeed + gp.simctr
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
`}}, `
// Simulator hooks: deterministic map iteration and select order, goroutine tags.
var simSeed uint64 = 0x9e3779b97f4a7c15

func simrandn(n uint32) uint32 {
	if getg().bubble == nil {
		return cheaprandn(n)
	}
	return uint32((simSeed>>11)%uint64(n))
}

func simSetSeed(x uint64)          { simSeed = x }
func simGetTag() unsafe.Pointer    { return getg().simtag }
func simSetTag(p unsafe.Pointer)   { getg().simtag = p }
func simInBubble() bool            { return getg().bubble != nil }
`)
	// rand.go may lack the unsafe import under another alias; it has it in this release.
}
