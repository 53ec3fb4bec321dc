package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// packages (directories relative to the repository) left as they are: generated code, pure
// functions without shared state and embedded bundles.
var skipDirs = []string{"gen", "internal/arrow3", "internal/f2", "internal/js/bundle",
	"internal/test", "internal/version", "internal/retry", "internal/rows", "internal/home"}

var sites []string

// simosDirs: packages whose os file functions go through the simulated file layer.
var simosDirs = []string{"internal/commands", "internal/commands/query", "internal/compile"}

// capture: constructors in these packages report what they build to the simulator.
var captureDirs = map[string]bool{"internal/service": true, "internal/store": true, "internal/shards": true, "internal/translate": true, "internal/seq": true, "internal/dataframe": true}

func skip(rel string) bool {
	for _, s := range skipDirs {
		if rel == s || strings.HasPrefix(rel, s+"/") {
			return true
		}
	}
	return false
}

func instrumentRepo(ov *overlay) {
	var files []string
	for _, top := range []string{"internal", "cmd"} {
		must(filepath.WalkDir(filepath.Join(*repo, top), func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(*repo, p)
			if d.IsDir() {
				if d.Name() == "testdata" || skip(rel) {
					return filepath.SkipDir
				}
				return nil
			}
			if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
				files = append(files, rel)
			}
			return nil
		}))
	}
	sort.Strings(files)
	for _, rel := range files {
		src, err := os.ReadFile(filepath.Join(*repo, rel))
		must(err)
		res, extra := instrumentFile(rel, src)
		if res == nil {
			continue
		}
		o := filepath.Join(*out, "repo", rel)
		write(o, res)
		ov.Replace[filepath.Join(*repo, rel)] = o
		if extra != nil {
			e := strings.TrimSuffix(o, ".go") + "_zzcap.go"
			write(e, extra)
			ov.Replace[strings.TrimSuffix(filepath.Join(*repo, rel), ".go")+"_zzcap.go"] = e
		}
	}
	write(filepath.Join(*out, "sites.txt"), []byte(strings.Join(sites, "\n")+"\n"))
}

// wrapGoroutines makes the goroutines and locks of a dependency's file the simulator's.
func wrapGoroutines(rel, src string) string {
	in := &instr{rel: rel, dir: filepath.Dir(rel), src: []byte(src), fset: token.NewFileSet(), imports: map[string]string{}, keep: map[string]bool{}, dial: map[string]string{}}
	f, err := parser.ParseFile(in.fset, rel, in.src, parser.ParseComments|parser.SkipObjectResolution)
	must(err)
	in.file = f
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			in.importRewrite(im, "sync", "zzsim/simsync")
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.GoStmt); ok {
			in.useRT = true
			in.ins(in.off(s.Call.Fun.Pos()), "zzrt.Wrap(")
			in.ins(in.off(s.Call.Fun.End()), ")")
		}
		return true
	})
	return string(in.finish())
}

const siteBase = 100 // ids below are named sites in zzsim/rt

type splice struct {
	off, end int // replace [off,end)
	text     string
	seq      int
}

type instr struct {
	rel     string
	dir     string
	src     []byte
	fset    *token.FileSet
	file    *ast.File
	sp      []splice
	imports map[string]string // local name -> path
	useRT   bool
	keep    map[string]bool // imports that need a keep-alive reference
	useOS   bool
	dial    map[string]string
}

func (in *instr) off(p token.Pos) int { return in.fset.Position(p).Offset }
func (in *instr) text(n ast.Node) string {
	return string(in.src[in.off(n.Pos()):in.off(n.End())])
}
func (in *instr) ins(off int, text string) {
	in.sp = append(in.sp, splice{off, off, text, len(in.sp)})
}
func (in *instr) rep(n ast.Node, text string) {
	in.sp = append(in.sp, splice{in.off(n.Pos()), in.off(n.End()), text, len(in.sp)})
}

func (in *instr) site(p token.Pos) int {
	pos := in.fset.Position(p)
	sites = append(sites, fmt.Sprintf("%s:%d", in.rel, pos.Line))
	return siteBase + len(sites) - 1
}

func instrumentFile(rel string, src []byte) (res, extra []byte) {
	in := &instr{rel: rel, dir: filepath.Dir(rel), src: src, fset: token.NewFileSet(), imports: map[string]string{}, keep: map[string]bool{}, dial: map[string]string{}}
	f, err := parser.ParseFile(in.fset, rel, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		log.Fatal("prep: ", err)
	}
	in.file = f
	for _, im := range f.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		name := filepath.Base(path)
		if im.Name != nil {
			name = im.Name.Name
		}
		in.imports[name] = path
		switch path {
		case "sync":
			in.importRewrite(im, "sync", "zzsim/simsync")
		case "hash/maphash":
			in.importRewrite(im, "maphash", "zzsim/simmaphash")
		case "github.com/dgraph-io/ristretto":
			in.importRewrite(im, "ristretto", "zzsim/simristretto")
		}
	}
	if in.dir == "internal/self" {
		// the server's own telemetry is set up only in runs that ask for it
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok && fd.Recv == nil && fd.Name.Name == "Setup" && fd.Body != nil {
				in.useRT = true
				t, n := "", 0
				for _, p := range fd.Type.Params.List {
					if x := in.text(p.Type); strings.Contains(x, "ServiceServer") {
						for _, id := range p.Names {
							t += id.Name + " = zzrt.SelfHook(" + id.Name + ").(" + x + "); "
							n++
						}
					}
				}
				if n == 2 {
					t = " if zzrt.Active() { if !zzrt.Cfg().Self { return zzrt.NoopShutdown{}, nil }; " + t
				} else { // not to be observed
					t = " if zzrt.Active() { return zzrt.NoopShutdown{}, nil "
				}
				in.ins(in.off(fd.Body.Lbrace)+1, t+"}; ")
			}
		}
	}
	simos := false
	for _, d := range simosDirs {
		simos = simos || in.dir == d
	}
	var caps bytes.Buffer
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				in.selectors(gd, simos)
				in.bodies(gd)
			}
			continue
		}
		if fd.Body == nil {
			continue
		}
		if in.dir == "cmd/rq" && fd.Recv != nil {
			continue // badger's logger adapter: called by badger's own goroutines
		}
		if fd.Recv == nil && (fd.Name.Name == "init" || fd.Name.Name == "main") {
			continue
		}
		in.selectors(fd, simos)
		in.bodies(fd.Body)
		if captureDirs[in.dir] && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "New") && fd.Type.TypeParams == nil {
			in.capture(fd)
		}
	}
	_ = caps
	if len(in.sp) == 0 {
		return nil, nil
	}
	return in.finish(), nil
}

func (in *instr) importRewrite(im *ast.ImportSpec, name, path string) {
	if im.Name != nil {
		name = im.Name.Name
		in.sp = append(in.sp, splice{in.off(im.Name.Pos()), in.off(im.Path.End()), name + ` "` + path + `"`, len(in.sp)})
		return
	}
	in.rep(im.Path, name+` "`+path+`"`)
}

// selectors rewrites package-level function references.
func (in *instr) selectors(n ast.Node, simos bool) {
	ast.Inspect(n, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok {
			return true
		}
		switch in.imports[id.Name] {
		case "time":
			switch se.Sel.Name {
			case "Now", "Since", "Until", "AfterFunc":
				in.rep(se, "zzrt."+se.Sel.Name)
				in.useRT = true
				in.keep[id.Name+".Nanosecond"] = true
			}
		case "os":
			if se.Sel.Name == "Exit" {
				in.rep(se, "zzrt.Exit")
				in.useRT = true
				in.keep[id.Name+".Args"] = true
			} else if se.Sel.Name == "Getpid" {
				in.rep(se, "zzrt.Getpid")
				in.useRT = true
				in.keep[id.Name+".Args"] = true
			} else if (se.Sel.Name == "Stat" || se.Sel.Name == "ReadDir") && !*noos {
				in.rep(se, "zzos."+se.Sel.Name)
				in.useOS = true
				in.keep[id.Name+".Args"] = true
			} else if simos {
				switch se.Sel.Name {
				case "WriteFile", "ReadFile", "Rename", "CreateTemp", "MkdirTemp", "MkdirAll", "Mkdir", "Remove", "RemoveAll", "Create", "OpenFile", "Open", "Link", "File":
					if *noos {
						break
					}
					in.rep(se, "zzos."+se.Sel.Name)
					in.useOS = true
					in.keep[id.Name+".Args"] = true
				case "Stdout":
					in.rep(se, "zzos.Stdout()")
					in.useOS = true
					in.keep[id.Name+".Args"] = true
				}
			}
		case "google.golang.org/grpc":
			if n := se.Sel.Name; n == "Dial" || n == "NewClient" {
				in.rep(se, "zz"+n)
				in.useRT = true
				in.keep["zznet."] = true
				in.dial[n] = id.Name
			}
		case "net":
			if se.Sel.Name == "Listen" {
				in.rep(se, "zznet.Listen")
				in.keep["net.IPv4len"] = true
				in.keep["zznet."] = true
			}
		}
		return true
	})
}

// bodies inserts yields before statements, wraps go statements and splits read-modify-writes.
func (in *instr) bodies(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.BlockStmt:
			in.stmts(s.List)
		case *ast.CaseClause:
			in.stmts(s.Body)
		case *ast.CommClause:
			in.stmts(s.Body)
		case *ast.GoStmt:
			if id, ok := s.Call.Fun.(*ast.Ident); ok && (id.Name == "close" || id.Name == "panic" || id.Name == "print" || id.Name == "println" || id.Name == "delete" || id.Name == "clear") {
				return true
			}
			in.useRT = true
			in.ins(in.off(s.Call.Fun.Pos()), "zzrt.Wrap(")
			in.ins(in.off(s.Call.Fun.End()), ")")
		}
		return true
	})
}

func (in *instr) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch x := s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return // body of a switch or select
		case *ast.EmptyStmt:
			continue
		case *ast.DeclStmt:
			if gd := x.Decl.(*ast.GenDecl); gd.Tok != token.VAR {
				continue
			}
		}
		in.useRT = true
		in.ins(in.off(s.Pos()), fmt.Sprintf("zzrt.Y(%d);", in.site(s.Pos())))
		in.rmw(s)
	}
}

func sharedLHS(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		return pure(x)
	case *ast.IndexExpr:
		return pure(x)
	case *ast.StarExpr:
		return pure(x)
	}
	return false
}

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr:
			ok = false
		}
		return ok
	})
	return ok
}

func (in *instr) rmw(s ast.Stmt) {
	if *plain {
		return
	}
	switch x := s.(type) {
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || !sharedLHS(x.Lhs[0]) {
			return
		}
		l := in.text(x.Lhs[0])
		if x.Tok == token.ASSIGN {
			has := false
			ast.Inspect(x.Rhs[0], func(n ast.Node) bool {
				if e, ok := n.(ast.Expr); ok && n != nil && in.text(e) == l {
					has = true
				}
				return !has
			})
			hasLit := false
			ast.Inspect(x.Rhs[0], func(n ast.Node) bool {
				if _, ok := n.(*ast.FuncLit); ok {
					hasLit = true
				}
				return true
			})
			if !has || hasLit {
				return
			}
			// { zzv := RHS; Y; LHS = zzv } ; RHS keeps its own splices because only its surroundings change
			in.sp = append(in.sp, splice{in.off(x.Lhs[0].Pos()), in.off(x.Rhs[0].Pos()), "{ zzv := ", len(in.sp)})
			in.ins(in.off(x.End()), fmt.Sprintf("; zzrt.Y(%d); %s = zzv }", in.site(s.Pos()), l))
			return
		}
		if x.Tok == token.DEFINE {
			return
		}
		op := x.Tok.String()
		in.sp = append(in.sp, splice{in.off(x.Lhs[0].Pos()), in.off(x.Rhs[0].Pos()), "{ zzv := " + l + "; zzv " + op + " ", len(in.sp)})
		in.ins(in.off(x.End()), fmt.Sprintf("; zzrt.Y(%d); %s = zzv }", in.site(s.Pos()), l))
	case *ast.IncDecStmt:
		if !sharedLHS(x.X) {
			return
		}
		l := in.text(x.X)
		in.rep(x, fmt.Sprintf("{ zzv := %s; zzrt.Y(%d); zzv%s; %s = zzv }", l, in.site(s.Pos()), x.Tok.String(), l))
	}
}

// capture renames a constructor and adds a wrapper under its name that reports the result.
func (in *instr) capture(fd *ast.FuncDecl) {
	if fd.Type.Results == nil || len(fd.Type.Results.List) == 0 {
		return
	}
	if _, ok := fd.Type.Results.List[0].Type.(*ast.StarExpr); !ok {
		return
	}
	var params, args []string
	k := 0
	for _, p := range fd.Type.Params.List {
		t := in.text(p.Type)
		_, variadic := p.Type.(*ast.Ellipsis)
		n := len(p.Names)
		if n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			a := fmt.Sprintf("zzp%d", k)
			k++
			params = append(params, a+" "+t)
			if variadic {
				a += "..."
			}
			args = append(args, a)
		}
	}
	var results, vars []string
	k = 0
	for _, r := range fd.Type.Results.List {
		n := len(r.Names)
		if n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			results = append(results, in.text(r.Type))
			vars = append(vars, fmt.Sprintf("zzr%d", k))
			k++
		}
	}
	name := fd.Name.Name
	in.rep(fd.Name, "zzorig"+name)
	w := fmt.Sprintf("\nfunc %s(%s) (%s) {\n\t%s := zzorig%s(%s)\n\tzzrt.Captured(%q, %s)\n\treturn %s\n}\n", name,
		strings.Join(params, ", "), strings.Join(results, ", "), strings.Join(vars, ", "), name, strings.Join(args, ", "),
		in.file.Name.Name+"."+name, vars[0], strings.Join(vars, ", "))
	in.ins(len(in.src), w)
	in.useRT = true
}

func (in *instr) finish() []byte {
	add := ""
	if in.useRT {
		add += "; import zzrt \"zzsim/rt\""
	}
	if in.useOS {
		add += "; import zzos \"zzsim/simos\""
	}
	tail := ""
	var keep []string
	for k := range in.keep {
		keep = append(keep, k)
	}
	sort.Strings(keep)
	for _, k := range keep {
		if k == "zznet." {
			add += "; import zznet \"zzsim/simnet\""
			continue
		}
		tail += "\nvar _ = " + k + "\n"
	}
	for n, g := range in.dial {
		tail += fmt.Sprintf(`
func zz%[1]s(target string, opts ...%[2]s.DialOption) (*%[2]s.ClientConn, error) {
	if !zzrt.Active() {
		return %[2]s.%[1]s(target, opts...)
	}
	un := zzrt.Untag()
	c, err := %[2]s.%[1]s(target, append(opts, %[2]s.WithContextDialer(zznet.Dial))...)
	un()
	if err == nil {
		zzrt.CurInc().AddCloser("connection", c, c.Close, func() bool { return c.GetState().String() == "SHUTDOWN" })
	}
	return c, err
}
`, n, g)
	}
	in.ins(in.off(in.file.Name.End()), add)
	if tail != "" {
		in.ins(len(in.src), tail)
	}
	sort.SliceStable(in.sp, func(i, j int) bool {
		a, b := in.sp[i], in.sp[j]
		if a.off != b.off {
			return a.off < b.off
		}
		// insertions before replacements at the same offset
		if (a.end == a.off) != (b.end == b.off) {
			return a.end == a.off
		}
		return a.seq < b.seq
	})
	var o bytes.Buffer
	o.WriteString("")
	last := 0
	for _, s := range in.sp {
		if s.off < last {
			continue // inside a replaced region
		}
		o.Write(in.src[last:s.off])
		o.WriteString(s.text)
		last = s.end
	}
	o.Write(in.src[last:])
	// keep line numbers of panics pointing at the repository's files
	return o.Bytes()
}
