package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// renameHarness gives every package-level name and every import of the harness files a name
// of its own. The harness is compiled into cmd/rq's package, and a change to that package may
// well declare a name the harness uses too. It returns the paths of the renamed files.
func renameHarness(files []string) []string {
	fset := token.NewFileSet()
	var fs []*ast.File
	names := map[string]bool{}
	for _, p := range files {
		f, err := parser.ParseFile(fset, p, nil, parser.ParseComments)
		must(err)
		fs = append(fs, f)
		for n, o := range f.Scope.Objects {
			if own(n, o) {
				names[n] = true
			}
		}
	}
	var out []string
	for i, f := range fs {
		out = append(out, renameFile(fset, f, files[i], names))
	}
	return out
}

func own(name string, o *ast.Object) bool {
	switch {
	case name == "init", name == "main", name == "_", strings.HasPrefix(name, "Test"):
		return false
	}
	// A function without a body is linked to one of the runtime's by its name.
	if d, ok := o.Decl.(*ast.FuncDecl); ok && d.Body == nil {
		return false
	}
	return true
}

func renameFile(fset *token.FileSet, f *ast.File, p string, names map[string]bool) string {
	src, err := os.ReadFile(p)
	must(err)
	type rep struct {
		at, end int
		text    string
	}
	var reps []rep
	done := map[token.Pos]bool{}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	put := func(id *ast.Ident, text string) {
		if !done[id.Pos()] {
			done[id.Pos()] = true
			reps = append(reps, rep{off(id.Pos()), off(id.End()), text})
		}
	}
	imports := map[string]string{}
	for _, s := range f.Imports {
		v, err := strconv.Unquote(s.Path.Value)
		must(err)
		name := path.Base(v)
		switch {
		case s.Name != nil:
			name = s.Name.Name
		case len(name) > 1 && name[0] == 'v' && strings.Trim(name[1:], "0123456789") == "":
			name = path.Base(path.Dir(v))
		}
		if name == "_" || name == "." {
			continue
		}
		imports[name] = "zzi_" + name
		if s.Name != nil {
			put(s.Name, "zzi_"+name)
		} else {
			reps = append(reps, rep{off(s.Path.Pos()), off(s.Path.Pos()), "zzi_" + name + " "})
		}
	}
	// Keys of struct literals are field names, whatever they seem to resolve to.
	keys := map[*ast.Ident]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		l, ok := n.(*ast.CompositeLit)
		if !ok {
			return true
		}
		elems := false // keys of maps and arrays are expressions
		switch l.Type.(type) {
		case *ast.MapType, *ast.ArrayType:
			elems = true
		}
		for _, e := range l.Elts {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				id, ok := kv.Key.(*ast.Ident)
				switch {
				case !ok:
				case !elems:
					keys[id] = true
				case id.Obj == nil && names[id.Name]:
					put(id, "zzh_"+id.Name)
				}
			}
		}
		return true
	})
	for _, id := range f.Unresolved {
		switch {
		case keys[id]:
		case imports[id.Name] != "":
			put(id, imports[id.Name])
		case names[id.Name]:
			put(id, "zzh_"+id.Name)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || keys[id] || id.Obj == nil || !names[id.Name] {
			return true
		}
		if f.Scope.Objects[id.Name] == id.Obj {
			put(id, "zzh_"+id.Name)
		}
		return true
	})
	sort.Slice(reps, func(i, j int) bool { return reps[i].at > reps[j].at })
	s := string(src)
	for _, r := range reps {
		s = s[:r.at] + r.text + s[r.end:]
	}
	o := filepath.Join(*out, "harness", filepath.Base(p))
	write(o, []byte(s))
	return o
}
