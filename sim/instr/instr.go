// Package instr makes the copy of the library that runs under the simulator:
// the same source, line for line, with a call to the scheduler inserted before
// every statement and with package sync replaced by its simulated counterpart.
// It works on whatever the source is; it knows nothing about its content.
package instr

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Site is one inserted scheduling point.
type Site struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

// Result describes an instrumented tree.
type Result struct {
	Sites []Site
	// Opaque says why no scheduling points were inserted ("" if they were):
	// the source starts goroutines itself, or uses channels in a way that makes
	// sense with those only. Calls are then atomic steps.
	Opaque string
	Files  int
}

var simulated = map[string]bool{"Mutex": true, "RWMutex": true, "Once": true, "Pool": true, "Map": true,
	"Locker": true, "OnceFunc": true, "OnceValue": true, "OnceValues": true}

// timers need tasks of their own, which only the library could start
var timers = map[string]bool{"After": true, "AfterFunc": true, "NewTimer": true, "NewTicker": true, "Tick": true, "Timer": true, "Ticker": true}

// standIns replace packages of the standard library.
var standIns = map[string]string{"sync": "verifsim/simsync", "time": "verifsim/simtime"}

type file struct {
	rel string
	src []byte
	ast *ast.File
	tf  *token.File
}

// Tree instruments the Go module at src into dst. If opaque is not empty, it
// says why no scheduling points shall be inserted.
func Tree(src, dst, opaque string) (*Result, error) {
	res := &Result{Opaque: opaque}
	fset := token.NewFileSet()
	var files []*file
	err := filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if d.IsDir() {
			if rel == "." {
				return nil
			}
			if strings.HasPrefix(d.Name(), ".") || d.Name() == "testdata" || d.Name() == "docs" {
				return filepath.SkipDir
			}
			if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
				return filepath.SkipDir
			}
			return nil
		}
		if !d.Type().IsRegular() || strings.HasSuffix(rel, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if !strings.HasSuffix(rel, ".go") {
			if len(b) < 1<<20 {
				return write(filepath.Join(dst, rel), b)
			}
			return nil
		}
		f, err := parser.ParseFile(fset, p, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, &file{rel: rel, src: b, ast: f, tf: fset.File(f.FileStart)})
		return nil
	})
	if err != nil {
		return nil, err
	}
	sort.Slice(files, func(i, j int) bool { return files[i].rel < files[j].rel })
	res.Files = len(files)
	for _, f := range files {
		if why := uncontrolled(f); why != "" && res.Opaque == "" {
			res.Opaque = f.rel + ": " + why
		}
	}
	for _, f := range files {
		out := f.src
		if res.Opaque == "" && f.ast.Name.Name != "main" {
			out = rewrite(f, res)
		}
		if err := write(filepath.Join(dst, f.rel), out); err != nil {
			return nil, err
		}
	}
	return res, nil
}

func write(p string, b []byte) error {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		return err
	}
	return os.WriteFile(p, b, 0o644)
}

func importName(f *file, pkg string) string {
	for _, im := range f.ast.Imports {
		if p, _ := strconv.Unquote(im.Path.Value); p == pkg {
			if im.Name != nil {
				return im.Name.Name
			}
			return pkg
		}
	}
	return ""
}

func uncontrolled(f *file) (why string) {
	sn, tn := importName(f, "sync"), importName(f, "time")
	if sn == "." || tn == "." {
		return "dot import of sync or time"
	}
	ast.Inspect(f.ast, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GoStmt:
			why = "go statement"
		case *ast.SelectStmt:
			why = "select that waits"
			for _, c := range x.Body.List {
				if c.(*ast.CommClause).Comm == nil {
					why = ""
				}
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && len(x.Args) == 1 {
				if _, ok := x.Args[0].(*ast.ChanType); ok {
					why = "unbuffered channel"
				}
			}
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && sn != "" && id.Name == sn && !simulated[x.Sel.Name] {
				why = "sync." + x.Sel.Name
			} else if ok && tn != "" && id.Name == tn && timers[x.Sel.Name] {
				why = "time." + x.Sel.Name
			}
		}
		return why == ""
	})
	return why
}

type insert struct {
	off  int
	text string
	seq  int
}

func rewrite(f *file, res *Result) []byte {
	var ins []insert
	add := func(pos token.Pos, text string) {
		ins = append(ins, insert{f.tf.Offset(pos), text, len(ins)})
	}
	fn := ""
	used := false
	y := func(pos token.Pos) string {
		used = true
		res.Sites = append(res.Sites, Site{f.rel, f.tf.Line(pos), fn})
		return fmt.Sprintf("__simrt.Y(%d);", len(res.Sites)-1)
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			add(s.Pos(), y(s.Pos()))
		}
	}
	clauses := map[*ast.BlockStmt]bool{} // bodies of switch statements hold clauses, not statements
	polls := map[ast.Node]bool{}         // channel operations that do not wait
	replace := func(pos token.Pos, old, text string) {
		ins = append(ins, insert{f.tf.Offset(pos), text + "\x00" + old, len(ins)})
	}
	recv := func(x *ast.UnaryExpr, name string) {
		if !polls[x] {
			used, polls[x] = true, true
			replace(x.OpPos, "<-", "__simrt."+name+"(")
			add(x.End(), ")")
		}
	}
	arrow := func(e ast.Expr) *ast.UnaryExpr {
		if x, ok := ast.Unparen(e).(*ast.UnaryExpr); ok && x.Op == token.ARROW {
			return x
		}
		return nil
	}
	visit := func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SwitchStmt:
			clauses[x.Body] = true
		case *ast.TypeSwitchStmt:
			clauses[x.Body] = true
		case *ast.BlockStmt:
			if clauses[x] {
				return true
			}
			if len(x.List) == 0 {
				add(x.Lbrace+1, y(x.Lbrace))
			}
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.SelectStmt:
			clauses[x.Body] = true
		case *ast.CommClause:
			list(x.Body)
			switch c := x.Comm.(type) {
			case *ast.SendStmt:
				polls[c] = true
			case *ast.ExprStmt:
				polls[arrow(c.X)] = true
			case *ast.AssignStmt:
				polls[arrow(c.Rhs[0])] = true
			}
		case *ast.SendStmt:
			if !polls[x] {
				used = true
				add(x.Chan.Pos(), "__simrt.Send(")
				replace(x.Arrow, "<-", ")(")
				add(x.Value.End(), ")")
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u := arrow(x.Rhs[0]); u != nil {
					recv(u, "Recv2")
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u := arrow(x.Values[0]); u != nil {
					recv(u, "Recv2")
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				recv(x, "Recv")
			}
		}
		return true
	}
	for _, d := range f.ast.Decls {
		fn = "(package)"
		if fd, ok := d.(*ast.FuncDecl); ok {
			fn = fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) > 0 {
				fn = "(" + string(f.src[f.tf.Offset(fd.Recv.List[0].Type.Pos()):f.tf.Offset(fd.Recv.List[0].Type.End())]) + ")." + fn
			}
		}
		ast.Inspect(d, visit)
	}
	for _, im := range f.ast.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if s := standIns[p]; s != "" {
			name := ""
			if im.Name == nil {
				name = p + " "
			}
			ins = append(ins, insert{f.tf.Offset(im.Path.Pos()), name + strconv.Quote(s) + "\x00" + im.Path.Value, len(ins)})
		}
	}
	if used {
		add(f.ast.Name.End(), `;import __simrt "verifsim/simrt"`)
	}
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var out []byte
	at := 0
	for _, in := range ins {
		out = append(out, f.src[at:in.off]...)
		at = in.off
		if text, old, ok := strings.Cut(in.text, "\x00"); ok { // replaces an import path
			out = append(out, text...)
			at += len(old)
			continue
		}
		out = append(out, in.text...)
	}
	return append(out, f.src[at:]...)
}
