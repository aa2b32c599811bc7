// Command instr makes the instrumented copies of /repo that the simulator runs.
//
//	instr -src /repo -out DIR
//
// For every variant (a choice of field backend made by build constraints) it
// writes DIR/<variant>: the non-test sources that the variant selects, under
// the module path verif.local/<variant>, with
//   - a scheduling point (simhook.Y) before every statement,
//   - "sync" and "crypto/rand" imports replaced by the simulator's versions,
//   - go statements replaced by simulator tasks.
//
// It also writes DIR/cref (a plain copy of the C reference) and
// DIR/sites.json with what is known about each scheduling point.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

const repoPath = "github.com/bwesterb/go-ristretto"

type Site struct {
	Variant string `json:"v"`
	File    string `json:"f"`
	Func    string `json:"fn"`
	Line    int    `json:"l"`
	Entry   bool   `json:"e,omitempty"` // first statement of a function
	Write   bool   `json:"w,omitempty"` // may write a package-level variable
	Leaf    bool   `json:"leaf,omitempty"`
}

var sites []Site

type edit struct {
	start, end int
	text       string
	order      int
	closes     bool
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func main() {
	src := flag.String("src", "/repo", "")
	out := flag.String("out", "", "")
	flag.BoolVar(&plain, "plain", false, "no observation of indices and comparisons")
	flag.BoolVar(&coarseVariant, "coarse", false, "real goroutines and locks, no scheduling points")
	flag.Parse()
	srcRoot = *src

	goVersion := "1.13"
	if gm, err := os.ReadFile(filepath.Join(*src, "go.mod")); err == nil {
		if m := regexp.MustCompile(`(?m)^go\s+(\S+)`).FindSubmatch(gm); m != nil {
			goVersion = string(m[1])
		}
	}

	// the rewritten copies use type parameters; nothing changes meaning up to 1.21
	if f := strings.Split(goVersion, "."); len(f) >= 2 && f[0] == "1" {
		if n, err := strconv.Atoi(f[1]); err == nil && n < 21 {
			goVersion = "1.21"
		}
	}

	old := []string{}
	for i := 1; i <= 12; i++ {
		old = append(old, "go1."+strconv.Itoa(i))
	}
	for _, v := range []struct {
		name string
		tags []string
		rel  []string
	}{
		{"r51", nil, nil},
		{"gen", []string{"forcegeneric"}, nil},
		{"asm", nil, old},
	} {
		ctx := build.Default
		ctx.BuildTags = v.tags
		ctx.CgoEnabled = false
		ctx.GOOS, ctx.GOARCH = "linux", "amd64"
		if v.rel != nil {
			ctx.ReleaseTags = v.rel
		}
		dst := filepath.Join(*out, v.name)
		die(os.MkdirAll(dst, 0o755))
		die(os.WriteFile(filepath.Join(dst, "go.mod"),
			[]byte("module verif.local/"+v.name+"\n\ngo "+goVersion+"\n"), 0o644))
		err := filepath.Walk(*src, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if !fi.IsDir() {
				return nil
			}
			b := filepath.Base(p)
			if p != *src && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "cref" || b == "vendor") {
				return filepath.SkipDir
			}
			ents, err := os.ReadDir(p)
			if err != nil {
				return err
			}
			has := false
			for _, e := range ents {
				if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
					has = true
				}
			}
			if !has {
				return nil
			}
			rel, _ := filepath.Rel(*src, p)
			return doPackage(&ctx, v.name, p, filepath.Join(dst, rel), rel)
		})
		die(err)
	}

	// the C reference: a plain copy
	cdst := filepath.Join(*out, "cref")
	die(os.MkdirAll(cdst, 0o755))
	die(os.WriteFile(filepath.Join(cdst, "go.mod"), []byte("module verif.local/cref\n\ngo "+goVersion+"\n"), 0o644))
	ents, err := os.ReadDir(filepath.Join(*src, "cref"))
	die(err)
	for _, e := range ents {
		if e.IsDir() || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(*src, "cref", e.Name()))
		die(err)
		die(os.WriteFile(filepath.Join(cdst, e.Name()), b, 0o644))
	}

	js, err := json.Marshal(sites)
	die(err)
	die(os.WriteFile(filepath.Join(*out, "sites.json"), js, 0o644))
}

var constraint = regexp.MustCompile(`(?m)^//\s*(go:build|\+build)\b.*$`)

func doPackage(ctx *build.Context, variant, dir, dst, rel string) error {
	pkg, err := ctx.ImportDir(dir, 0)
	if err != nil {
		if _, ok := err.(*build.NoGoError); ok {
			return nil
		}
		return err
	}
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return err
	}
	for _, f := range append(append([]string{}, pkg.SFiles...), pkg.HFiles...) {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			return err
		}
		b = constraint.ReplaceAll(b, []byte("//"))
		if err := os.WriteFile(filepath.Join(dst, f), b, 0o644); err != nil {
			return err
		}
	}
	for _, pat := range pkg.EmbedPatterns {
		ms, _ := filepath.Glob(filepath.Join(dir, pat))
		for _, m := range ms {
			if b, err := os.ReadFile(m); err == nil {
				r, _ := filepath.Rel(dir, m)
				os.MkdirAll(filepath.Dir(filepath.Join(dst, r)), 0o755)
				os.WriteFile(filepath.Join(dst, r), b, 0o644)
			}
		}
	}
	fset := token.NewFileSet()
	files := map[string]*ast.File{}
	srcs := map[string][]byte{}
	globals := map[string]bool{}
	maps := map[string]bool{} // package-level variables with a map in their declaration
	coarse := coarseVariant
	for _, f := range pkg.GoFiles {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			return err
		}
		b = constraint.ReplaceAllFunc(b, func(x []byte) []byte {
			return []byte("//" + strings.Repeat(" ", len(x)-2))
		})
		af, err := parser.ParseFile(fset, filepath.Join(dir, f), b, parser.ParseComments)
		if err != nil {
			return err
		}
		files[f], srcs[f] = af, b
		for _, d := range af.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				for _, s := range gd.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if n.Name == "_" {
							continue
						}
						globals[n.Name] = true
						if hasMap(s) {
							maps[n.Name] = true
						}
					}
				}
			}
		}
	}
	info := typeInfo(ctx, dir, fset, files, map[string]*types.Package{})
	changed = assigned(files, globals)
	races = orderable(files, srcs) && !coarse && !plain
	for _, f := range pkg.GoFiles {
		res, err := doFile(info, fset, variant, filepath.Join(rel, f), files[f], srcs[f], globals, maps, coarse)
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dst, f), res, 0o644); err != nil {
			return err
		}
	}
	return nil
}

// coarseVariant: should the rewriting not suit the code, it keeps its real
// goroutines and locks, and is scheduled between calls only.
var coarseVariant bool

func hasMap(n ast.Node) (found bool) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.MapType:
			found = true
		case *ast.FuncLit:
			return false
		}
		return true
	})
	return
}

func baseIdent(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		case *ast.UnaryExpr:
			if x.Op != token.AND {
				return nil
			}
			e = x.X
		default:
			return nil
		}
	}
}

func doFile(info *types.Info, fset *token.FileSet, variant, name string, af *ast.File, src []byte,
	globals, maps map[string]bool, coarse bool) ([]byte, error) {
	var edits []edit
	bytesUsed, runtimeUsed := false, false
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(s, e int, t string) { edits = append(edits, edit{s, e, t, len(edits), false}) }
	// done ends what an add began: what began last ends first
	done := func(o int, t string) { edits = append(edits, edit{o, o, t, len(edits), true}) }

	// imports
	for _, im := range af.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		np := p
		switch {
		case p == repoPath || strings.HasPrefix(p, repoPath+"/"):
			np = "verif.local/" + variant + strings.TrimPrefix(p, repoPath)
		case p == "sync" && !coarse:
			np = "verif.local/simhook/sync"
		case p == "sync/atomic" && !coarse:
			np = "verif.local/simhook/atomic"
		case p == "time" && !coarse:
			np = "verif.local/simhook/time"
		case p == "crypto/rand":
			np = "verif.local/simhook/rand"
		}
		if np != p {
			add(off(im.Path.Pos()), off(im.Path.End()), strconv.Quote(np))
		}
	}
	add(off(af.Name.End()), off(af.Name.End()), `; import __simhook "verif.local/simhook"`)

	// what an observer of the caches and of time can see: indices, operands of
	// short-circuiting operators, comparisons that stop at the first difference
	observe := func(n ast.Node) {
		wrap := func(e ast.Expr, f string) {
			add(off(e.Pos()), off(e.Pos()), "__simhook."+f+"(")
			done(off(e.End()), ")")
		}
		index := func(e ast.Expr) {
			if e != nil && !literal(e) && info.Types[e].Value == nil {
				wrap(e, "I")
			}
		}
		switch x := n.(type) {
		case *ast.IndexExpr:
			if indexable(info.Types[x.X].Type) {
				index(x.Index)
			}
		case *ast.SliceExpr:
			index(x.Low)
			index(x.High)
			index(x.Max)
		case *ast.BinaryExpr:
			switch x.Op {
			case token.LAND, token.LOR:
				wrap(x.Y, "B")
			case token.EQL, token.NEQ:
				a, b := info.Types[x.X], info.Types[x.Y]
				if several(a.Type) && a.Type == b.Type && a.Value == nil && b.Value == nil {
					not := ""
					if x.Op == token.NEQ {
						not = "!"
					}
					add(off(x.X.Pos()), off(x.X.Pos()), not+"__simhook.Eq(")
					add(off(x.OpPos), off(x.OpPos)+2, ",")
					done(off(x.Y.End()), ")")
				}
			}
		case *ast.CallExpr:
			if se, ok := x.Fun.(*ast.SelectorExpr); ok && (se.Sel.Name == "Equal" || se.Sel.Name == "Compare") {
				if id, ok := se.X.(*ast.Ident); ok && id.Name == "bytes" && id.Obj == nil {
					bytesUsed = true
					add(off(se.Pos()), off(se.End()), "__simhook.Bytes"+se.Sel.Name)
				}
			}
		}
	}

	isGlobal := func(id *ast.Ident) bool {
		return id != nil && globals[id.Name] && (id.Obj == nil || isPkgObj(af, id.Obj))
	}
	mayWrite := func(s ast.Stmt) bool {
		w := false
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt, *ast.FuncLit:
				return false
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					for _, l := range x.Lhs {
						if isGlobal(baseIdent(l)) {
							w = true
						}
					}
				}
			case *ast.IncDecStmt:
				if isGlobal(baseIdent(x.X)) {
					w = true
				}
			case *ast.CallExpr:
				if se, ok := x.Fun.(*ast.SelectorExpr); ok && isGlobal(baseIdent(se.X)) {
					w = true
				}
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "copy" && len(x.Args) > 0 && isGlobal(baseIdent(x.Args[0])) {
					w = true
				}
			}
			return true
		})
		return w
	}

	// mapUse says whether a statement itself (not the blocks in it) reads (1)
	// or writes (2) a map that others may see, and which.
	mapUse := func(s ast.Stmt) (use int, name string) {
		note := func(e ast.Expr, k int) {
			if k <= use {
				return
			}
			id := baseIdent(e)
			if id == nil {
				return
			}
			if !(isGlobal(id) && maps[id.Name]) {
				t := info.Types[e].Type
				if t == nil {
					return
				}
				if _, ok := t.Underlying().(*types.Map); !ok {
					return
				}
			}
			// must mean the same before the statement
			ok := true
			ast.Inspect(e, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.CallExpr, *ast.FuncLit:
					ok = false
				case *ast.SelectorExpr:
					ast.Inspect(x.X, func(n ast.Node) bool {
						if y, is := n.(*ast.Ident); is {
							ok = ok && (settled(info, y, s) || isGlobal(y))
						}
						return true
					})
					return false
				case *ast.Ident:
					ok = ok && (settled(info, x, s) || isGlobal(x))
				}
				return ok
			})
			if ok {
				use, name = k, string(src[off(e.Pos()):off(e.End())])
			}
		}
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
				return false
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if ix, ok := l.(*ast.IndexExpr); ok {
						note(ix.X, 2)
					}
				}
			case *ast.IncDecStmt:
				if ix, ok := x.X.(*ast.IndexExpr); ok {
					note(ix.X, 2)
				}
			case *ast.IndexExpr:
				note(x.X, 1)
			case *ast.RangeStmt:
				note(x.X, 1)
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) > 0 {
					switch id.Name {
					case "delete", "clear":
						note(x.Args[0], 2)
					case "len":
						note(x.Args[0], 1)
					}
				}
			}
			return true
		})
		return
	}
	// torn says whether a statement stores a value that may have several words
	// where others can see it.
	torn := func(s ast.Stmt) bool {
		x, ok := s.(*ast.AssignStmt)
		if !ok || x.Tok != token.ASSIGN || len(x.Lhs) != 1 || len(x.Rhs) != 1 {
			return false
		}
		switch l := x.Lhs[0].(type) {
		case *ast.StarExpr:
			return true
		case *ast.Ident, *ast.SelectorExpr:
			return isGlobal(baseIdent(l))
		case *ast.IndexExpr:
			id := baseIdent(l)
			return isGlobal(id) && !maps[id.Name]
		}
		return false
	}

	// seen: a variable that several tasks may use, one of them to change it,
	// and that is not an object whose methods do so.
	seen := func(e ast.Expr) bool {
		if !races || !info.Types[e].Addressable() {
			return false
		}
		switch x := e.(type) {
		case *ast.Ident:
			return isGlobal(x) && changed[x.Name]
		case *ast.SelectorExpr:
			if id := valueBase(info, x.X); isGlobal(id) {
				return changed[id.Name]
			}
			sel := info.Selections[x]
			return sel != nil && sel.Kind() == types.FieldVal && word(info.Types[e].Type) && sel.Obj().Pkg() != nil && sel.Obj().Pkg().Path() == "p"
		case *ast.IndexExpr:
			if t := info.Types[x.X].Type; t == nil {
				return false
			} else if _, ok := t.Underlying().(*types.Map); ok {
				return false
			}
			id := baseIdent(x.X)
			return isGlobal(id) && changed[id.Name]
		}
		return false
	}
	// loads says whether the last node of path reads such a variable.
	loads := func(path []ast.Node) bool {
		n := path[len(path)-1]
		e, ok := n.(ast.Expr)
		if !ok || len(path) < 2 || !seen(e) {
			return false
		}
		t := info.Types[e].Type
		value := false // not a reference to something else
		switch t.Underlying().(type) {
		case *types.Array, *types.Struct:
			value = true
		}
		switch p := path[len(path)-2].(type) {
		case *ast.SelectorExpr:
			if p.X != n || value {
				return false
			}
			if sel := info.Selections[p]; sel == nil {
				return false
			} else if sel.Kind() != types.FieldVal {
				f, ok := sel.Obj().(*types.Func)
				if !ok {
					return false
				}
				_, ptr := t.Underlying().(*types.Pointer)
				if rv := f.Type().(*types.Signature).Recv(); rv != nil && !ptr {
					if _, is := rv.Type().(*types.Pointer); is {
						return false
					}
				}
			}
		case *ast.UnaryExpr:
			return p.Op != token.AND
		case *ast.ParenExpr:
			return false
		case *ast.AssignStmt:
			for _, l := range p.Lhs {
				if l == n {
					return false
				}
			}
		case *ast.IncDecStmt, *ast.CommClause:
			return false
		case *ast.RangeStmt:
			return p.X == n && !value
		case *ast.IndexExpr:
			return p.X != n || !value
		case *ast.SliceExpr:
			return p.X != n || !value
		case *ast.KeyValueExpr:
			return p.Value == n
		case *ast.CallExpr:
			if info.Types[p].Value != nil || info.Types[p.Fun].IsBuiltin() && value {
				return false
			}
		}
		return true
	}
	// stores lists the variables of that kind that a statement writes.
	stores := func(s ast.Stmt) (l []string) {
		var lhs []ast.Expr
		switch x := s.(type) {
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				lhs = x.Lhs
			}
		case *ast.IncDecStmt:
			lhs = []ast.Expr{x.X}
		}
		for _, e := range lhs {
			if !seen(e) {
				continue
			}
			ok := true
			ast.Inspect(e, func(n ast.Node) bool {
				switch n.(type) {
				case *ast.CallExpr, *ast.FuncLit:
					ok = false
				case *ast.Ident:
					// it must mean the same after the statement
					for _, o := range lhs {
						if n == o && o != e {
							ok = false
						}
						if id, is := o.(*ast.Ident); is && o != e && id.Name == n.(*ast.Ident).Name {
							ok = false
						}
					}
				case *ast.IndexExpr, *ast.SelectorExpr:
					if len(lhs) > 1 && n != e {
						ok = false
					}
				}
				return ok
			})
			if ok {
				l = append(l, string(src[off(e.Pos()):off(e.End())]))
			}
		}
		return
	}

	newSite := func(fn string, p token.Pos, write bool) int {
		sites = append(sites, Site{variant, name, fn, fset.Position(p).Line, false, write, strings.Contains(name, "field_")})
		return len(sites) - 1
	}
	// within sees to scheduling points inside statements: after a call whose
	// result the statement uses further, and at the use of an object of the
	// standard library that calls change.
	within := func(fn string, path []ast.Node) {
		x, ok := path[len(path)-1].(*ast.CallExpr)
		if !ok {
			return
		}
		tv := info.Types[x]
		if tv.Type == nil || info.Types[x.Fun].IsType() || info.Types[x.Fun].IsBuiltin() {
			return
		}
		if _, ok := tv.Type.(*types.Tuple); !ok && tv.Value == nil && tv.Type != types.Typ[types.Invalid] && nested(path) {
			id := newSite(fn, x.Pos(), isGlobal(chainBase(x)))
			add(off(x.Pos()), off(x.Pos()), fmt.Sprintf("__simhook.V(%d, ", id))
			done(off(x.End()), ")")
		}
		se, ok := x.Fun.(*ast.SelectorExpr)
		if !ok {
			return
		}
		sel := info.Selections[se]
		if sel == nil || sel.Kind() != types.MethodVal || len(sel.Index()) != 1 {
			return
		}
		use := func(e ast.Expr, write bool) {
			t := info.Types[e].Type
			if object(t) == "" {
				return
			}
			id := chainBase(e)
			if !isGlobal(id) && ownValue(info, id) {
				return
			}
			amp := ""
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Interface:
			default:
				amp = "&"
			}
			n := newSite(fn, e.Pos(), write && isGlobal(id))
			add(off(e.Pos()), off(e.Pos()), fmt.Sprintf("__simhook.Obj(%d, %q, %v, %v, %s", n, object(t), write, isGlobal(id), amp))
			done(off(e.End()), ")")
		}
		o := object(sel.Recv())
		if o == "" {
			return
		}
		use(se.X, changes(o, se.Sel.Name))
		if strings.HasPrefix(o, "math/big.") {
			for i, a := range x.Args {
				if _, ok := info.Types[a].Type.(*types.Pointer); ok {
					use(a, changesArg(se.Sel.Name, i))
				}
			}
		}
	}

	if !coarse {
		for _, d := range af.Decls {
			fn := "init"
			var root ast.Node = d
			if fd, ok := d.(*ast.FuncDecl); ok {
				if fd.Body == nil {
					continue
				}
				if fd.Doc != nil && strings.Contains(commentText(fd.Doc), "go:nosplit") {
					continue
				}
				fn = fd.Name.Name
				if fd.Recv != nil && len(fd.Recv.List) > 0 {
					if id := baseIdent(fd.Recv.List[0].Type); id != nil {
						fn = id.Name + "." + fn
					}
				}
				root = fd.Body
			}
			first := true
			list := func(l []ast.Stmt) {
				for _, s := range l {
					if _, ok := s.(*ast.EmptyStmt); ok {
						continue
					}
					id := len(sites)
					sites = append(sites, Site{variant, name, fn, fset.Position(s.Pos()).Line, first, mayWrite(s), strings.Contains(name, "field_")})
					first = false
					o := off(s.Pos())
					add(o, o, fmt.Sprintf("__simhook.Y(%d); ", id))
					if u, n := mapUse(s); u > 0 {
						add(o, o, fmt.Sprintf("__simhook.Map(%d, %q, func() interface{} { return %s }, %v, %v); ", id, rel(name)+n, n, u == 2, races && immediate(info, s)))
					}
					for _, l := range stores(s) {
						done(off(s.End()), fmt.Sprintf("; __simhook.Wr(%d, &(%s))", id, l))
					}
					if torn(s) {
						x := s.(*ast.AssignStmt)
						add(o, o, fmt.Sprintf("{ __d := __simhook.D(%d, &(", id))
						add(off(x.Lhs[0].End()), off(x.Rhs[0].Pos()), ")); *__d.V = ")
						done(off(x.End()), "; __d.C() }")
					}
				}
			}
			var path []ast.Node
			ast.Inspect(root, func(n ast.Node) bool {
				if n == nil {
					path = path[:len(path)-1]
					return true
				}
				if len(path) > 0 {
					if cc, ok := path[len(path)-1].(*ast.CommClause); ok && n == cc.Comm {
						return false // moved as it is
					}
				}
				path = append(path, n)
				if _, ok := d.(*ast.FuncDecl); ok && !plain {
					observe(n)
					within(fn, path)
					if loads(path) {
						e := n.(ast.Expr)
						id := newSite(fn, e.Pos(), false)
						add(off(e.Pos()), off(e.Pos()), fmt.Sprintf("__simhook.Rd(%d, &", id))
						done(off(e.End()), ")")
					}
				}
				switch x := n.(type) {
				case *ast.ForStmt:
					if x.Body != nil && len(x.Body.List) == 0 {
						id := len(sites)
						sites = append(sites, Site{variant, name, fn, fset.Position(x.Pos()).Line, false, false, false})
						o := off(x.Body.Lbrace) + 1
						add(o, o, fmt.Sprintf(" __simhook.Y(%d) ", id))
					}
				case *ast.BlockStmt:
					if x != nil && !isSwitchBody(x) {
						list(x.List)
					}
				case *ast.CaseClause:
					list(x.Body)
				case *ast.CommClause:
					list(x.Body)
				case *ast.SelectStmt:
					text := func(e ast.Expr) string { return string(src[off(e.Pos()):off(e.End())]) }
					pre, args, def := "{ ", "", false
					for i, c := range x.Body.List {
						cc := c.(*ast.CommClause)
						set := ""
						recv := func(e ast.Expr) {
							if u, ok := ast.Unparen(e).(*ast.UnaryExpr); ok {
								pre += fmt.Sprintf("__g%d, __k%d := __simhook.CaseRecv(%s); _ = __g%d; ", i, i, text(u.X), i)
							}
						}
						switch s := cc.Comm.(type) {
						case nil:
							def = true
							continue
						case *ast.SendStmt:
							pre += fmt.Sprintf("__k%d := __simhook.CaseSend(%s)(%s); ", i, text(s.Chan), text(s.Value))
						case *ast.ExprStmt:
							recv(s.X)
						case *ast.AssignStmt:
							recv(s.Rhs[0])
							set = fmt.Sprintf("%s %s __g%d.X; ", text(s.Lhs[0]), s.Tok, i)
							if len(s.Lhs) == 2 {
								set = fmt.Sprintf("%s, %s %s __g%d.X, __g%d.OK; ", text(s.Lhs[0]), text(s.Lhs[1]), s.Tok, i, i)
							}
						}
						args += fmt.Sprintf(", __k%d", i)
						add(off(cc.Case), off(cc.Colon)+1, fmt.Sprintf("case %d: %s", strings.Count(args, ",")-1, set))
					}
					add(off(x.Select), off(x.Body.Lbrace)+1, fmt.Sprintf("%sswitch __simhook.Select(%d, %v%s) {", pre, newSite(fn, x.Pos(), true), def, args))
					end := off(x.Body.Rbrace)
					if !def {
						add(end, end, "default: panic(\"select\") ")
					}
					add(end+1, end+1, " }")
				case *ast.RangeStmt:
					t := info.Types[x.X].Type
					if t == nil {
						break
					}
					kv := [2]string{"_", "_"}
					set := ""
					for i, e := range []ast.Expr{x.Key, x.Value} {
						if e == nil {
							continue
						}
						kv[i] = string(src[off(e.Pos()):off(e.End())])
						if x.Tok == token.ASSIGN && kv[i] != "_" {
							v := fmt.Sprintf("__x%d", i)
							set += kv[i] + " = " + v + "; "
							kv[i] = v
						}
					}
					body := off(x.Body.Lbrace) + 1
					switch t.Underlying().(type) {
					case *types.Chan:
						id := newSite(fn, x.Pos(), true)
						add(off(x.For)+3, off(x.X.Pos()), fmt.Sprintf(" __c, %s, __ok := __simhook.RangeStart(%d, ", kv[0], id))
						done(off(x.X.End()), fmt.Sprintf("); __ok; %s, __ok = __simhook.Recv2(%d, __c) ", kv[0], id))
						add(body, body, set)
					case *types.Map:
						add(off(x.For)+3, off(x.X.Pos()), fmt.Sprintf(" __it, %s, %s, __ok := __simhook.MapStart(", kv[0], kv[1]))
						done(off(x.X.End()), fmt.Sprintf("); __ok; %s, %s, __ok = __it.Next() ", kv[0], kv[1]))
						add(body, body, set)
					}
				case *ast.CallExpr:
					if se, ok := x.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "Gosched" && len(x.Args) == 0 {
						if id, ok := se.X.(*ast.Ident); ok && id.Name == "runtime" && id.Obj == nil {
							runtimeUsed = true
							add(off(x.Pos()), off(x.Rparen), fmt.Sprintf("__simhook.Gosched(%d", newSite(fn, x.Pos(), false)))
						}
					}
					id, ok := x.Fun.(*ast.Ident)
					if !ok || len(x.Args) == 0 || info.Types[x.Args[0]].Type == nil {
						break
					}
					if _, ok := info.Uses[id].(*types.Builtin); !ok && info.Uses[id] != nil {
						break
					}
					if _, ok := info.Types[x.Args[0]].Type.Underlying().(*types.Chan); !ok {
						break
					}
					switch id.Name {
					case "make":
						if len(x.Args) == 1 {
							add(off(x.Args[0].End()), off(x.Args[0].End()), ", __simhook.Unbuffered(0)")
						} else if info.Types[x.Args[1]].Value == nil || info.Types[x.Args[1]].Value.String() == "0" {
							add(off(x.Args[1].Pos()), off(x.Args[1].Pos()), "__simhook.Unbuffered(int(")
							done(off(x.Args[1].End()), "))")
						}
					case "close":
						add(off(id.Pos()), off(x.Lparen)+1, fmt.Sprintf("__simhook.Close(%d, ", newSite(fn, x.Pos(), true)))
					case "len":
						add(off(id.Pos()), off(id.End()), "__simhook.ChLen")
					case "cap":
						add(off(id.Pos()), off(id.End()), "__simhook.ChCap")
					}
				case *ast.SendStmt:
					add(off(x.Pos()), off(x.Pos()), fmt.Sprintf("__simhook.Send(%d, ", newSite(fn, x.Pos(), true)))
					add(off(x.Arrow), off(x.Arrow)+2, ")(")
					done(off(x.End()), ")")
				case *ast.UnaryExpr:
					if x.Op == token.ARROW {
						f := "Recv"
						switch p := path[len(path)-2].(type) {
						case *ast.AssignStmt:
							if len(p.Lhs) == 2 && len(p.Rhs) == 1 {
								f = "Recv2"
							}
						case *ast.ValueSpec:
							if len(p.Names) == 2 && len(p.Values) == 1 {
								f = "Recv2"
							}
						}
						add(off(x.OpPos), off(x.OpPos)+2, fmt.Sprintf("__simhook.%s(%d, ", f, newSite(fn, x.Pos(), true)))
						done(off(x.End()), ")")
					}
				case *ast.GoStmt:
					bi := x.Call.Ellipsis.IsValid()
					if id, ok := x.Call.Fun.(*ast.Ident); ok {
						if _, ok := info.Uses[id].(*types.Builtin); ok {
							bi = true
						}
					}
					if bi {
						add(off(x.Go), off(x.Call.Fun.Pos()), "__simhook.Go(func() { ")
						add(off(x.End()), off(x.End()), " })")
					} else {
						add(off(x.Go), off(x.Call.Fun.Pos()), "__simhook.GoBind(")
						if len(x.Call.Args) > 0 {
							add(off(x.Call.Lparen), off(x.Call.Lparen)+1, ", ")
						} else {
							add(off(x.Call.Lparen), off(x.Call.Lparen)+1, " ")
						}
					}
				}
				return true
			})
		}
	}

	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].start != edits[j].start {
			return edits[i].start < edits[j].start
		}
		// insertions before replacements at the same offset
		if edits[i].end != edits[j].end {
			return edits[i].end < edits[j].end
		}
		if edits[i].closes != edits[j].closes {
			return edits[i].closes
		}
		return edits[i].closes && edits[i].order > edits[j].order
	})
	var b strings.Builder
	pos := 0
	for _, e := range edits {
		if e.start < pos {
			return nil, fmt.Errorf("%s: overlapping edits at %d", name, e.start)
		}
		b.Write(src[pos:e.start])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	b.WriteString("\n\nvar _ = __simhook.Y\n")
	if runtimeUsed {
		b.WriteString("\nvar _ = runtime.Gosched\n")
	}
	if bytesUsed {
		b.WriteString("\nvar _ = bytes.Equal\n")
	}
	return []byte(b.String()), nil
}

// immediate: no call and no channel operation in the statement itself.
func immediate(info *types.Info, s ast.Stmt) bool {
	r := true
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.CallExpr:
			if tv := info.Types[x.Fun]; !tv.IsType() && !tv.IsBuiltin() {
				r = false
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				r = false
			}
		}
		return r
	})
	return r
}

// word: a type whose values others may see come and go as a whole.
func word(t types.Type) bool {
	if t == nil {
		return false
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Kind() != types.Invalid
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	return false
}

// valueBase is the variable of which e is a part; nil if a reference comes in between.
func valueBase(info *types.Info, e ast.Expr) *ast.Ident {
	for {
		t := info.Types[e].Type
		if t == nil {
			return nil
		}
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
		default:
			return nil
		}
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		default:
			return nil
		}
	}
}

// assigned lists the package-level variables that functions assign to.
func assigned(files map[string]*ast.File, globals map[string]bool) map[string]bool {
	r := map[string]bool{}
	for _, af := range files {
		af := af
		note := func(e ast.Expr) {
			if id := baseIdent(e); id != nil && globals[id.Name] && (id.Obj == nil || isPkgObj(af, id.Obj)) {
				r[id.Name] = true
			}
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Recv == nil && fd.Name.Name == "init" {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						for _, l := range x.Lhs {
							note(l)
						}
					}
				case *ast.IncDecStmt:
					note(x.X)
				}
				return true
			})
		}
	}
	return r
}

// orderable: all that the files synchronise with is known to the simulator.
func orderable(files map[string]*ast.File, srcs map[string][]byte) bool {
	for n, af := range files {
		for _, im := range af.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			switch strings.Split(p, "/")[0] {
			case "context", "net", "os", "syscall", "plugin", "unique", "weak", "golang.org":
				return false
			}
		}
		for _, s := range []string{"io.Pipe", "go:linkname", "runtime.SetFinalizer", "runtime.AddCleanup"} {
			if strings.Contains(string(srcs[n]), s) {
				return false
			}
		}
	}
	return true
}

// rel names the package of a file.
func rel(name string) string { return filepath.Dir(name) + "." }

// nested: the statement goes on to use the value of the expression.
func nested(path []ast.Node) bool {
	for i := len(path) - 2; i >= 0; i-- {
		switch p := path[i].(type) {
		case *ast.ParenExpr:
			continue
		case *ast.CallExpr:
			// not what a deferred call or a new task calls
			if i > 0 {
				switch path[i-1].(type) {
				case *ast.DeferStmt, *ast.GoStmt:
					return false
				}
			}
			return p.Fun != path[i+1]
		case *ast.SelectorExpr, *ast.BinaryExpr, *ast.UnaryExpr, *ast.StarExpr,
			*ast.IndexExpr, *ast.SliceExpr, *ast.KeyValueExpr, *ast.CompositeLit:
			return true
		default:
			return false
		}
	}
	return false
}

// chainBase is the name at the start of a chain of selections and calls.
func chainBase(e ast.Expr) *ast.Ident {
	for {
		if id := baseIdent(e); id != nil {
			return id
		}
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			e = x.X
		case *ast.CallExpr:
			se, ok := x.Fun.(*ast.SelectorExpr)
			if !ok {
				return nil
			}
			e = se.X
		default:
			return nil
		}
	}
}

// ownValue: a local variable that is not a reference to something else.
func ownValue(info *types.Info, id *ast.Ident) bool {
	if id == nil {
		return false
	}
	v, ok := info.Uses[id].(*types.Var)
	if !ok {
		return false
	}
	switch v.Type().Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// object names a type of the standard library whose values calls change.
func object(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	s := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	switch s {
	case "math/big.Int", "math/big.Rat", "math/big.Float",
		"bytes.Buffer", "strings.Builder", "bufio.Reader", "bufio.Writer",
		"math/rand.Rand", "hash.Hash", "hash.Hash32", "hash.Hash64":
		return s
	}
	return ""
}

// changes: the method changes its receiver.
func changes(object, method string) bool {
	switch object {
	case "math/big.Int", "math/big.Rat", "math/big.Float":
		switch method {
		case "Append", "Bit", "BitLen", "Bits", "Bytes", "Cmp", "CmpAbs", "FillBytes", "Float64", "Format",
			"GobEncode", "Int64", "IsInt64", "IsUint64", "MarshalJSON", "MarshalText", "ProbablyPrime",
			"Sign", "String", "Text", "TrailingZeroBits", "Uint64", "AppendText", "IsInt", "Num", "Denom",
			"FloatString", "RatString", "FloatPrec", "Float32", "Acc", "Int", "Rat", "IsInf", "MantExp",
			"MinPrec", "Mode", "Prec", "Signbit":
			return false
		}
	case "hash.Hash", "hash.Hash32", "hash.Hash64":
		return method == "Write" || method == "Reset"
	case "bytes.Buffer", "strings.Builder":
		switch method {
		case "Bytes", "String", "Len", "Cap", "Available":
			return false
		}
	case "bufio.Reader", "bufio.Writer":
		switch method {
		case "Size", "Buffered", "Available":
			return false
		}
	}
	return true
}

// changesArg: the method of math/big changes this argument.
func changesArg(method string, i int) bool {
	switch method {
	case "DivMod", "QuoRem":
		return i == 2
	case "GCD":
		return i < 2
	}
	return false
}

func commentText(c *ast.CommentGroup) string {
	s := ""
	for _, x := range c.List {
		s += x.Text + "\n"
	}
	return s
}

func isPkgObj(af *ast.File, o *ast.Object) bool {
	return af.Scope != nil && af.Scope.Lookup(o.Name) == o
}

func isSwitchBody(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch b.List[0].(type) {
	case *ast.CaseClause, *ast.CommClause:
		return true
	}
	return false
}

// literal: no variable in it
func literal(e ast.Expr) bool {
	r := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.Ident, *ast.CallExpr:
			r = false
		}
		return r
	})
	return r
}

// settled: the name stands for something declared before the statement
func settled(info *types.Info, id *ast.Ident, s ast.Stmt) bool {
	o := info.Uses[id]
	if v, ok := o.(*types.Var); ok && v.IsField() {
		return true
	}
	return o != nil && (o.Pkg() == nil || o.Parent() == o.Pkg().Scope() || o.Pos() < s.Pos())
}

func indexable(t types.Type) bool {
	if t == nil {
		return false
	}
	t = t.Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	switch x := t.(type) {
	case *types.Array, *types.Slice:
		return true
	case *types.Basic:
		return x.Info()&types.IsString != 0
	}
	return false
}

// several: comparing values of the type may take more than one step
func several(t types.Type) bool {
	if t == nil {
		return false
	}
	switch x := t.Underlying().(type) {
	case *types.Array:
		return true
	case *types.Struct:
		return true
	case *types.Basic:
		return x.Kind() == types.String
	}
	return false
}

type repoImporter struct {
	ctx  *build.Context
	root string
	fset *token.FileSet
	done map[string]*types.Package
}

// Import knows the repository's own packages and, if the go command tells, the
// standard library; of others only the name.
func (im *repoImporter) Import(path string) (*types.Package, error) {
	if p := im.done[path]; p != nil {
		return p, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if path == repoPath || strings.HasPrefix(path, repoPath+"/") {
		dir := filepath.Join(im.root, strings.TrimPrefix(path, repoPath))
		if pkg, err := im.ctx.ImportDir(dir, 0); err == nil {
			var l []*ast.File
			for _, f := range pkg.GoFiles {
				if af, err := parser.ParseFile(im.fset, filepath.Join(dir, f), nil, 0); err == nil {
					l = append(l, af)
				}
			}
			conf := types.Config{Importer: im, Error: func(error) {}}
			p, _ := conf.Check(path, im.fset, l, nil)
			if p != nil {
				im.done[path] = p
				return p, nil
			}
		}
	}
	if p := std(path); p != nil {
		im.done[path] = p
		return p, nil
	}
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	im.done[path] = p
	return p, nil
}

var (
	stdOnce  bool
	stdFiles map[string]string
	stdImp   types.Importer
)

// std finds a package of the standard library by its export data.
func std(path string) (p *types.Package) {
	if !stdOnce {
		stdOnce = true
		stdFiles = map[string]string{}
		stdImp = importer.ForCompiler(token.NewFileSet(), "gc", func(path string) (io.ReadCloser, error) {
			return os.Open(stdFiles[path])
		})
		args := append([]string{"list", "-export", "-deps", "-f", "{{.ImportPath}} {{.Export}}"}, stdImports(srcRoot)...)
		cmd := exec.Command("go", args...)
		cmd.Dir = os.TempDir()
		out, err := cmd.Output()
		if err != nil {
			fmt.Fprintln(os.Stderr, "instr: no export data:", err)
		}
		for _, l := range strings.Split(string(out), "\n") {
			if f := strings.Fields(l); len(f) == 2 {
				stdFiles[f[0]] = f[1]
			}
		}
	}
	if stdFiles[path] == "" {
		return nil
	}
	defer func() {
		if recover() != nil {
			p = nil
		}
	}()
	p, err := stdImp.Import(path)
	if err != nil {
		return nil
	}
	return p
}

// stdImports lists what the repository imports, itself and "C" aside.
func stdImports(root string) []string {
	set := map[string]bool{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		af, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.ImportsOnly)
		if err != nil {
			return nil
		}
		for _, im := range af.Imports {
			s, _ := strconv.Unquote(im.Path.Value)
			if s != "C" && s != "unsafe" && !strings.Contains(s, ".") {
				set[s] = true
			}
		}
		return nil
	})
	var l []string
	for s := range set {
		l = append(l, s)
	}
	sort.Strings(l)
	return l
}

// typeInfo types what it can; expressions that involve other packages remain
// untyped, which costs observations but is harmless otherwise.
func typeInfo(ctx *build.Context, dir string, fset *token.FileSet, files map[string]*ast.File, done map[string]*types.Package) *types.Info {
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}}
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	var l []*ast.File
	for _, n := range names {
		l = append(l, files[n])
	}
	conf := types.Config{Importer: &repoImporter{ctx, srcRoot, token.NewFileSet(), done}, Error: func(error) {}}
	func() {
		defer func() { recover() }()
		conf.Check("p", fset, l, info)
	}()
	return info
}

var (
	changed map[string]bool // package-level variables of the current package that functions assign to
	races   bool            // data races are looked for
	srcRoot string
	plain   bool
)
