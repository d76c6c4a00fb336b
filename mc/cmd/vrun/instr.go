package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const module = "github.com/arr-ai/frozen"

// instrument writes an overlay in which the goroutines, channels and uses of
// sync and sync/atomic of the working tree go through the controlled scheduler.
// Constructs that it cannot rewrite are left alone; note says which.
func instrument(dir string, tags []string) (overlay, note string, err error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", "", err
	}
	repl := map[string]string{}
	root := ""
	pkgs, err := goList(tags)
	if err != nil {
		return "", "", err
	}
	exports := map[string]string{}
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
		if p.ImportPath == module {
			root = p.Dir
		}
	}
	if root == "" {
		return "", "", errors.New("the package " + module + " was not found")
	}
	sched := filepath.Join(verif, "sched")
	err = filepath.Walk(sched, func(p string, info os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(sched, p)
			repl[filepath.Join(root, "zzvsched", rel)] = p
		}
		return err
	})
	if err != nil {
		return "", "", err
	}
	var notes []string
	n := 0
	for _, p := range pkgs {
		if p.ImportPath != module && !strings.HasPrefix(p.ImportPath, module+"/") {
			continue
		}
		fset := token.NewFileSet()
		var files []*ast.File
		src := map[*ast.File][]byte{}
		for _, f := range p.GoFiles {
			path := filepath.Join(p.Dir, f)
			data, err := os.ReadFile(path)
			if err != nil {
				return "", "", err
			}
			af, err := parser.ParseFile(fset, path, data, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return "", "", err
			}
			files = append(files, af)
			src[af] = data
		}
		conf := types.Config{
			Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
				if e := exports[path]; e != "" {
					return os.Open(e)
				}
				return nil, fmt.Errorf("no export data for %s", path)
			}),
			Error: func(error) {},
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		tp, _ := conf.Check(p.ImportPath, fset, files, info)
		for _, af := range files {
			e := &editor{fset: fset, info: info, pkg: tp, file: af, src: src[af]}
			out, err := e.rewrite()
			if err != nil {
				notes = append(notes, err.Error())
				continue
			}
			if out == nil {
				continue
			}
			dst := filepath.Join(dir, fmt.Sprintf("%d-%s", n, filepath.Base(fset.Position(af.Pos()).Filename)))
			n++
			if err := os.WriteFile(dst, out, 0o644); err != nil {
				return "", "", err
			}
			repl[fset.Position(af.Pos()).Filename] = dst
		}
	}
	data, _ := json.Marshal(map[string]any{"Replace": repl})
	overlay = filepath.Join(dir, "overlay.json")
	return overlay, strings.Join(notes, "; "), os.WriteFile(overlay, data, 0o644)
}

// bareOverlay adds the scheduler package and rewrites nothing.
func bareOverlay(overlay string) (string, error) {
	data, err := os.ReadFile(overlay)
	if err != nil {
		return "", err
	}
	var o struct{ Replace map[string]string }
	if err := json.Unmarshal(data, &o); err != nil {
		return "", err
	}
	for k := range o.Replace {
		if !strings.Contains(k, "/zzvsched/") {
			delete(o.Replace, k)
		}
	}
	data, _ = json.Marshal(o)
	p := filepath.Join(filepath.Dir(overlay), "bare.json")
	return p, os.WriteFile(p, data, 0o644)
}

type listed struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
}

func goList(tags []string) ([]listed, error) {
	// the packages that the harness may import
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Dir,Export,GoFiles",
		"-tags", strings.Join(tags, ","), module, module+"/lazy", module+"/pkg/rel", module+"/pkg/kv")
	cmd.Dir = filepath.Join(verif, "mc")
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		// a package may have gone: retry with what is there
		cmd = exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Dir,Export,GoFiles",
			"-tags", strings.Join(tags, ","), module, module+"/lazy", module+"/pkg/rel")
		cmd.Dir = filepath.Join(verif, "mc")
		cmd.Stderr = &errb
		if out, err = cmd.Output(); err != nil {
			return nil, fmt.Errorf("go list: %v\n%s", err, errb.String())
		}
	}
	var ps []listed
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listed
		if err := dec.Decode(&p); err == io.EOF {
			return ps, nil
		} else if err != nil {
			return nil, err
		}
		ps = append(ps, p)
	}
}

// editor rewrites a file by insertions and deletions at token positions, so
// that everything else stays as it is.
type editor struct {
	fset *token.FileSet
	info *types.Info
	pkg  *types.Package
	file *ast.File
	src  []byte

	edits []edit
	uses  bool
	n     int
	err   error
}

type edit struct {
	at, del int // offset, bytes to delete
	ins     string
	seq     int
}

func (e *editor) off(p token.Pos) int { return e.fset.Position(p).Offset }

func (e *editor) ins(p token.Pos, s string) {
	e.edits = append(e.edits, edit{e.off(p), 0, s, len(e.edits)})
}

// insAfter inserts s after the node that ends at p; nested nodes that end at the
// same place come first.
func (e *editor) del(from, to token.Pos, s string) {
	e.edits = append(e.edits, edit{e.off(from), e.off(to) - e.off(from), s, len(e.edits)})
}

func (e *editor) fail(n ast.Node, what string) {
	if e.err == nil {
		e.err = fmt.Errorf("%s: %s", e.fset.Position(n.Pos()), what)
	}
}

func (e *editor) fresh() string {
	e.n++
	return fmt.Sprintf("zzv%d", e.n)
}

func (e *editor) isChan(x ast.Expr) bool {
	t := e.info.Types[x].Type
	if t == nil {
		return false
	}
	_, is := t.Underlying().(*types.Chan)
	return is
}

// closing insertions at one offset must be in order of nesting, innermost
// first: the walk visits outer nodes first, so they are emitted on the way back.
func (e *editor) walk(n ast.Node) {
	if n == nil || e.err != nil {
		return
	}
	switch n := n.(type) {
	case *ast.GoStmt:
		e.goStmt(n)
		return
	case *ast.SendStmt:
		e.uses = true
		e.ins(n.Pos(), "zzvsched.Send(")
		e.walk(n.Chan)
		e.del(n.Arrow, n.Arrow+2, ",")
		e.walk(n.Value)
		e.ins(n.End(), ")")
		return
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u, is := ast.Unparen(n.Rhs[0]).(*ast.UnaryExpr); is && u.Op == token.ARROW {
				for _, l := range n.Lhs {
					e.walk(l)
				}
				e.recv(u, "Recv2")
				return
			}
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			if u, is := ast.Unparen(n.Values[0]).(*ast.UnaryExpr); is && u.Op == token.ARROW {
				e.recv(u, "Recv2")
				return
			}
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			e.recv(n, "Recv")
			return
		}
	case *ast.CallExpr:
		if id, is := n.Fun.(*ast.Ident); is && id.Name == "close" && len(n.Args) == 1 {
			if _, builtin := e.info.Uses[id].(*types.Builtin); builtin {
				e.uses = true
				e.del(id.Pos(), id.End(), "zzvsched.Close")
				e.walk(n.Args[0])
				return
			}
		}
		if sel, is := n.Fun.(*ast.SelectorExpr); is && len(n.Args) <= 1 {
			if x, is := sel.X.(*ast.Ident); is {
				if pn, is := e.info.Uses[x].(*types.PkgName); is {
					switch pn.Imported().Path() + "." + sel.Sel.Name {
					case "time.After", "time.NewTimer", "time.NewTicker", "time.AfterFunc", "time.Tick":
						e.fail(n, "timers are not controlled")
					}
				}
			}
		}
	case *ast.RangeStmt:
		if e.isChan(n.X) {
			e.rangeChan(n)
			return
		}
	case *ast.SelectStmt:
		e.selectStmt(n)
		return
	}
	e.children(n)
}

func (e *editor) children(n ast.Node) {
	ast.Inspect(n, func(c ast.Node) bool {
		if c == n {
			return true
		}
		if c != nil {
			e.walk(c)
		}
		return false
	})
}

func (e *editor) recv(u *ast.UnaryExpr, f string) {
	e.uses = true
	e.del(u.OpPos, u.OpPos+2, "zzvsched."+f+"(")
	e.walk(u.X)
	e.ins(u.End(), ")")
}

func (e *editor) goStmt(g *ast.GoStmt) {
	e.uses = true
	call := g.Call
	if lit, is := call.Fun.(*ast.FuncLit); is && len(call.Args) == 0 {
		e.del(g.Go, lit.Pos(), "zzvsched.Go(")
		e.walk(lit.Body)
		// a function literal without results only
		if lit.Type.Results != nil && len(lit.Type.Results.List) > 0 {
			e.fail(g, "goroutine function with results")
		}
		e.del(call.Lparen, call.Rparen+1, ")")
		return
	}
	if call.Ellipsis.IsValid() {
		e.fail(g, "go statement with ...")
		return
	}
	// { a, b := x, y; zzvsched.Go(func() { f(a, b) }) }
	e.del(g.Go, call.Pos(), "{ ")
	var names []string
	fun := ""
	direct := false
	switch f := ast.Unparen(call.Fun).(type) {
	case *ast.Ident:
		_, direct = e.info.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		if x, is := f.X.(*ast.Ident); is {
			_, direct = e.info.Uses[x].(*types.PkgName)
		}
	}
	if direct {
		fun = string(e.src[e.off(call.Fun.Pos()):e.off(call.Fun.End())])
		e.del(call.Fun.Pos(), call.Fun.End(), "")
	} else {
		fun = e.fresh()
		e.ins(call.Fun.Pos(), fun+" := ")
		e.walk(call.Fun)
	}
	e.del(call.Lparen, call.Lparen+1, "; ")
	for i, a := range call.Args {
		if tv := e.info.Types[a]; tv.Value != nil || tv.IsNil() {
			// constants keep their implicit conversion
			names = append(names, string(e.src[e.off(a.Pos()):e.off(a.End())]))
			e.del(a.Pos(), a.End(), "")
		} else {
			v := e.fresh()
			names = append(names, v)
			e.ins(a.Pos(), v+" := ")
			e.walk(a)
		}
		end := call.Rparen
		if i+1 < len(call.Args) {
			end = call.Args[i+1].Pos()
		}
		e.del(a.End(), end, "; ")
	}
	e.del(call.Rparen, call.Rparen+1, "zzvsched.Go(func() { "+fun+"("+strings.Join(names, ", ")+") }) }")
}

func (e *editor) rangeChan(r *ast.RangeStmt) {
	e.uses = true
	ch, ok := e.fresh(), e.fresh()
	// for k := range X {   =>   for ch := X; ; { k, ok := Recv2(ch); if !ok { break }
	e.del(r.For, r.X.Pos(), "for "+ch+" := ")
	e.walk(r.X)
	v := "_"
	pre := ""
	if r.Key != nil {
		v = string(e.src[e.off(r.Key.Pos()):e.off(r.Key.End())])
	}
	if r.Tok == token.ASSIGN && r.Key != nil {
		pre = "var " + ok + " bool; " + v + ", " + ok + " = zzvsched.Recv2(" + ch + ")"
	} else {
		pre = v + ", " + ok + " := zzvsched.Recv2(" + ch + ")"
	}
	e.del(r.X.End(), r.Body.Lbrace+1, "; ; { "+pre+"; if !"+ok+" { break };")
	for _, s := range r.Body.List {
		e.walk(s)
	}
}

func (e *editor) selectStmt(s *ast.SelectStmt) {
	e.uses = true
	sel := e.fresh()
	text := func(n ast.Node) string { return string(e.src[e.off(n.Pos()):e.off(n.End())]) }
	def := "false"
	var cases []string
	type body struct {
		c     *ast.CommClause
		label string
		pre   string
	}
	var bodies []body
	qual := types.RelativeTo(e.pkg)
	for _, st := range s.Body.List {
		c := st.(*ast.CommClause)
		switch comm := c.Comm.(type) {
		case nil:
			def = "true"
			bodies = append(bodies, body{c, "default", ""})
		case *ast.SendStmt:
			bodies = append(bodies, body{c, fmt.Sprintf("case %d", len(cases)), ""})
			cases = append(cases, "zzvsched.CaseSend("+text(comm.Chan)+", "+text(comm.Value)+")")
		case *ast.ExprStmt, *ast.AssignStmt:
			var x ast.Expr
			var as *ast.AssignStmt
			if es, is := comm.(*ast.ExprStmt); is {
				x = es.X
			} else {
				as = comm.(*ast.AssignStmt)
				x = as.Rhs[0]
			}
			u, is := ast.Unparen(x).(*ast.UnaryExpr)
			if !is {
				e.fail(s, "select case")
				return
			}
			pre := ""
			if as != nil {
				t := e.info.Types[u.X].Type
				if t == nil {
					e.fail(s, "type of a select case")
					return
				}
				ct, is := t.Underlying().(*types.Chan)
				if !is {
					e.fail(s, "type of a select case")
					return
				}
				f := "Got"
				lhs := []string{}
				for _, l := range as.Lhs {
					lhs = append(lhs, text(l))
				}
				if len(lhs) == 2 {
					f = "Got2"
				}
				pre = strings.Join(lhs, ", ") + " " + as.Tok.String() + " zzvsched." + f + "[" + types.TypeString(ct.Elem(), qual) + "](" + sel + "); "
			}
			bodies = append(bodies, body{c, fmt.Sprintf("case %d", len(cases)), pre})
			cases = append(cases, "zzvsched.CaseRecv("+text(u.X)+")")
		}
	}
	args := append([]string{def}, cases...)
	e.del(s.Select, s.Body.Lbrace, "switch "+sel+" := zzvsched.Select("+strings.Join(args, ", ")+"); "+sel+".I ")
	for _, b := range bodies {
		e.del(b.c.Case, b.c.Colon+1, b.label+": "+b.pre)
		for _, st := range b.c.Body {
			e.walk(st)
		}
	}
}

// rewrite returns nil if the file needs no changes.
func (e *editor) rewrite() ([]byte, error) {
	for _, d := range e.file.Decls {
		if g, is := d.(*ast.GenDecl); is && g.Tok == token.IMPORT {
			continue
		}
		e.walk(d)
	}
	for _, im := range e.file.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		switch path {
		case "sync", "sync/atomic":
			name := filepath.Base(path)
			p := "zzsync"
			if name == "atomic" {
				p = "zzatomic"
			}
			if im.Name == nil {
				p = name + ` "` + module + "/zzvsched/" + p + `"`
			} else {
				p = `"` + module + "/zzvsched/" + p + `"`
			}
			e.del(im.Path.Pos(), im.Path.End(), p)
		}
	}
	if e.err != nil {
		return nil, e.err
	}
	if len(e.edits) == 0 {
		return nil, nil
	}
	if e.uses {
		e.ins(e.file.Name.End(), "; import \""+module+"/zzvsched\"")
	}
	sort.SliceStable(e.edits, func(i, j int) bool {
		a, b := e.edits[i], e.edits[j]
		if a.at != b.at {
			return a.at < b.at
		}
		return a.seq < b.seq
	})
	var out bytes.Buffer
	pos := 0
	for _, d := range e.edits {
		if d.at < pos {
			return nil, fmt.Errorf("%s: overlapping rewrites", e.fset.Position(e.file.Pos()))
		}
		out.Write(e.src[pos:d.at])
		out.WriteString(d.ins)
		pos = d.at + d.del
	}
	out.Write(e.src[pos:])
	return out.Bytes(), nil
}
