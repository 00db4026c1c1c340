// Command rewrite redirects the synchronisation operations of Go packages to
// the controlled scheduler.
//
// usage: rewrite -out DIR -prefix IMPORTPATH -list LIST.json PKG...
//
// LIST.json is the output of 'go list -export -deps -json' for the packages.
// Every non-test Go file of each PKG is rewritten from its current text:
//
//	import "sync" (and sync/atomic, time, context, math/rand/v2, crypto/rand,
//	errgroup)             -> the shim of the same package name
//	go f(x)               -> vsched.Go(func(){ f(x) }) with x evaluated first
//	ch <- v, <-ch, close  -> vsched.SendTo(ch).Send(v), vsched.Recv(ch), vsched.Close(ch)
//	select                -> vsched.Select(...)
//	range over a channel or an ordered-key map -> vsched.RangeChan/RangeMap
//	runtime.Gosched()     -> vsched.Point()
//
// The output is an overlay fragment {"Replace": {original: rewritten}} on stdout.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	ImportMap  map[string]string
}

type edit struct {
	start, end int
	text       string
	seq        int
}

type rewriter struct {
	fset  *token.FileSet
	file  *token.File
	src   []byte
	info  *types.Info
	edits []edit
	used  bool
	n     int
	errs  []string
}

func (w *rewriter) off(p token.Pos) int { return w.file.Offset(p) }

func (w *rewriter) insert(p token.Pos, s string) { w.replace(w.off(p), w.off(p), s) }

func (w *rewriter) replace(a, b int, s string) {
	w.edits = append(w.edits, edit{a, b, s, len(w.edits)})
}

// text renders [a,b) with the edits registered so far.
func (w *rewriter) text(a, b int) string {
	var es []edit
	for _, e := range w.edits {
		if e.start >= a && e.end <= b {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].start != es[j].start {
			return es[i].start < es[j].start
		}
		// pure insertions at the same point: keep the outer-first order chosen
		// by the caller (later registered = outer = first)
		li, lj := es[i].end == es[i].start, es[j].end == es[j].start
		if li != lj {
			return li
		}
		return es[i].seq > es[j].seq
	})
	var buf bytes.Buffer
	pos := a
	for _, e := range es {
		if e.start < pos {
			continue
		}
		buf.Write(w.src[pos:e.start])
		buf.WriteString(e.text)
		pos = e.end
	}
	buf.Write(w.src[pos:b])
	return buf.String()
}

// supersede replaces [a,b) by s and drops the edits inside.
func (w *rewriter) supersede(a, b int, s string) {
	var keep []edit
	for _, e := range w.edits {
		if e.start >= a && e.end <= b {
			continue
		}
		keep = append(keep, e)
	}
	w.edits = keep
	w.n++
	w.edits = append(w.edits, edit{a, b, s, 1000000 + w.n})
}

func (w *rewriter) node(n ast.Node) string { return w.text(w.off(n.Pos()), w.off(n.End())) }

func (w *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = w.info.Uses[id].(*types.Builtin)
	return ok
}

func (w *rewriter) isChan(e ast.Expr) bool {
	t := w.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := core(t).(*types.Chan)
	return ok
}

func core(t types.Type) types.Type {
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		var u types.Type
		if it, ok := tp.Constraint().Underlying().(*types.Interface); ok && it.NumEmbeddeds() == 1 {
			if un, ok := it.EmbeddedType(0).(*types.Union); ok && un.Len() == 1 {
				u = un.Term(0).Type().Underlying()
			} else {
				u = it.EmbeddedType(0).Underlying()
			}
		}
		return u
	}
	return t.Underlying()
}

func ordered(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsOrdered != 0
}

func (w *rewriter) visit(n ast.Node) {
	switch n := n.(type) {
	case *ast.SelectStmt:
		w.selectStmt(n)
		return
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u, ok := ast.Unparen(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				w.children(u.X)
				for _, l := range n.Lhs {
					w.children(l)
				}
				w.recv(u, "Recv2")
				return
			}
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			if u, ok := ast.Unparen(n.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				w.children(u.X)
				w.recv(u, "Recv2")
				return
			}
		}
	}
	w.descend(n)
	switch n := n.(type) {
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			w.recv(n, "Recv")
		}
	case *ast.SendStmt:
		w.used = true
		w.supersede(w.off(n.Pos()), w.off(n.End()), "vsched.SendTo("+w.node(n.Chan)+").Send("+w.node(n.Value)+")")
	case *ast.CallExpr:
		if w.isBuiltin(n.Fun, "close") && len(n.Args) == 1 {
			w.used = true
			w.supersede(w.off(n.Fun.Pos()), w.off(n.Fun.End()), "vsched.Close")
		}
		if w.isBuiltin(n.Fun, "len") && len(n.Args) == 1 {
			if t := w.info.TypeOf(n.Args[0]); t != nil {
				if c, ok := core(t).(*types.Chan); ok {
					w.used = true
					fn := "vsched.Len"
					if c.Dir() == types.SendOnly {
						fn = "vsched.LenSend"
					}
					w.supersede(w.off(n.Fun.Pos()), w.off(n.Fun.End()), fn)
				}
			}
		}
		if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
			fn := map[string]string{"Gosched": "Yield", "NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS"}[sel.Sel.Name]
			if id, ok := sel.X.(*ast.Ident); ok && fn != "" {
				if pn, ok := w.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "runtime" {
					w.used = true
					w.supersede(w.off(n.Fun.Pos()), w.off(n.Fun.End()), "vsched."+fn+"["+id.Name+".Frame]")
				}
			}
		}
	case *ast.GoStmt:
		w.goStmt(n)
	case *ast.RangeStmt:
		t := w.info.TypeOf(n.X)
		if t == nil {
			return
		}
		fn := ""
		switch c := core(t).(type) {
		case *types.Chan:
			fn = "vsched.RangeChan"
		case *types.Map:
			if ordered(c.Key()) {
				if _, isTP := types.Unalias(c.Key()).(*types.TypeParam); !isTP {
					fn = "vsched.RangeMap"
				}
			}
		}
		if fn != "" {
			w.used = true
			w.supersede(w.off(n.X.Pos()), w.off(n.X.End()), fn+"("+w.node(n.X)+")")
		}
	}
}

func (w *rewriter) recv(u *ast.UnaryExpr, fn string) {
	w.used = true
	w.supersede(w.off(u.Pos()), w.off(u.End()), "vsched."+fn+"("+w.node(u.X)+")")
}

func (w *rewriter) goStmt(n *ast.GoStmt) {
	w.used = true
	call := n.Call
	if lit, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		w.supersede(w.off(n.Pos()), w.off(n.End()), "vsched.Go("+w.node(lit)+")")
		return
	}
	w.n++
	id := strconv.Itoa(w.n)
	var lhs, rhs, args []string
	lhs = append(lhs, "vf"+id)
	rhs = append(rhs, w.node(call.Fun))
	isConv := false
	if tv, ok := w.info.Types[call.Fun]; ok && tv.IsBuiltin() {
		isConv = true
	}
	for i, a := range call.Args {
		tv := w.info.Types[a]
		if tv.Value != nil || tv.IsNil() || isConv {
			args = append(args, w.node(a))
			continue
		}
		v := "va" + id + "_" + strconv.Itoa(i)
		lhs = append(lhs, v)
		rhs = append(rhs, w.node(a))
		args = append(args, v)
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	var s string
	if isConv {
		s = "vsched.Go(func() { " + w.node(call) + " })"
	} else {
		s = "{ " + strings.Join(lhs, ", ") + " := " + strings.Join(rhs, ", ") +
			"; vsched.Go(func() { vf" + id + "(" + strings.Join(args, ", ") + ell + ") }) }"
	}
	w.supersede(w.off(n.Pos()), w.off(n.End()), s)
}

func (w *rewriter) selectStmt(n *ast.SelectStmt) {
	w.used = true
	if len(n.Body.List) == 0 {
		w.supersede(w.off(n.Pos()), w.off(n.End()), "vsched.BlockForever()")
		return
	}
	w.n++
	id := strconv.Itoa(w.n)
	var pre, body strings.Builder
	var names []string
	hasDefault := false
	idx := 0
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		// clause body text, rewritten
		for _, s := range cc.Body {
			w.visit(s)
		}
		end := w.off(cc.End())
		bodyText := w.text(w.off(cc.Colon)+1, end)
		if cc.Comm == nil {
			hasDefault = true
			body.WriteString("case -1:" + bodyText + "\n")
			continue
		}
		v := "vc" + id + "_" + strconv.Itoa(idx)
		names = append(names, v)
		assign := ""
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			w.descend(s)
			pre.WriteString(v + " := vsched.SendCase(" + w.node(s.Chan) + ").Of(" + w.node(s.Value) + "); ")
		case *ast.ExprStmt:
			u := ast.Unparen(s.X).(*ast.UnaryExpr)
			w.children(u.X)
			pre.WriteString(v + " := vsched.RecvCase(" + w.node(u.X) + "); ")
		case *ast.AssignStmt:
			u := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
			w.children(u.X)
			pre.WriteString(v + " := vsched.RecvCase(" + w.node(u.X) + "); ")
			var l []string
			for _, e := range s.Lhs {
				w.children(e)
				l = append(l, w.node(e))
			}
			vals := []string{v + ".Val", v + ".Ok"}[:len(l)]
			assign = " " + strings.Join(l, ", ") + " " + s.Tok.String() + " " + strings.Join(vals, ", ") + ";"
		}
		body.WriteString("case " + strconv.Itoa(idx) + ":" + assign + bodyText + "\n")
		idx++
	}
	args := ""
	for _, v := range names {
		args += ", " + v
	}
	s := "{ " + pre.String() + "switch vsched.Select(" + strconv.FormatBool(hasDefault) + args + ") {\n" +
		body.String() + "default: panic(\"vsched: unreachable\")\n} }"
	w.supersede(w.off(n.Pos()), w.off(n.End()), s)
}

func (w *rewriter) children(n ast.Node) { w.visit(n) }

func (w *rewriter) descend(n ast.Node) {
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil {
			return false
		}
		if first {
			first = false
			return true
		}
		w.visit(c)
		return false
	})
}

var shims = map[string]string{
	"sync":                       "vsync",
	"sync/atomic":                "vatomic",
	"time":                       "vtime",
	"context":                    "vctx",
	"math/rand/v2":               "vrand",
	"crypto/rand":                "vcrand",
	"golang.org/x/sync/errgroup": "verrgroup",
}

var baseName = map[string]string{
	"sync": "sync", "sync/atomic": "atomic", "time": "time", "context": "context",
	"math/rand/v2": "rand", "crypto/rand": "rand", "golang.org/x/sync/errgroup": "errgroup",
}

func main() {
	out := flag.String("out", "", "output directory")
	prefix := flag.String("prefix", "", "import path prefix of the shims")
	list := flag.String("list", "", "go list -export -deps -json output")
	flag.Parse()
	pkgs := map[string]*pkgInfo{}
	f, err := os.Open(*list)
	check(err)
	dec := json.NewDecoder(f)
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			check(err)
		}
		pkgs[p.ImportPath] = &p
	}
	overlay := map[string]string{}
	for _, path := range flag.Args() {
		p := pkgs[path]
		if p == nil {
			check(fmt.Errorf("package %s not listed", path))
		}
		fset := token.NewFileSet()
		var files []*ast.File
		var srcs [][]byte
		for _, name := range p.GoFiles {
			fn := filepath.Join(p.Dir, name)
			src, err := os.ReadFile(fn)
			check(err)
			af, err := parser.ParseFile(fset, fn, src, parser.ParseComments|parser.SkipObjectResolution)
			check(err)
			files = append(files, af)
			srcs = append(srcs, src)
		}
		imp := importer.ForCompiler(fset, "gc", func(ip string) (io.ReadCloser, error) {
			if m, ok := p.ImportMap[ip]; ok {
				ip = m
			}
			q := pkgs[ip]
			if q == nil || q.Export == "" {
				return nil, fmt.Errorf("no export data for %s", ip)
			}
			return os.Open(q.Export)
		})
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(err error) { fmt.Fprintln(os.Stderr, "type:", err) }}
		_, err := conf.Check(path, fset, files, info)
		check(err)
		for i, af := range files {
			w := &rewriter{fset: fset, file: fset.File(af.Pos()), src: srcs[i], info: info}
			for _, d := range af.Decls {
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
					continue
				}
				w.visit(d)
			}
			changed := w.used
			for _, im := range af.Imports {
				ip, _ := strconv.Unquote(im.Path.Value)
				s, ok := shims[ip]
				if !ok {
					continue
				}
				changed = true
				name := baseName[ip]
				if im.Name != nil {
					name = im.Name.Name
				}
				w.supersede(w.off(im.Pos()), w.off(im.End()), name+" "+strconv.Quote(*prefix+"/"+s))
			}
			if !changed {
				continue
			}
			text := w.text(0, len(w.src))
			if w.used {
				// after the package clause
				pc := w.off(af.Name.End())
				head := w.text(0, pc)
				text = head + "; import vsched " + strconv.Quote(*prefix+"/vsched") + text[len(head):]
			}
			dst := filepath.Join(*out, strings.ReplaceAll(path, "/", "_")+"__"+p.GoFiles[i])
			check(os.WriteFile(dst, []byte("//line "+filepath.Join(p.Dir, p.GoFiles[i])+":1\n"+text), 0o644))
			overlay[filepath.Join(p.Dir, p.GoFiles[i])] = dst
		}
	}
	check(json.NewEncoder(os.Stdout).Encode(map[string]any{"Replace": overlay}))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "rewrite:", err)
		os.Exit(1)
	}
}
