package main

// Loading: the packages under verification are read from /repo's working tree
// on every run, type-checked and translated to go/ssa.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoMod = "github.com/itstarsun/go-thrift"

type LoopInfo struct {
	Head  *ssa.BasicBlock
	Body  map[*ssa.BasicBlock]bool
	Fn    *ssa.Function
	Label string
}
type FnLoops struct {
	heads map[*ssa.BasicBlock]*LoopInfo
}

type World struct {
	Prog    *ssa.Program
	Pkgs    map[string]*ssa.Package
	built   map[*ssa.Package]bool
	loops   map[*ssa.Function]*FnLoops
	Overlay map[string]string
	Dropped string // why the contracts on unexported functions were left out
	live    map[*ssa.BasicBlock]map[ssa.Value]bool
	mu      sync.Mutex
	globals map[*ssa.Global]int
	merge   map[*ssa.Function]int
}

// overlayFiles maps contract files kept in /verif onto package directories of
// /repo (only in the loader's view; nothing is written to /repo).
func overlayFiles(verif, repo string) map[string]string {
	m := map[string]string{}
	base := filepath.Join(verif, "contracts", "inpkg")
	filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(base, p)
			m[filepath.Join(repo, rel)] = p
		}
		return nil
	})
	return m
}

// loadWorld loads the contracts and the code they refer to.  The contracts in
// vspec/in/X name unexported functions, with the help of files zz_X.go put into
// their packages; when they do not fit the code any more (a function was
// renamed) they are left out and w.Dropped says so.
func loadWorld(verif, repo string) (*World, []*packages.Package, error) {
	contracts := filepath.Join(verif, "contracts")
	dirs := func(d string) (ns []string) {
		es, _ := os.ReadDir(d)
		for _, e := range es {
			if e.IsDir() {
				ns = append(ns, e.Name())
			}
		}
		return ns
	}
	var base []string
	for _, n := range dirs(contracts) {
		if n != "in" && n != "inpkg" {
			base = append(base, "vspec/"+n+"/...")
		}
	}
	in := map[string]bool{}
	for _, n := range dirs(filepath.Join(contracts, "in")) {
		in[n] = true
	}
	dropped := ""
	for {
		ps := append([]string{}, base...)
		for n := range in {
			ps = append(ps, "vspec/in/"+n+"/...")
		}
		sort.Strings(ps)
		ov := map[string]string{}
		for k, v := range overlayFiles(verif, repo) {
			n := strings.TrimSuffix(strings.TrimPrefix(filepath.Base(k), "zz_"), ".go")
			if in[n] {
				ov[k] = v
			}
		}
		w, pkgs, err := loadWorld1(verif, repo, ps, ov)
		if err == nil {
			for n, why := range w.misfits(pkgs) {
				if in[n] {
					err = fmt.Errorf("%s", why)
					delete(in, n)
				}
			}
			if err == nil {
				w.Dropped = dropped
				return w, pkgs, nil
			}
			dropped += err.Error() + "\n"
			continue
		}
		if len(in) == 0 {
			return nil, nil, err
		}
		dropped += err.Error()
		some := false
		for n := range in {
			if strings.Contains(err.Error(), "zz_"+n+".go") || strings.Contains(err.Error(), "/in/"+n+"/") {
				delete(in, n)
				some = true
			}
		}
		if !some {
			in = map[string]bool{}
		}
	}
}

// misfits tells which packages of contracts on unexported functions have
// contracts for functions that do not exist.
func (w *World) misfits(pkgs []*packages.Package) map[string]string {
	fns := map[string]bool{}
	for _, p := range w.Prog.AllPackages() {
		if !isRepo(p.Pkg.Path()) {
			continue
		}
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				fns[m.String()] = true
			case *ssa.Type:
				if n, ok := m.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						if f := w.Prog.FuncValue(n.Method(i)); f != nil {
							fns[f.String()] = true
						}
					}
				}
			}
		}
	}
	out := map[string]string{}
	d, err := parseDirectives(w, pkgs)
	if err != nil {
		return nil
	}
	need := func(pkg, fn string) {
		n, ok := inPackage(pkg)
		if ok && strings.Contains(fn, repoMod) && !fns[fn] {
			out[n] = "no function " + fn
		}
	}
	for n, cs := range d.Scoped {
		for c := range cs {
			need(n, c)
		}
	}
	for _, h := range d.Harness {
		for r := range h.Real {
			need(fnPkgPath(h.Fn), r)
		}
	}
	return out
}

// inPackage tells the X of vspec/in/X.
func inPackage(path string) (string, bool) {
	n, ok := strings.CutPrefix(path, "vspec/in/")
	n, _, _ = strings.Cut(n, "/")
	return n, ok
}

func loadWorld1(verif, repo string, patterns []string, ov map[string]string) (*World, []*packages.Package, error) {
	ovb := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, nil, err
		}
		ovb[k] = b
	}
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: filepath.Join(verif, "contracts"), Overlay: ovb, Env: env}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, nil, err
	}
	nerr := ""
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			nerr += e.Error() + "\n"
		}
	})
	if nerr != "" {
		return nil, nil, fmt.Errorf("loading: %s", nerr)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	w := &World{Prog: prog, Pkgs: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}, loops: map[*ssa.Function]*FnLoops{}, Overlay: ov,
		live: map[*ssa.BasicBlock]map[ssa.Value]bool{}, globals: map[*ssa.Global]int{}, merge: map[*ssa.Function]int{}}
	for _, p := range prog.AllPackages() {
		w.Pkgs[p.Pkg.Path()] = p
		if initialised(p.Pkg.Path()) {
			p.Build()
			w.built[p] = true
		}
	}
	return w, pkgs, nil
}

func isRepo(path string) bool { return path == repoMod || strings.HasPrefix(path, repoMod+"/") }
func isOurs(path string) bool {
	return isRepo(path) || path == "vspec" || strings.HasPrefix(path, "vspec/")
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
	}
	return nil
}
func fnPkgPath(fn *ssa.Function) string {
	if p := fnPkg(fn); p != nil {
		return p.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (w *World) build(fn *ssa.Function) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if p := fnPkg(fn); p != nil && !w.built[p] {
		w.built[p] = true
		p.Build()
	}
}

func (w *World) loopInfo(fn *ssa.Function) *FnLoops {
	w.mu.Lock()
	defer w.mu.Unlock()
	if l, ok := w.loops[fn]; ok {
		return l
	}
	l := &FnLoops{heads: map[*ssa.BasicBlock]*LoopInfo{}}
	w.loops[fn] = l
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := l.heads[s]
				if li == nil {
					li = &LoopInfo{Head: s, Body: map[*ssa.BasicBlock]bool{s: true}, Fn: fn}
					l.heads[s] = li
				}
				// natural loop of the back edge b->s
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if li.Body[x] {
						continue
					}
					li.Body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	n := 0
	for _, b := range fn.Blocks {
		if li := l.heads[b]; li != nil {
			n++
			li.Label = fmt.Sprintf("%s#loop%d", fn.String(), n)
		}
	}
	return l
}

// liveIn: values that may be used at or after the start of block b.
func (w *World) liveIn(b *ssa.BasicBlock) map[ssa.Value]bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	if m, ok := w.live[b]; ok {
		return m
	}
	// standard backward analysis for the whole function
	fn := b.Parent()
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, x := range fn.Blocks {
		in[x] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			x := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range x.Succs {
				for v := range in[s] {
					live[v] = true
				}
				for _, ins := range s.Instrs {
					p, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, p)
				}
				for _, ins := range s.Instrs {
					p, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for k, pr := range s.Preds {
						if pr == x {
							live[p.Edges[k]] = true
						}
					}
				}
			}
			if fn.Recover != nil {
				// deferred code may run from anywhere
				for v := range in[fn.Recover] {
					live[v] = true
				}
			}
			for k := len(x.Instrs) - 1; k >= 0; k-- {
				ins := x.Instrs[k]
				if p, ok := ins.(*ssa.Phi); ok {
					// phis stay live-in (they carry the loop state)
					live[p] = true
					continue
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(live, v)
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil {
						live[*op] = true
					}
				}
			}
			if len(live) != len(in[x]) {
				in[x] = live
				ch = true
			}
		}
	}
	for x, m := range in {
		w.live[x] = m
	}
	return w.live[b]
}

// liveAt: values that may be used at or after instruction ip of block b.
func (w *World) liveAt(b *ssa.BasicBlock, ip int) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range w.liveIn(s) {
			if p, ok := v.(*ssa.Phi); ok && p.Block() == s {
				continue // set anew on entry
			}
			out[v] = true
		}
	}
	for _, s := range b.Succs {
		for _, ins := range s.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for k, pr := range s.Preds {
				if pr == b {
					out[p.Edges[k]] = true
				}
			}
		}
	}
	for k := len(b.Instrs) - 1; k >= ip; k-- {
		if v, ok := b.Instrs[k].(ssa.Value); ok {
			if _, isPhi := v.(*ssa.Phi); !isPhi {
				delete(out, v)
			}
		}
		for _, op := range b.Instrs[k].Operands(nil) {
			if *op != nil {
				out[*op] = true
			}
		}
	}
	return out
}

// liveAfterCall: what a frame still needs, given that it is waiting for the
// call at its current instruction to return.
func (w *World) liveAfterCall(f *Frame, waiting bool) map[ssa.Value]bool {
	ip := f.ip
	if waiting && ip < len(f.blk.Instrs) {
		if _, ok := f.blk.Instrs[ip].(*ssa.Call); ok {
			out := w.liveAt(f.blk, ip+1)
			delete(out, f.blk.Instrs[ip].(*ssa.Call))
			return out
		}
	}
	return w.liveAt(f.blk, ip)
}

func writeOverlayJSON(w map[string]string, file string) error {
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": w}, "", " ")
	return os.WriteFile(file, b, 0o644)
}

func (w *World) fn(pkg, name string) *ssa.Function {
	p := w.Pkgs[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func (w *World) namedType(pkg, name string) types.Type {
	p := w.Pkgs[pkg]
	if p == nil {
		return nil
	}
	if t := p.Type(name); t != nil {
		return t.Type()
	}
	return nil
}
