package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Poison is a value the verifier could not compute; using it is unsupported.
type Poison struct{ why string }

// ---- package level variables ----

func (w *World) globalID(g *ssa.Global) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	if id, ok := w.globals[g]; ok {
		return id
	}
	id := -(len(w.globals) + 1)
	w.globals[g] = id
	return id
}

func (ex *Exec) globalObj(st *State, g *ssa.Global) int {
	id := ex.W.globalID(g)
	if _, ok := st.heap.m[id]; !ok {
		et := g.Type().Underlying().(*types.Pointer).Elem()
		if g.Pkg != nil && !initialised(g.Pkg.Pkg.Path()) {
			if types.Identical(et, types.Universe.Lookup("error").Type()) {
				st.heap.set(id, ex.sentinel(g.Pkg.Pkg.Path()+"."+g.Name()))
			} else {
				st.heap.set(id, Poison{"library variable " + g.String()})
			}
		} else {
			st.heap.set(id, ex.zero(et))
		}
	}
	return id
}

// runInit executes the initialisers of the packages under verification.
func (ex *Exec) runInit(st *State) {
	var pkgs []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		imps := append([]*types.Package{}, p.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			if initialised(i.Path()) {
				visit(i)
			}
		}
		if sp := ex.W.Pkgs[p.Path()]; sp != nil && initialised(p.Path()) {
			pkgs = append(pkgs, sp)
		}
	}
	var paths []string
	for p := range ex.W.Pkgs {
		if isOurs(p) {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, p := range paths {
		visit(ex.W.Pkgs[p].Pkg)
	}
	ex.initMode = true
	ex.trial++
	for _, p := range pkgs {
		f := p.Func("init")
		if f == nil || f.Blocks == nil || p.Pkg.Path() == "vspec/gv" {
			continue
		}
		st.th = []*Thread{{}}
		ex.st = st
		ex.push(st, f, nil, nil, nil)
		for !st.thread().done {
			more, cont := ex.advance(st)
			if len(more) > 0 || !cont {
				unsup("package initialiser of %s is not deterministic", p.Pkg.Path())
			}
		}
	}
	ex.trial--
	ex.initMode = false
}

// initialised lists the packages whose variables are given their values.
func initialised(path string) bool { return isOurs(path) || path == "unicode/utf8" }

// ---- structural equality of values (used for arguments of observable
// operations) ----

func (ex *Exec) same(st *State, a, b Val) *Term {
	return ex.sameD(st, a, b, map[[2]int]bool{})
}

func (ex *Exec) sameD(st *State, a, b Val, seen map[[2]int]bool) *Term {
	c := ex.c
	if x, ok := a.(PtrV); ok {
		if y, ok := b.(PtrV); ok {
			if x.Obj == y.Obj && sameObj(x, y) {
				return c.True
			}
			if x.Obj == 0 || y.Obj == 0 {
				return c.False
			}
			k := [2]int{x.Obj, y.Obj}
			if seen[k] {
				return c.True
			}
			seen[k] = true
			return ex.sameD(st, ex.load(st, x), ex.load(st, y), seen)
		}
	}
	switch x := a.(type) {
	case SliceV:
		y, ok := b.(SliceV)
		if !ok {
			return c.False
		}
		p, q := ex.sliceSeq(st, x), ex.sliceSeq(st, y)
		return ex.sameSeq(st, p, q, seen)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok {
			return c.False
		}
		r := c.True
		for i := range x.F {
			r = c.And(r, ex.sameD(st, x.F[i], y.F[i], seen))
		}
		return r
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok {
			return c.False
		}
		return ex.sameSeq(st, x.S, y.S, seen)
	case IfaceV:
		y, ok := b.(IfaceV)
		if ok && x.T != nil && y.T != nil && types.Identical(x.T, y.T) {
			return ex.sameD(st, x.V, y.V, seen)
		}
	case FuncV:
		if y, ok := b.(FuncV); ok && x.Fn == y.Fn && x.Model == y.Model {
			return c.True
		}
	}
	return ex.valEq(st, a, b)
}

func (ex *Exec) sameSeq(st *State, p, q Seq, seen map[[2]int]bool) *Term {
	c := ex.c
	if len(p) == len(q) && ex.seqAllUnits(p) && ex.seqAllUnits(q) {
		r := c.True
		for i := range p {
			r = c.And(r, ex.sameD(st, p[i].U, q[i].U, seen))
		}
		return r
	}
	r, _ := ex.seqEq(st, p, q)
	return r
}

func (ex *Exec) loadOpaque(st *State, t *Term) Val {
	unsup("load through opaque pointer %v", t)
	return nil
}
func (ex *Exec) opaqueField(st *State, t *Term, s Step) Val {
	unsup("field of opaque value %v", t)
	return nil
}
func (ex *Exec) opaqueFieldAddr(st *State, t *Term, in *ssa.FieldAddr) Val {
	unsup("field address in opaque value %v", t)
	return nil
}
func (ex *Exec) opaqueMapLookup(st *State, t *Term, k Val, mt *types.Map) (Val, *Term) {
	unsup("lookup in opaque map")
	return nil, nil
}
func (ex *Exec) ghostMapLookup(st *State, g *GhostV, o int, k Val, mt *types.Map) (Val, *Term) {
	unsup("ghost map")
	return nil, nil
}
func (ex *Exec) ghostMapUpdate(st *State, g *GhostV, o int, k, v Val) { unsup("ghost map") }
func (ex *Exec) assertHook(st *State, iv IfaceV, t types.Type) (bool, bool) {
	return false, false
}

func sprint(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }
