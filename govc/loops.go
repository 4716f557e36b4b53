package main

// Loops.  At the head of a loop the verifier either unrolls (when the loop is
// decided concretely) or infers an inductive invariant: it generalises what
// the body changes, guesses relations between the changed locations, and keeps
// the ones the body preserves.  The surviving invariant is assumed at the head
// and re-proved at every back edge of the final run, so soundness does not
// depend on how it was found.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type wleaf struct {
	loc   string
	kind  string // term, str, slice, arr, u, len
	e     Val    // value on entry
	g     Val    // value in the generalised state
	elem  types.Type
	class int
	sign  int
	ext   *segExt
	noExt bool
	suf   bool // a shorter and shorter end of the entry string
	noSuf bool
	seqE  Seq
	order int
}

// segExt: content == entry content ++ fam[lo : lo+len-elen]
type segExt struct {
	f  *Fam
	lo *Term
}

type LoopRec struct {
	bs      []*backState // the back states of the round
	conds   []cond       // leaves of one class that turned out to be equal in some mode only
	stopped int          // rounds ended by finding one
	again   bool

	li      *LoopInfo
	depth   int
	pos     string
	entry   *State
	g       *State
	W       map[string]*wleaf
	nW      int
	nCls    int
	cands   []*Term
	candN   map[*Term]bool
	dropd   map[*Term]bool
	gvar    map[*Term]string // generalised variable -> leaf loc
	kept    int
	gobj    map[int]string // objects created for generalised slices
	mins    int
	specs   []string
	npc     int
	rootsC  []root
	rootsN  int
	rootsOf *State
}

var loopDbg = os.Getenv("GOVC_LOOP") != ""

// specPos identifies where the specification thread is.
func (ex *Exec) specPos(st *State) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "d%d;", len(st.th[0].top().defers))
	if len(st.th) < 2 {
		return sb.String()
	}
	t := st.th[1]
	if t.done {
		return sb.String() + "done"
	}
	for _, f := range t.frames {
		fmt.Fprintf(&sb, "%s.%d.%d/", f.fn.String(), f.blk.Index, f.ip)
	}
	return sb.String()
}

func (ex *Exec) evalPhis(st *State, fr *Frame) {
	idx := -1
	for i, p := range fr.blk.Preds {
		if p == fr.prev {
			idx = i
		}
	}
	var vs []Val
	var ps []*ssa.Phi
	for _, in := range fr.blk.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if idx < 0 {
			unsup("phi without predecessor")
		}
		ps = append(ps, p)
		vs = append(vs, ex.val(st, fr, p.Edges[idx]))
	}
	for i, p := range ps {
		fr.set(p, vs[i])
	}
	fr.ip = len(ps)
}

// headConst: does the head's own test evaluate to a constant here, and is the
// loop left then?
func (ex *Exec) headConst(st *State, li *LoopInfo) (res, exits bool) {
	fr := st.top()
	n := len(fr.blk.Instrs)
	iff, ok := fr.blk.Instrs[n-1].(*ssa.If)
	if !ok {
		return false, false
	}
	in0, in1 := li.Body[fr.blk.Succs[0]], li.Body[fr.blk.Succs[1]]
	if in0 == in1 {
		return false, false
	}
	for _, in := range fr.blk.Instrs[fr.ip : n-1] {
		switch in.(type) {
		case *ssa.Call, *ssa.Store, *ssa.MapUpdate, *ssa.Next, *ssa.Defer:
			if cl, ok := in.(*ssa.Call); ok {
				if b, ok := cl.Common().Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "min" || b.Name() == "cap") {
					continue
				}
			}
			if _, ok := in.(*ssa.Next); ok {
				continue
			}
			return false, false
		}
	}
	cl := st.clone()
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case forkSig, deadSig, unsupported:
				res, exits = false, false
				ex.st = st
			default:
				panic(r)
			}
		}
	}()
	ex.st = cl
	ex.trial++
	defer func() { ex.trial--; ex.st = st }()
	for cl.top().ip < n-1 {
		if !ex.step(cl) {
			return false, false
		}
	}
	t := ex.val(cl, cl.top(), iff.Cond).(*Term)
	if !isConst(t) {
		return false, false
	}
	return true, t.isTrue() != in0
}

// nilTest: the loop goes on while something is, or is not, nil.
func nilTest(li *LoopInfo) bool {
	iff, ok := li.Head.Instrs[len(li.Head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return false
	}
	for _, v := range []ssa.Value{b.X, b.Y} {
		if k, ok := v.(*ssa.Const); ok && k.IsNil() {
			return true
		}
	}
	return false
}

// constBound: an induction variable with constant start and step that is
// compared against a constant bounds the trip count.
func (ex *Exec) constBound(st *State, li *LoopInfo) bool {
	fr := st.top()
	ind := map[ssa.Value]bool{}
	for _, in := range fr.blk.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v, ok := fr.env[p].(*Term)
		if !ok || !isConst(v) || v.sort.K != SBV {
			continue
		}
		okAll := true
		var steps []ssa.Value
		for i, pr := range fr.blk.Preds {
			if !li.Body[pr] {
				continue
			}
			b, ok := p.Edges[i].(*ssa.BinOp)
			if !ok || b.X != p || (b.Op != token.ADD && b.Op != token.SUB && b.Op != token.SHL && b.Op != token.SHR) {
				okAll = false
				break
			}
			k, ok := b.Y.(*ssa.Const)
			if !ok || k.Value == nil || k.Uint64() == 0 || k.Uint64() > 64 {
				okAll = false
				break
			}
			steps = append(steps, b)
		}
		if okAll {
			ind[p] = true
			for _, s := range steps {
				ind[s] = true
			}
		}
	}
	if len(ind) == 0 {
		return false
	}
	for b := range li.Body {
		n := len(b.Instrs)
		iff, ok := b.Instrs[n-1].(*ssa.If)
		if !ok || li.Body[b.Succs[0]] && li.Body[b.Succs[1]] {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		kk := func(v ssa.Value) bool {
			k, ok := v.(*ssa.Const)
			return ok && k.Value != nil && k.Uint64() <= 512
		}
		if ind[c.X] && kk(c.Y) || ind[c.Y] && kk(c.X) {
			return true
		}
	}
	return false
}

// shiftBound: a variable shifted right by a constant every time round, and
// compared against a constant on the way out, bounds the trip count.
func (ex *Exec) shiftBound(st *State, li *LoopInfo) bool {
	fr := st.top()
	ind := map[ssa.Value]bool{}
	for _, in := range fr.blk.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsUnsigned == 0 {
			continue
		}
		okAll := true
		var steps []ssa.Value
		for i, pr := range fr.blk.Preds {
			if !li.Body[pr] {
				continue
			}
			b, ok := p.Edges[i].(*ssa.BinOp)
			if !ok || b.X != p || b.Op != token.SHR && b.Op != token.QUO {
				okAll = false
				break
			}
			k, ok := b.Y.(*ssa.Const)
			if !ok || k.Value == nil || k.Uint64() < 1 || b.Op == token.QUO && k.Uint64() < 2 {
				okAll = false
				break
			}
			steps = append(steps, b)
		}
		if okAll {
			ind[p] = true
			for _, s := range steps {
				ind[s] = true
			}
		}
	}
	if len(ind) == 0 {
		return false
	}
	for b := range li.Body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || li.Body[b.Succs[0]] && li.Body[b.Succs[1]] {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		_, kx := c.X.(*ssa.Const)
		_, ky := c.Y.(*ssa.Const)
		if ind[c.X] && ky || ind[c.Y] && kx {
			return true
		}
	}
	return false
}

// atLoopHead is called when the code thread reaches a loop head with its phis
// not yet evaluated.
func (ex *Exec) atLoopHead(st *State, li *LoopInfo) (more []*State, cont, handled bool) {
	fr := st.top()
	back := li.Body[fr.prev]
	ex.evalPhis(st, fr)
	fr.headDone = true
	depth := len(st.thread().frames)
	if !back {
		// entry: forget records of an earlier execution of this loop and of
		// anything deeper
		k := 0
		for k < len(st.loops) && (st.loops[k].depth < depth || st.loops[k].depth == depth && st.loops[k].li.Body[fr.blk] && st.loops[k].li != li) {
			k++
		}
		st.loops = st.loops[:k:k]
	} else {
		// drop records of loops nested in this one
		k := len(st.loops)
		for k > 0 && (st.loops[k-1].depth > depth || st.loops[k-1].depth == depth && st.loops[k-1].li != li && li.Body[st.loops[k-1].li.Head]) {
			k--
		}
		st.loops = st.loops[:k:k]
	}
	if back && fr.unroll[li.Head] > 2 && nilTest(li) {
		// the test is decided afresh by every iteration: this is no constant
		// loop
		fr.setUnroll(li.Head, -1)
	}
	if !back || fr.unroll[li.Head] <= 0 {
		if back && fr.unroll[li.Head] < 0 {
			// one iteration was peeled off
			fr.setUnroll(li.Head, 0)
		} else if back {
			if nilTest(li) {
				if c, exits := ex.headConst(st, li); c && exits {
					fr.setUnroll(li.Head, 1)
					return nil, true, true
				}
			}
			pos := ex.specPos(st)
			for i := len(st.loops) - 1; i >= 0; i-- {
				r := st.loops[i]
				if r.li == li && r.depth == depth && r.pos == pos {
					ex.closeLoop(st, r)
					ex.Paths++
					return nil, false, true
				}
			}
		} else if c, _ := ex.headConst(st, li); c || ex.constBound(st, li) || ex.shiftBound(st, li) {
			fr.setUnroll(li.Head, 1)
			return nil, true, true
		} else {
			fr.setUnroll(li.Head, 0)
		}
		var before *State
		if ex.peel && !back {
			before = st.clone()
		}
		rec := ex.inferPeel(st, li, depth, before != nil)
		if rec == nil {
			// the first iteration is different: execute it by itself
			*st = *before
			ex.st = st
			st.top().setUnroll(li.Head, -1)
			return nil, true, true
		}
		// continue from the generalised head
		g := rec.g.clone()
		g.loops = append(st.loops[:len(st.loops):len(st.loops)], rec)
		if ex.trial == 0 {
			ex.Loops++
			ex.Invs += len(rec.cands) + rec.kept
		}
		return []*State{g}, false, true
	}
	// unrolling
	n := fr.unroll[li.Head] + 1
	if n > 600 {
		unsup("loop %s not bounded by 600 iterations", li.Label)
	}
	fr.setUnroll(li.Head, n)
	return nil, true, true
}

func (f *Frame) setUnroll(b *ssa.BasicBlock, n int) {
	m := make(map[*ssa.BasicBlock]int, len(f.unroll)+1)
	for k, v := range f.unroll {
		m[k] = v
	}
	m[b] = n
	f.unroll = m
}

// closeLoop: the state arrives at the head of a loop under invariant; the
// invariant must hold again.
func (ex *Exec) closeLoop(st *State, r *LoopRec) {
	if ex.trial > 0 {
		return // only the final run is checked
	}
	if ex.deadState(st) {
		return
	}
	ex.normalise(st)
	bv := r.newBack(st)
	if !r.compare(ex, bv, true) {
		unsup("loop %s: invariant not stable: %s", r.li.Label, r.why(bv))
	}
	if why := r.checkAll(ex, bv); why != "" {
		unsup("loop %s: invariant not re-established: %s", r.li.Label, why)
	}
	if f := r.li.Head.Parent(); f.Pkg == nil || !isRepo(f.Pkg.Pkg.Path()) {
		return
	}
	for _, p := range ex.progress {
		was, now := ex.load(r.g, p.cell), ex.load(st, p.cell)
		ex.oblige(st, p.props, p.label, ex.c.Slt(was.(*Term), now.(*Term)))
	}
}

// progress is a counter that every iteration must increase.
type progress struct {
	props, label string
	cell         PtrV
}

func (ex *Exec) deadState(st *State) bool {
	return st.dead || ex.sat(st) == Unsat
}

// ---- walking states ----

type backState struct {
	st    *State
	vals  map[string]Val // values found at generalised leaves
	newW  map[string]Val // mismatching leaves (value in g)
	kinds map[string]types.Type
	bad   string
	held  map[int][]string // references to objects
}

func (r *LoopRec) newBack(st *State) *backState {
	return &backState{st: st, vals: map[string]Val{}, newW: map[string]Val{}}
}
func (r *LoopRec) why(b *backState) string {
	s := b.bad
	for k := range b.newW {
		s += " " + k
	}
	return s
}

type root struct {
	loc string
	get func(*State) (Val, bool)
	set func(*State, Val)
}

// roots of the loop state, as of the generalised/entry state.
func (r *LoopRec) roots(ex *Exec, base *State) []root {
	if r.rootsN == 0 || r.rootsN != len(base.heap.m) || r.rootsOf != base {
		r.rootsC, r.rootsN, r.rootsOf = r.roots1(ex, base), len(base.heap.m), base
	}
	return r.rootsC
}

func (r *LoopRec) roots1(ex *Exec, base *State) []root {
	var out []root
	// phis of the head
	for _, in := range r.li.Head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		p0 := p
		out = append(out, root{"r:" + p.Name(),
			func(st *State) (Val, bool) { v, ok := st.th[0].frames[r.depth-1].env[p0]; return v, ok },
			func(st *State, v Val) { st.th[0].frames[r.depth-1].set(p0, v) }})
	}
	if len(base.th) > 1 {
		for fi, f := range base.th[1].frames {
			fi := fi
			var names []ssa.Value
			live := ex.W.liveAfterCall(f, fi < len(base.th[1].frames)-1)
			for v := range f.env {
				if live[v] {
					names = append(names, v)
				}
			}
			sort.Slice(names, func(i, j int) bool { return names[i].Name() < names[j].Name() })
			for _, v := range names {
				v := v
				out = append(out, root{fmt.Sprintf("s%d:%s", fi, v.Name()),
					func(st *State) (Val, bool) { x, ok := st.th[1].frames[fi].env[v]; return x, ok },
					func(st *State, x Val) { st.th[1].frames[fi].set(v, x) }})
			}
		}
		if base.th[1].pend != nil {
			for i := range base.th[1].pend.Args {
				i := i
				out = append(out, root{fmt.Sprintf("p:%d", i),
					func(st *State) (Val, bool) {
						if st.th[1].pend == nil || i >= len(st.th[1].pend.Args) {
							return nil, false
						}
						return st.th[1].pend.Args[i], true
					},
					func(st *State, x Val) {
						e := *st.th[1].pend
						e.Args = append([]Val{}, e.Args...)
						e.Args[i] = x
						st.th[1].pend = &e
					}})
			}
		}
	}
	var objs []int
	for o := range base.heap.m {
		objs = append(objs, o)
	}
	sort.Ints(objs)
	for _, o := range objs {
		o := o
		out = append(out, root{fmt.Sprintf("h:%d", o),
			func(st *State) (Val, bool) { v, ok := st.heap.m[o]; return v, ok },
			func(st *State, v Val) { st.heap.set(o, v) }})
	}
	var gs []string
	for k := range base.ghost {
		if !strings.HasPrefix(k, "vol:") {
			gs = append(gs, k)
		}
	}
	sort.Strings(gs)
	for _, k := range gs {
		k := k
		out = append(out, root{"g:" + k,
			func(st *State) (Val, bool) { v, ok := st.ghost[k]; return v, ok },
			func(st *State, v Val) { st.setGhost(k, v) }})
	}
	return out
}

// refs lists, for every heap object, the locations of live references to it.
func (ex *Exec) refs(st *State) map[int][]string { return ex.refsAt(st, false) }

// refsAt: with after, references are those held after the instruction the
// current thread is at.
func (ex *Exec) refsAt(st *State, after bool) map[int][]string { return ex.refsTo(st, after, true) }

// refsTo: without names, the locations are left empty.
func (ex *Exec) refsTo(st *State, after, names bool) map[int][]string {
	sub := func(loc, sep string, i int, end string) string {
		if !names {
			return ""
		}
		return loc + sep + strconv.Itoa(i) + end
	}
	cat := func(a, b string) string {
		if !names {
			return ""
		}
		return a + b
	}
	out := map[int][]string{}
	var visit func(loc string, v Val)
	var obj func(o int, loc string)
	seen := map[int]bool{}
	obj = func(o int, loc string) {
		if o == 0 {
			return
		}
		out[o] = append(out[o], loc)
		if !seen[o] {
			seen[o] = true
			visit(sub("h", ":", o, ""), st.heap.get(o))
		}
	}
	visit = func(loc string, v Val) {
		switch v := v.(type) {
		case PtrV:
			obj(v.Obj, loc)
		case SliceV:
			obj(v.Obj, loc)
		case MapV:
			obj(v.Obj, loc)
		case *StructV:
			for i, f := range v.F {
				visit(sub(loc, ".", i, ""), f)
			}
		case *ArrV:
			for i, ch := range v.S {
				if ch.F == nil {
					visit(sub(loc, "[", i, "]"), ch.U)
				}
			}
		case IfaceV:
			visit(cat(loc, "!"), v.V)
		case FuncV:
			for i, b := range v.Bind {
				visit(sub(loc, "^", i, ""), b)
			}
			if v.Recv != nil {
				visit(cat(loc, "^r"), v.Recv)
			}
		case TupV:
			for i, f := range v {
				visit(sub(loc, ",", i, ""), f)
			}
		case *GhostV:
			for k, f := range v.F {
				if k == "vol" && !after {
					continue // weak
				}
				visit(cat(loc, "#"+k), f)
			}
		case *MapObj:
			for i := range v.K {
				visit(sub(loc, "{k", i, ""), v.K[i])
				visit(sub(loc, "{v", i, ""), v.V[i])
			}
		case rangeIter:
			for i := range v.keys {
				visit(cat(loc, "~k"), v.keys[i])
				visit(cat(loc, "~v"), v.vals[i])
			}
		}
	}
	for o := range st.heap.m {
		if o < 0 {
			seen[o] = true
			visit(sub("h", ":", o, ""), st.heap.get(o))
		}
	}
	for ti, th := range st.th {
		for fi, f := range th.frames {
			live := ex.W.liveAfterCall(f, fi < len(th.frames)-1 || after && ti == st.cur)
			atHead := false
			if ti == 0 && fi == len(th.frames)-1 {
				atHead = true
			}
			for v, x := range f.env {
				if live[v] {
					pre := sub("s", "", fi, ":")
					if ti == 0 {
						pre = sub("c", "", fi, ":")
						if _, isPhi := v.(*ssa.Phi); atHead && isPhi && v.(*ssa.Phi).Block() == f.blk {
							pre = "r:"
						}
					}
					visit(cat(pre, v.Name()), x)
				}
			}
			for i, d := range f.defers {
				for _, a := range d.args {
					visit(sub("d", "", i, ""), a)
				}
				visit(sub("d", "", i, ""), d.fn)
			}
		}
		if th.pend != nil {
			for i, a := range th.pend.Args {
				visit(sub("p:", "", i, ""), a)
			}
		}
	}
	for k, v := range st.ghost {
		visit(cat("g:", k), v)
	}
	return out
}

// normalise drops weak references of readers to peeked slices nobody holds,
// and objects nobody can reach.
func (ex *Exec) normalise(st *State) {
	rf := ex.refsTo(st, false, false)
	var del []int
	for o := range st.heap.m {
		if o > 0 && len(rf[o]) == 0 {
			del = append(del, o)
		}
	}
	sort.Ints(del)
	if len(del) > 0 {
		m := make(map[int]Val, len(st.heap.m))
		for k, x := range st.heap.m {
			m[k] = x
		}
		for _, o := range del {
			delete(m, o)
		}
		st.heap = &Heap{m: m}
	}
	for o, v := range st.heap.m {
		if g, ok := v.(*GhostV); ok && g.Kind == "Reader" {
			if p, ok := g.F["vol"].(PtrV); ok && p.Obj != 0 && len(rf[p.Obj]) == 0 {
				st.heap.set(o, g.with("vol", PtrV{}))
			}
		}
	}
}

// ---- comparing a back-edge state with the generalised state ----

func (r *LoopRec) compare(ex *Exec, b *backState, final bool) bool {
	for _, rt := range r.roots(ex, r.entry) {
		gv, _ := rt.get(r.g)
		bvv, ok := rt.get(b.st)
		if !ok {
			if strings.HasPrefix(rt.loc, "h:") {
				continue // unreachable now
			}
			if w := r.W[rt.loc]; w != nil {
				b.bad = "lost " + rt.loc
				return false
			}
			b.bad = "missing " + rt.loc
			return false
		}
		r.cmp(ex, b, rt.loc, gv, bvv)
		if b.bad != "" {
			return false
		}
	}
	return len(b.newW) == 0
}

func (r *LoopRec) mark(b *backState, loc string, g Val) { b.newW[loc] = g }

func (r *LoopRec) cmp(ex *Exec, b *backState, loc string, g, v Val) {
	if w := r.W[loc]; w != nil {
		b.vals[loc] = v
		return
	}
	st := b.st
	switch x := g.(type) {
	case nil:
		if v != nil {
			r.mark(b, loc, g)
		}
	case *Term:
		y, ok := v.(*Term)
		if !ok {
			if x.sort.K == SU {
				r.mark(b, loc, g)
				return
			}
			b.bad = loc + ": term became other"
			return
		}
		if x == y {
			return
		}
		if x.sort != y.sort || !ex.entailsQ(st, ex.c.Eq(x, y)) {
			r.mark(b, loc, g)
		}
	case *StructV:
		y, ok := v.(*StructV)
		if !ok {
			b.bad = loc + ": struct changed shape"
			return
		}
		if x == y {
			return
		}
		for i := range x.F {
			r.cmp(ex, b, fmt.Sprintf("%s.%d", loc, i), x.F[i], y.F[i])
		}
	case TupV:
		y, ok := v.(TupV)
		if !ok || len(x) != len(y) {
			b.bad = loc + ": tuple changed shape"
			return
		}
		for i := range x {
			r.cmp(ex, b, fmt.Sprintf("%s,%d", loc, i), x[i], y[i])
		}
	case StrV:
		y, ok := v.(StrV)
		if !ok {
			b.bad = loc + ": string changed kind"
			return
		}
		if !ex.provedEq(st, x.S, y.S) {
			r.mark(b, loc, g)
		}
	case *ArrV:
		y, ok := v.(*ArrV)
		if !ok {
			b.bad = loc + ": array changed kind"
			return
		}
		if x == y {
			return
		}
		if len(x.S) == len(y.S) && ex.seqAllUnits(x.S) && ex.seqAllUnits(y.S) && len(x.S) <= 64 {
			for i := range x.S {
				r.cmp(ex, b, fmt.Sprintf("%s[%d]", loc, i), x.S[i].U, y.S[i].U)
			}
			return
		}
		if !ex.provedEq(st, x.S, y.S) {
			r.mark(b, loc, g)
		}
	case SliceV:
		y, ok := v.(SliceV)
		if !ok {
			b.bad = loc + ": slice changed kind"
			return
		}
		if x.Obj == y.Obj && len(x.Path) == len(y.Path) {
			same := func(p, q *Term) bool { return p == q || ex.entailsQ(st, ex.c.Eq(p, q)) }
			if same(x.Off, y.Off) && same(x.Len, y.Len) && same(x.Cap, y.Cap) {
				return
			}
		}
		r.mark(b, loc, g)
	case PtrV:
		y, ok := v.(PtrV)
		if ok && x.Obj == y.Obj && len(x.Path) == len(y.Path) {
			if x.Obj == 0 {
				return
			}
			t := ex.valEq(st, x, y)
			if t.isTrue() || ex.entailsQ(st, t) {
				return
			}
		}
		r.mark(b, loc, g)
	case MapV:
		y, ok := v.(MapV)
		if ok && x.Obj == y.Obj {
			return
		}
		r.mark(b, loc, g)
	case FuncV:
		y, ok := v.(FuncV)
		if ok && x.Fn == y.Fn && x.Model == y.Model && len(x.Bind) == len(y.Bind) {
			for i := range x.Bind {
				r.cmp(ex, b, fmt.Sprintf("%s^%d", loc, i), x.Bind[i], y.Bind[i])
			}
			return
		}
		r.mark(b, loc, g)
	case IfaceV:
		y, ok := v.(IfaceV)
		if ok && x.T == nil && y.T == nil {
			return
		}
		if ok && x.T != nil && y.T != nil && types.Identical(x.T, y.T) {
			if _, isp := x.V.(PtrV); !isp {
				r.cmp(ex, b, loc+"!", x.V, y.V)
				return
			}
			if t := ex.valEq(st, x.V, y.V); t.isTrue() {
				return
			}
		}
		r.mark(b, loc, g)
	case *GhostV:
		y, ok := v.(*GhostV)
		if !ok || y.Kind != x.Kind {
			b.bad = loc + ": modelled object changed"
			return
		}
		if x == y {
			return
		}
		var ks []string
		for k := range x.F {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			r.cmp(ex, b, loc+"#"+k, x.F[k], y.F[k])
		}
	case *MapObj:
		y, ok := v.(*MapObj)
		if ok && x == y {
			return
		}
		if ok && x.B != y.B {
			ok = false
		}
		if ok && len(x.K) == len(y.K) {
			for i := range x.K {
				if t := ex.valEq(st, x.K[i], y.K[i]); !t.isTrue() && !ex.entailsQ(st, t) {
					r.mark(b, loc, g)
					return
				}
				r.cmp(ex, b, fmt.Sprintf("%s{v%d", loc, i), x.V[i], y.V[i])
			}
			return
		}
		r.mark(b, loc, g)
	case rangeIter:
		y, ok := v.(rangeIter)
		if ok && len(x.keys) == len(y.keys) {
			return
		}
		b.bad = loc + ": map iteration under generalisation"
	case Poison:
		if y, ok := v.(Poison); !ok || y != x {
			b.bad = loc + ": unknown value changed"
		}
	case string:
		if s, ok := v.(string); !ok || s != x {
			b.bad = loc + ": ghost changed"
		}
	default:
		b.bad = fmt.Sprintf("%s: %T", loc, g)
	}
}

// provedEq: are the sequences provably equal (all cases)?
func (ex *Exec) provedEq(st *State, a, b Seq) bool {
	if len(a) == 0 && len(b) == 0 {
		return true
	}
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i].F == nil && b[i].F == nil {
				if x, ok := a[i].U.(*Term); ok && x == b[i].U {
					continue
				}
			} else if a[i].F != nil && b[i].F != nil && sameFam(a[i].F, b[i].F) && a[i].Lo == b[i].Lo && a[i].N == b[i].N {
				continue
			}
			same = false
			break
		}
		if same {
			return true
		}
	}
	ln := ex.c.Eq(ex.seqLen(a), ex.seqLen(b))
	if !ex.entailsQ(st, ln) {
		return false
	}
	return ex.proveAll(st, 0, func(s *State) *Term {
		t, _ := ex.seqEq(s, a, b)
		return t
	})
}

// proveAll proves f in every case distinction f asks for.
func (ex *Exec) proveAll(st *State, d int, f func(*State) *Term) bool {
	if d > 12 {
		return false
	}
	old := ex.st
	defer func() { ex.st = old }()
	cl := st.clone()
	ex.st = cl
	var t *Term
	var fork *Term
	dead := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch s := r.(type) {
				case forkSig:
					fork = s.cond
				case deadSig:
					dead = true
				case unsupported:
					t = ex.c.False
				default:
					panic(r)
				}
			}
		}()
		t = f(cl)
	}()
	if dead {
		return true
	}
	if fork != nil {
		a := st.clone()
		a.assume(fork)
		b := st.clone()
		b.assume(ex.c.Not(fork))
		return ex.proveAll(a, d+1, f) && ex.proveAll(b, d+1, f)
	}
	return ex.entails(cl, t)
}

// ---- building the generalised state ----

func (r *LoopRec) rewrite(loc string, v Val) Val {
	if w := r.W[loc]; w != nil {
		return w.g
	}
	switch x := v.(type) {
	case *StructV:
		n := &StructV{F: make([]Val, len(x.F))}
		for i := range x.F {
			n.F[i] = r.rewrite(fmt.Sprintf("%s.%d", loc, i), x.F[i])
		}
		return n
	case TupV:
		n := make(TupV, len(x))
		for i := range x {
			n[i] = r.rewrite(fmt.Sprintf("%s,%d", loc, i), x[i])
		}
		return n
	case *ArrV:
		if len(x.S) > 64 {
			return x
		}
		n := &ArrV{S: append(Seq{}, x.S...)}
		for i := range n.S {
			if n.S[i].F == nil {
				n.S[i].U = r.rewrite(fmt.Sprintf("%s[%d]", loc, i), n.S[i].U)
			}
		}
		return n
	case FuncV:
		if len(x.Bind) == 0 {
			return x
		}
		n := x
		n.Bind = make([]Val, len(x.Bind))
		for i := range x.Bind {
			n.Bind[i] = r.rewrite(fmt.Sprintf("%s^%d", loc, i), x.Bind[i])
		}
		return n
	case IfaceV:
		if x.T == nil {
			return x
		}
		return IfaceV{T: x.T, V: r.rewrite(loc+"!", x.V)}
	case *GhostV:
		n := &GhostV{Kind: x.Kind, F: map[string]Val{}}
		for k, f := range x.F {
			n.F[k] = r.rewrite(loc+"#"+k, f)
		}
		return n
	case *MapObj:
		n := &MapObj{K: x.K, V: make([]Val, len(x.V)), B: x.B}
		for i := range x.V {
			n.V[i] = r.rewrite(fmt.Sprintf("%s{v%d", loc, i), x.V[i])
		}
		return n
	}
	return v
}

func (r *LoopRec) sortedW() []*wleaf {
	var ws []*wleaf
	for _, w := range r.W {
		ws = append(ws, w)
	}
	sort.Slice(ws, func(i, j int) bool { return ws[i].order < ws[j].order })
	return ws
}

func bitsort(w *wleaf) (Sort, bool) {
	if t, ok := w.e.(*Term); ok {
		return t.sort, true
	}
	return Sort{}, false
}

// build makes the generalised state from the entry state.
func (r *LoopRec) build(ex *Exec) *State {
	c := ex.c
	g := r.entry.clone()
	ex.st = g
	r.gvar = map[*Term]string{}
	r.gobj = map[int]string{}
	ws := r.sortedW()
	// a base per class
	rep := map[string]*wleaf{}
	tag := r.tag()
	for _, w := range ws {
		switch w.kind {
		case "term", "len":
			e := w.e.(*Term)
			key := fmt.Sprintf("t%s/%d", sortTag(e.sort), w.class)
			if p := rep[key]; p == nil {
				rep[key] = w
				v := c.Var("L"+tag+":"+w.loc+sortTag(e.sort), e.sort)
				w.g = v
				w.sign = 1
				r.gvar[v] = w.loc
			} else {
				w.g = r.related(ex, w, p, p.g.(*Term))
			}
		case "u":
			key := fmt.Sprintf("u/%d", w.class)
			if p := rep[key]; p == nil {
				rep[key] = w
				v := c.Var("L"+tag+":"+w.loc+":u", US)
				w.g = v
				r.gvar[v] = w.loc
			} else {
				w.g = p.g
			}
		}
	}
	// sequences
	for _, w := range ws {
		switch w.kind {
		case "str", "slice", "arr":
			key := fmt.Sprintf("q/%d", w.class)
			p := rep[key]
			var q Seq
			if p != nil {
				q = r.seqOf(ex, g, p)
			} else {
				rep[key] = w
				lw := r.W[w.loc+"#len"]
				var n *Term
				if lw != nil {
					n = lw.g.(*Term)
				} else {
					n = ex.seqLen(w.seqE)
				}
				g.assume(c.Ule(n, c.Int(maxLen)))
				if w.suf {
					g.assume(c.Ule(n, w.seqE[0].N))
					q = suffix(c, w.seqE[0], n)
				} else if w.ext != nil {
					d := c.Sub(n, ex.seqLen(w.seqE))
					g.assume(c.Ule(ex.seqLen(w.seqE), n))
					q = ex.seqCat(w.seqE, Seq{{F: w.ext.f, Lo: w.ext.lo, N: d}})
				} else {
					id := c.Var("L"+tag+":"+w.loc+":fam", US)
					q = Seq{{F: &Fam{Id: id, Elem: w.elem}, Lo: c.Int(0), N: n}}
				}
			}
			switch w.kind {
			case "str":
				w.g = StrV{S: q}
			case "arr":
				w.g = &ArrV{S: q}
			case "slice":
				n := ex.seqLen(q)
				sp := c.Var("L"+tag+":"+w.loc+":spare", BVS(64))
				g.assume(c.Ule(sp, c.Int(maxLen)))
				o := g.newObj(nil)
				spf := &Fam{Id: c.Var("L"+tag+":"+w.loc+":sparefam", US), Elem: w.elem}
				g.heap.set(o, &ArrV{S: ex.seqCat(q, Seq{{F: spf, Lo: c.Int(0), N: sp}})})
				nl := c.Var("L"+tag+":"+w.loc+":nil", BoolS)
				cp := c.Add(n, sp)
				g.assume(c.Implies(nl, c.Eq(cp, c.Int(0))))
				w.g = SliceV{Obj: o, Off: c.Int(0), Len: n, Cap: cp, Nil: nl}
				r.gobj[o] = w.loc
			}
		}
	}
	for _, rt := range r.roots(ex, r.entry) {
		v, _ := rt.get(r.entry)
		rt.set(g, r.rewrite(rt.loc, v))
	}
	for _, o := range r.objsOf(g) {
		if gv, ok := g.heap.get(o).(*GhostV); ok {
			ex.ghostInv(g, gv)
		} else if sv, ok := g.heap.get(o).(*StructV); ok {
			for _, f := range sv.F {
				if gv, ok := f.(*GhostV); ok {
					ex.ghostInv(g, gv)
				}
			}
		}
	}
	for _, k := range r.cands {
		g.assume(k)
	}
	r.npc = len(g.pc)
	return g
}

func (r *LoopRec) objsOf(g *State) []int {
	var os []int
	for o := range g.heap.m {
		os = append(os, o)
	}
	sort.Ints(os)
	return os
}

func (r *LoopRec) tag() string {
	return fmt.Sprintf("%d.%d", r.entry.fresh, r.mins)
}

// related gives w's generalised term from the class representative's.
func (r *LoopRec) related(ex *Exec, w, p *wleaf, pv *Term) *Term {
	c := ex.c
	e, pe := w.e.(*Term), p.e.(*Term)
	switch e.sort.K {
	case SBool:
		if w.sign < 0 {
			return c.Not(pv)
		}
		return pv
	case SBV:
		if w.sign < 0 {
			return c.Sub(c.Add(pe, e), pv)
		}
		return c.Add(pv, c.Sub(e, pe))
	}
	return pv
}

func (r *LoopRec) seqOf(ex *Exec, st *State, w *wleaf) Seq {
	switch v := w.g.(type) {
	case StrV:
		return v.S
	case *ArrV:
		return v.S
	case SliceV:
		return ex.sliceSeq(st, v)
	}
	return nil
}

func (ex *Exec) seqOfVal(st *State, v Val) (Seq, bool) {
	switch v := v.(type) {
	case StrV:
		return v.S, true
	case *ArrV:
		return v.S, true
	case SliceV:
		return ex.sliceSeq(st, v), true
	}
	return nil, false
}

// ---- inference ----

// inferPeel is infer, or nil if the first iteration is to be peeled off.
func (ex *Exec) inferPeel(st *State, li *LoopInfo, depth int, may bool) (r *LoopRec) {
	n, ns := len(ex.inferring), ex.mayPeel
	ex.mayPeel = may
	defer func() {
		ex.mayPeel = ns
		if q := recover(); q != nil {
			if p, ok := q.(peelSig); !ok || p.n != n+1 {
				panic(q)
			}
			r = nil
		}
	}()
	return ex.infer(st, li, depth)
}

// peelSig: a location that selects the behaviour changes in the first iteration.
type peelSig struct{ n int }

func (ex *Exec) infer(st *State, li *LoopInfo, depth int) *LoopRec {
	ex.normalise(st)
	st.fresh++
	r := &LoopRec{li: li, depth: depth, pos: ex.specPos(st), entry: st.clone(), W: map[string]*wleaf{}, dropd: map[*Term]bool{}, candN: map[*Term]bool{}}
	r.entry.loops = st.loops
	for i := range ex.inferring {
		if ex.inferring[i] == li.Label {
			r.mins++
		}
	}
	ex.inferring = append(ex.inferring, li.Label)
	ex.inferStk = append(ex.inferStk, r)
	defer func() {
		ex.inferring = ex.inferring[:len(ex.inferring)-1]
		ex.inferStk = ex.inferStk[:len(ex.inferStk)-1]
		ex.st = st
		if q := recover(); q != nil {
			if f, ok := q.(forkSig); ok {
				for _, v := range ex.vars(f.cond) {
					if !r.knownAtEntry(ex, v) {
						unsup("loop %s: undecided comparison %v", li.Label, f.cond)
					}
				}
				fr := st.th[0].frames[depth-1]
				fr.ip, fr.headDone = 0, false
			}
			panic(q)
		}
	}()
	if len(ex.inferring) > 12 {
		unsup("loop inference nested too deeply at %s", li.Label)
	}
	for round := 0; ; round++ {
		if round > 60 {
			unsup("loop %s: no invariant after 60 rounds", li.Label)
		}
		r.g = r.build(ex)
		if len(r.conds) > 0 {
			r.addConds(ex)
			r.g = r.build(ex)
		}
		backs := ex.trialRun(r)
		if loopDbg {
			fmt.Fprintf(os.Stderr, "%*sloop %s pos %s round %d: %d leaves, %d cands, %d back states\n", 2*len(ex.inferring), "", li.Label, r.pos, round, len(r.W), len(r.cands), len(backs))
		}
		changed := false
		var bs []*backState
		for _, b := range backs {
			if ex.deadState(b) {
				continue
			}
			ex.normalise(b)
			bv := r.newBack(b)
			r.compare(ex, bv, false)
			if bv.bad != "" {
				unsup("loop %s: %s", li.Label, bv.bad)
			}
			bs = append(bs, bv)
		}
		for _, bv := range bs {
			if len(bv.newW) > 0 {
				if r.addLeaves(ex, bv) {
					changed = true
				}
			}
		}
		if changed {
			if loopDbg {
				for _, w := range r.sortedW() {
					fmt.Fprintf(os.Stderr, "%*s  leaf %s %s class %d\n", 2*len(ex.inferring), "", w.loc, w.kind, w.class)
				}
			}
			r.propose(ex, bs)
			continue
		}
		r.bs, r.again = bs, false
		for _, bv := range bs {
			for n := 0; !r.again; n++ {
				why := r.refine(ex, bv)
				if why == "" {
					break
				}
				if n > 200 {
					unsup("loop %s: unstable candidates", li.Label)
				}
				changed = true
				if loopDbg {
					fmt.Fprintf(os.Stderr, "%*s  refine: %s\n", 2*len(ex.inferring), "", why)
				}
			}
		}
		r.bs = nil
		if r.again {
			r.stopped++
			continue
		}
		if !changed {
			if r.propose(ex, bs) && round < 50 {
				continue
			}
			if r.cases(ex, bs) && round < 50 {
				continue
			}
			break
		}
	}
	// the final generalised state
	r.g = r.build(ex)
	if loopDbg {
		for _, k := range r.cands {
			fmt.Fprintf(os.Stderr, "%*s  inv %v\n", 2*len(ex.inferring), "", k)
		}
	}
	return r
}

// trialRun executes the body once from the generalised head and collects the
// states arriving at the head again.
func (ex *Exec) trialRun(r *LoopRec) []*State {
	ex.trial++
	defer func() { ex.trial-- }()
	start := r.g.clone()
	start.loops = nil
	stop := func(st *State) bool {
		t := st.th[0]
		if len(t.frames) < r.depth {
			return true
		}
		if len(t.frames) > r.depth {
			return false
		}
		f := t.frames[r.depth-1]
		if !r.li.Body[f.blk] {
			return true
		}
		if f.blk == r.li.Head && f.ip == 0 && !f.headDone && st.cur == 0 {
			p := ex.specPos(st)
			if p == r.pos {
				return true
			}
			for _, o := range ex.inferStk {
				if o.li == r.li && o.depth == r.depth && o.pos == p {
					return true
				}
			}
		}
		return false
	}
	out := ex.runAll([]*State{start}, stop)
	var backs []*State
	for _, st := range out {
		t := st.th[0]
		if len(t.frames) != r.depth {
			continue
		}
		f := t.frames[r.depth-1]
		if f.blk == r.li.Head && f.ip == 0 && ex.specPos(st) == r.pos {
			ex.st = st
			ex.evalPhis(st, f)
			f.headDone = true
			if nilTest(r.li) {
				// it leaves the loop by itself (see atLoopHead)
				if c, exits := ex.headConst(st, r.li); c && exits {
					continue
				}
			}
			backs = append(backs, st)
		}
	}
	return backs
}

// addLeaves registers newly found modified locations.
func (r *LoopRec) addLeaves(ex *Exec, b *backState) bool {
	c := ex.c
	var locs []string
	for l := range b.newW {
		locs = append(locs, l)
	}
	sort.Strings(locs)
	sort.SliceStable(locs, func(i, j int) bool {
		_, a := b.newW[locs[i]].(SliceV)
		_, z := b.newW[locs[j]].(SliceV)
		return a && !z
	})
	any := false
	erefs := ex.refs(r.entry)
	for _, l := range locs {
		if r.W[l] != nil {
			continue
		}
		// objects owned by generalised slices are not leaves of their own
		if o := objOfLoc(l); o > 0 {
			if _, ok := r.gobj[o]; ok {
				continue
			}
			if r.entry.heap.m[o] == nil {
				continue
			}
			owned := len(erefs[o]) > 0
			for _, l2 := range erefs[o] {
				if w2 := r.W[l2]; w2 == nil || w2.kind != "slice" {
					owned = false
				}
			}
			if owned {
				continue
			}
		}
		e, ok := r.entryVal(ex, l)
		if !ok {
			unsup("loop %s: cannot locate %s", r.li.Label, l)
		}
		w := &wleaf{loc: l, e: e, sign: 1, order: r.nW}
		r.nW++
		bvv := r.locate(ex, b.st, l)
		switch x := e.(type) {
		case *Term:
			w.kind = "term"
			if x.sort.K == SU {
				w.kind = "u"
			}
		case StrV:
			w.kind, w.seqE, w.elem = "str", x.S, types.Typ[types.Byte]
		case *ArrV:
			w.kind, w.seqE = "arr", x.S
			w.elem = ex.elemOfSeqs(x.S, bvv, b.st)
		case SliceV:
			w.kind = "slice"
			w.seqE = ex.sliceSeq(r.entry, x)
			w.elem = ex.elemOfSeqs(w.seqE, bvv, b.st)
			// whatever the entry slice's object was, it must not be shared
			if x.Obj != 0 {
				if refs := ex.refs(r.entry)[x.Obj]; len(refs) > 1 {
					ro := true
					if y, ok := bvv.(SliceV); ok && y.Obj != x.Obj {
						ro = ex.unchangedObj(r.entry, b.st, x.Obj)
					} else {
						ro = ex.unchangedObj(r.entry, b.st, x.Obj)
					}
					if !ro {
						unsup("loop %s: shared backing array at %s (%v)", r.li.Label, l, refs)
					}
				}
			}
		case *MapObj:
			w.kind = "u"
		case IfaceV, FuncV, PtrV, MapV:
			w.kind = "u"
			if p, ok := e.(PtrV); ok && strings.HasPrefix(l, "h:") && strings.HasSuffix(l, "#vol") {
				_ = p
				unsup("loop %s: peeked bytes live across iterations", r.li.Label)
			}
		case nil:
			unsup("loop %s: nil value at %s", r.li.Label, l)
		default:
			unsup("loop %s: cannot generalise %T at %s", r.li.Label, e, l)
		}
		r.W[l] = w
		any = true
		r.classify(ex, w, b, bvv)
		if w.kind == "str" || w.kind == "slice" || w.kind == "arr" {
			if r.isSeqRep(w) && w.kind != "arr" {
				r.addLen(ex, w, b, bvv)
			}
		}
	}
	_ = c
	return any
}

func (ex *Exec) unchangedObj(a, b *State, o int) bool {
	x, ok1 := a.heap.m[o]
	y, ok2 := b.heap.m[o]
	if !ok2 {
		return true
	}
	if !ok1 {
		return false
	}
	p, ok1 := x.(*ArrV)
	q, ok2 := y.(*ArrV)
	return ok1 && ok2 && (p == q || ex.provedEq(b, p.S, q.S))
}

func (r *LoopRec) isSeqRep(w *wleaf) bool {
	for _, x := range r.sortedW() {
		if (x.kind == "str" || x.kind == "slice" || x.kind == "arr") && x.class == w.class {
			return x == w
		}
	}
	return true
}

func (r *LoopRec) addLen(ex *Exec, w *wleaf, b *backState, bvv Val) {
	ll := w.loc + "#len"
	if r.W[ll] != nil {
		return
	}
	lw := &wleaf{loc: ll, kind: "len", e: ex.seqLen(w.seqE), sign: 1, order: r.nW}
	r.nW++
	r.W[ll] = lw
	if b != nil {
		if q, ok := ex.seqOfVal(b.st, bvv); ok {
			r.classify(ex, lw, b, ex.seqLen(q))
			// stream segment pattern
			r.guessExt(ex, w, b, q)
			if w.ext == nil {
				r.guessSuf(ex, w, b, q)
			}
			return
		}
	}
	r.nCls++
	lw.class = r.nCls
}

// suffix is the end of a piece of a family.
func suffix(c *Ctx, e Chunk, n *Term) Seq {
	return Seq{{F: e.F, Lo: c.Sub(c.Add(e.Lo, e.N), n), N: n}}
}

// guessSuf looks for content that is an end of the entry's.
func (r *LoopRec) guessSuf(ex *Exec, w *wleaf, b *backState, q Seq) {
	c := ex.c
	if w.noSuf || w.kind != "str" || len(w.seqE) != 1 || len(q) != 1 || w.seqE[0].F == nil || q[0].F == nil || !sameFam(w.seqE[0].F, q[0].F) {
		return
	}
	e := w.seqE[0]
	w.suf = ex.entailsQ(b.st, c.And(c.Ule(q[0].N, e.N), c.Eq(c.Add(q[0].Lo, q[0].N), c.Add(e.Lo, e.N))))
}

// guessExt looks for content == entry ++ one contiguous piece of a family.
func (r *LoopRec) guessExt(ex *Exec, w *wleaf, b *backState, q Seq) {
	if w.noExt || w.kind == "arr" {
		return
	}
	rest := q
	pre := w.seqE
	for len(pre) > 0 && len(rest) > 0 {
		x, y := pre[0], rest[0]
		if x.F == nil && y.F == nil {
			if t, ok := x.U.(*Term); !ok || t != y.U {
				return
			}
		} else if x.F != nil && y.F != nil && sameFam(x.F, y.F) && x.Lo == y.Lo {
			if x.N != y.N {
				// merged with what follows
				if len(pre) == 1 {
					d := ex.c.Sub(y.N, x.N)
					rest = append(Seq{{F: y.F, Lo: ex.c.Add(y.Lo, x.N), N: d}}, rest[1:]...)
					pre = nil
					break
				}
				return
			}
		} else {
			return
		}
		pre, rest = pre[1:], rest[1:]
	}
	if len(pre) > 0 || len(rest) == 0 {
		return
	}
	ch := rest[0]
	var f *Fam
	var lo *Term
	if ch.F != nil {
		f, lo = ch.F, ch.Lo
	} else if t, ok := ch.U.(*Term); ok && t.op == OUF && strings.HasPrefix(t.name, "el") && len(t.args) == 2 {
		f, lo = &Fam{Id: t.args[0], Elem: w.elem}, t.args[1]
	} else {
		return
	}
	// must make sense at entry: only terms known there
	for _, v := range append(ex.vars(f.Id), ex.vars(lo)...) {
		if _, isG := r.gvar[v]; isG {
			return
		}
		if !r.knownAtEntry(ex, v) {
			return
		}
	}
	w.ext = &segExt{f: f, lo: lo}
}

func (r *LoopRec) knownAtEntry(ex *Exec, v *Term) bool {
	// fresh variables carry their creation number: base!n
	if i := strings.LastIndex(v.name, "!"); i >= 0 {
		n := 0
		for j := i + 1; j < len(v.name) && v.name[j] >= '0' && v.name[j] <= '9'; j++ {
			n = n*10 + int(v.name[j]-'0')
		}
		return n <= r.entry.fresh
	}
	return true
}

func objOfLoc(l string) int {
	if !strings.HasPrefix(l, "h:") {
		return 0
	}
	n, neg := 0, false
	for _, ch := range l[2:] {
		if ch == '-' {
			neg = true
			continue
		}
		if ch < '0' || ch > '9' {
			break
		}
		n = n*10 + int(ch-'0')
	}
	if neg {
		return -n
	}
	return n
}

func (ex *Exec) elemOfSeqs(a Seq, bvv Val, bst *State) types.Type {
	pick := func(s Seq) types.Type {
		for _, ch := range s {
			if ch.F != nil {
				return ch.F.Elem
			}
		}
		for _, ch := range s {
			if t, ok := ch.U.(*Term); ok && t.sort.K == SBV {
				return map[uint8]types.Type{8: types.Typ[types.Byte], 16: types.Typ[types.Int16], 32: types.Typ[types.Int32], 64: types.Typ[types.Int64]}[t.sort.W]
			} else if ok && t.sort.K == SBool {
				return types.Typ[types.Bool]
			}
		}
		return nil
	}
	if t := pick(a); t != nil {
		return t
	}
	if q, ok := ex.seqOfVal(bst, bvv); ok {
		if t := pick(q); t != nil {
			return t
		}
	}
	return types.NewInterfaceType(nil, nil)
}

// entryVal finds the entry value at a location.
func (r *LoopRec) entryVal(ex *Exec, loc string) (Val, bool) {
	v := r.locate(ex, r.entry, loc)
	if v == nil {
		return nil, false
	}
	return v, true
}

func (r *LoopRec) locate(ex *Exec, st *State, loc string) Val {
	var found Val
	var walk func(l string, v Val) bool
	walk = func(l string, v Val) bool {
		if l == loc {
			found = v
			return true
		}
		if !strings.HasPrefix(loc, l) {
			return false
		}
		switch x := v.(type) {
		case *StructV:
			for i := range x.F {
				if walk(fmt.Sprintf("%s.%d", l, i), x.F[i]) {
					return true
				}
			}
		case TupV:
			for i := range x {
				if walk(fmt.Sprintf("%s,%d", l, i), x[i]) {
					return true
				}
			}
		case *ArrV:
			for i := range x.S {
				if x.S[i].F == nil && walk(fmt.Sprintf("%s[%d]", l, i), x.S[i].U) {
					return true
				}
			}
		case FuncV:
			for i := range x.Bind {
				if walk(fmt.Sprintf("%s^%d", l, i), x.Bind[i]) {
					return true
				}
			}
		case IfaceV:
			return x.T != nil && walk(l+"!", x.V)
		case *GhostV:
			for k, f := range x.F {
				if walk(l+"#"+k, f) {
					return true
				}
			}
		case *MapObj:
			for i := range x.V {
				if walk(fmt.Sprintf("%s{v%d", l, i), x.V[i]) {
					return true
				}
			}
		}
		return false
	}
	for _, rt := range r.roots(ex, r.entry) {
		if rt.loc == loc || strings.HasPrefix(loc, rt.loc) {
			v, ok := rt.get(st)
			if ok && walk(rt.loc, v) {
				return found
			}
		}
	}
	return nil
}

// classify assigns a new leaf to a class of leaves that changed alike.
func (r *LoopRec) classify(ex *Exec, w *wleaf, b *backState, bvv Val) {
	c := ex.c
	switch w.kind {
	case "term", "len":
		bt, ok := bvv.(*Term)
		e := w.e.(*Term)
		if ok {
			for _, p := range r.sortedW() {
				if p == w || p.kind != "term" && p.kind != "len" || !r.isRep(p) {
					continue
				}
				pe := p.e.(*Term)
				if pe.sort != e.sort {
					continue
				}
				pb := r.leafBack(ex, b, p)
				pg, _ := p.g.(*Term)
				if pg == nil {
					pg = pe
				}
				if pb == nil {
					continue
				}
				if e.sort.K == SBool {
					if ex.entailsQ(b.st, c.Eq(c.Eq(pb, pg), c.Eq(bt, e))) {
						for _, s := range []int{1, -1} {
							if s == 1 == (pe == e) {
								w.class, w.sign = p.class, s
								return
							}
						}
					}
					continue
				}
				if ex.entailsQ(b.st, c.Eq(c.Sub(pb, pg), c.Sub(bt, e))) {
					w.class, w.sign = p.class, 1
					return
				}
				if ex.entailsQ(b.st, c.Eq(c.Sub(pg, pb), c.Sub(bt, e))) {
					w.class, w.sign = p.class, -1
					return
				}
			}
		}
	case "u":
		for _, p := range r.sortedW() {
			if p == w || p.kind != "u" {
				continue
			}
			pb := r.locate(ex, b.st, p.loc)
			if ex.uEq(r.entry, p.e, w.e) && ex.uEq(b.st, pb, bvv) {
				w.class = p.class
				return
			}
		}
	case "str", "slice", "arr":
		q, ok := ex.seqOfVal(b.st, bvv)
		if ok {
			for _, p := range r.sortedW() {
				if p == w || p.kind != "str" && p.kind != "slice" && p.kind != "arr" || !r.isSeqRep(p) {
					continue
				}
				if sortElem(p.elem) != sortElem(w.elem) {
					continue
				}
				pv := r.locate(ex, b.st, p.loc)
				pq, ok := ex.seqOfVal(b.st, pv)
				if ok && ex.provedEq(r.entry, p.seqE, w.seqE) && ex.provedEq(b.st, pq, q) {
					w.class = p.class
					return
				}
			}
		}
	}
	r.nCls++
	w.class = r.nCls
}

func sortElem(t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Name()
	}
	return t.String()
}

func (r *LoopRec) isRep(w *wleaf) bool {
	for _, x := range r.sortedW() {
		if (x.kind == "term" || x.kind == "len") && x.class == w.class && x.e.(*Term).sort == w.e.(*Term).sort {
			return x == w
		}
	}
	return true
}

// leafBack: the value of a term leaf in a back-edge state.
func (r *LoopRec) leafBack(ex *Exec, b *backState, w *wleaf) *Term {
	if w.kind == "len" {
		v := r.locate(ex, b.st, strings.TrimSuffix(w.loc, "#len"))
		if q, ok := ex.seqOfVal(b.st, v); ok {
			return ex.seqLen(q)
		}
		return nil
	}
	t, _ := r.locate(ex, b.st, w.loc).(*Term)
	return t
}

func (ex *Exec) uEq(st *State, a, b Val) bool {
	if a == nil || b == nil {
		return false
	}
	ok := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case unsupported, forkSig, deadSig:
				default:
					panic(r)
				}
			}
		}()
		ok = ex.entailsQ(st, ex.c.Eq(ex.toU(st, a), ex.toU(st, b)))
	}()
	return ok
}

// backMap: generalised variable -> its value in the back-edge state.
func (r *LoopRec) backMap(ex *Exec, b *backState) map[*Term]*Term {
	m := map[*Term]*Term{}
	for v, loc := range r.gvar {
		w := r.W[loc]
		if w.kind == "u" {
			x := r.locate(ex, b.st, loc)
			func() {
				defer func() {
					if q := recover(); q != nil {
						if _, ok := q.(unsupported); !ok {
							panic(q)
						}
					}
				}()
				m[v] = ex.toU(b.st, x)
			}()
			continue
		}
		if t := r.leafBack(ex, b, w); t != nil {
			m[v] = t
		}
	}
	return m
}

// refine checks classes and candidates against a back-edge state; it weakens
// the guess where the state breaks it and reports what it did.
func (r *LoopRec) refine(ex *Exec, b *backState) string {
	c := ex.c
	ws := r.sortedW()
	rep := map[string]*wleaf{}
	for _, w := range ws {
		if o := objOfLoc(w.loc); o != 0 && b.st.heap.m[o] == nil {
			continue
		}
		switch w.kind {
		case "term", "len":
			e := w.e.(*Term)
			key := fmt.Sprintf("t%s/%d", sortTag(e.sort), w.class)
			p := rep[key]
			if p == nil {
				rep[key] = w
				continue
			}
			pb, wb := r.leafBack(ex, b, p), r.leafBack(ex, b, w)
			if pb == nil || wb == nil || !ex.entailsQ(b.st, c.Eq(wb, r.related(ex, w, p, pb))) {
				old := w.class
				var other *wleaf
				// move all members that break into one new class, if they agree
				for _, x := range ws {
					if (x.kind == "term" || x.kind == "len") && x.class == old && x != w && x != p && x.order > w.order && x.e.(*Term).sort == e.sort {
						xb := r.leafBack(ex, b, x)
						if pb != nil && xb != nil && ex.entailsQ(b.st, c.Eq(xb, r.related(ex, x, p, pb))) {
							continue
						}
						if other == nil {
							r.nCls++
							other = w
							w.class = r.nCls
						}
						x.class = w.class
						x.sign *= w.sign
					}
				}
				if other == nil {
					r.nCls++
					w.class = r.nCls
				}
				w.sign = 1
				r.modes(ex, p, w)
				return fmt.Sprintf("split %s from %s (%v vs %v)", w.loc, p.loc, wb, pb)
			}
		case "u":
			key := fmt.Sprintf("u/%d", w.class)
			p := rep[key]
			if p == nil {
				rep[key] = w
				continue
			}
			if !ex.uEq(b.st, r.locate(ex, b.st, p.loc), r.locate(ex, b.st, w.loc)) {
				r.nCls++
				w.class = r.nCls
				return "split " + w.loc
			}
		case "str", "slice", "arr":
			v := r.locate(ex, b.st, w.loc)
			q, ok := ex.seqOfVal(b.st, v)
			if !ok {
				unsup("loop %s: %s is not a sequence any more", r.li.Label, w.loc)
			}
			if w.kind == "slice" {
				r.checkAlias(ex, b, w, v)
			}
			key := fmt.Sprintf("q/%d", w.class)
			p := rep[key]
			if p == nil {
				rep[key] = w
				if w.suf {
					n := ex.seqLen(q)
					if !ex.entailsQ(b.st, c.Ule(n, w.seqE[0].N)) || !ex.provedEq(b.st, q, suffix(c, w.seqE[0], n)) {
						w.suf, w.noSuf = false, true
						return "not an end: " + w.loc
					}
				} else if w.ext != nil {
					el := ex.seqLen(w.seqE)
					d := c.Sub(ex.seqLen(q), el)
					want := ex.seqCat(w.seqE, Seq{{F: w.ext.f, Lo: w.ext.lo, N: d}})
					if !ex.entailsQ(b.st, c.Ule(el, ex.seqLen(q))) || !ex.provedEq(b.st, q, want) {
						w.ext, w.noExt = nil, true
						return "not a segment: " + w.loc
					}
				}
				if w.kind == "arr" && !ex.entailsQ(b.st, c.Eq(ex.seqLen(q), ex.seqLen(w.seqE))) {
					unsup("loop %s: array %s changed length", r.li.Label, w.loc)
				}
				continue
			}
			pq, _ := ex.seqOfVal(b.st, r.locate(ex, b.st, p.loc))
			if !ex.provedEq(b.st, pq, q) {
				r.nCls++
				w.class = r.nCls
				if w.kind != "arr" {
					r.addLen(ex, w, b, v)
				}
				return "split " + w.loc + " from " + p.loc + ": " + ex.showSeq(q) + " vs " + ex.showSeq(pq)
			}
		}
	}
	m := r.backMap(ex, b)
	memo := map[*Term]*Term{}
	keep := r.cands[:0:0]
	var dropped []string
	for _, k := range r.cands {
		t := c.Subst(k, m, memo)
		if ex.entails(b.st, t) {
			keep = append(keep, k)
		} else {
			dropped = append(dropped, k.String())
			r.dropd[k] = true
		}
	}
	if len(dropped) > 0 {
		r.cands = keep
		return "dropped " + strings.Join(dropped, "; ")
	}
	return ""
}

// cond is an equality of two leaves unless m has the value v.
type cond struct {
	x, y, m *wleaf
	v       *Term
}

// modes looks for modes in which x and y, about to be told apart, stay equal.
func (r *LoopRec) modes(ex *Exec, x, y *wleaf) {
	c := ex.c
	if r.stopped >= 4 || len(r.bs) == 0 {
		return
	}
	if a, ok := x.e.(*Term); !ok || a.sort.K == SBool {
		return
	}
	for _, m := range r.sortedW() {
		g, ok := m.g.(*Term)
		if !ok || m == x || m == y || r.gvar[g] != m.loc {
			continue
		}
		var vs []*Term
		switch e, _ := m.e.(*Term); {
		case g.sort.K == SBool:
			vs = []*Term{c.True, c.False}
		case g.sort.K == SBV && g.sort.W == 8 && e != nil && e.op == OConst:
			vs = []*Term{e}
		}
		for _, v := range vs {
			all := true
			for _, b := range r.bs {
				xb, yb, mb := r.leafBack(ex, b, x), r.leafBack(ex, b, y), r.leafBack(ex, b, m)
				if xb == nil || yb == nil || mb == nil || !ex.entailsQ(b.st, c.Or(c.Eq(mb, v), c.Eq(xb, yb))) {
					all = false
					break
				}
			}
			if all {
				r.conds = append(r.conds, cond{x, y, m, v})
				r.again = true
			}
		}
	}
}

// addConds makes candidates of what modes found.
func (r *LoopRec) addConds(ex *Exec) {
	c := ex.c
	for _, d := range r.conds {
		x, ok := d.x.g.(*Term)
		y, ok2 := d.y.g.(*Term)
		m, ok3 := d.m.g.(*Term)
		if !ok || !ok2 || !ok3 || x.sort != y.sort || m.sort != d.v.sort {
			continue
		}
		k := c.Or(c.Eq(m, d.v), c.Eq(x, y))
		if k.isTrue() || r.candN[k] || !ex.entailsQ(r.entry, c.Subst(k, r.entryMap(ex), map[*Term]*Term{})) {
			continue
		}
		r.candN[k] = true
		r.cands = append(r.cands, k)
	}
	r.conds = nil
}

// checkAll re-proves the invariant in the final run.
func (r *LoopRec) checkAll(ex *Exec, b *backState) string {
	nc, nk := r.nCls, len(r.cands)
	why := r.refine(ex, b)
	if r.nCls != nc || len(r.cands) != nk {
		return why
	}
	return why
}

func (r *LoopRec) checkAlias(ex *Exec, b *backState, w *wleaf, v Val) {
	s, ok := v.(SliceV)
	if !ok || s.Obj == 0 {
		return
	}
	if b.held == nil {
		b.held = ex.refsTo(b.st, false, false)
	}
	if len(b.held[s.Obj]) < 2 {
		return
	}
	refs := ex.refs(b.st)[s.Obj]
	for _, l := range refs {
		if l != w.loc {
			// shared: harmless only when nobody writes through either name;
			// the generalised state treats them as separate objects
			unsup("loop %s: %s shares its backing array with %s", r.li.Label, w.loc, l)
		}
	}
}

// propose adds candidate facts about the generalised variables.
func (r *LoopRec) propose(ex *Exec, bs []*backState) bool {
	c := ex.c
	// make sure every leaf has its generalised term
	r.g = r.build(ex)
	added := false
	add := func(k *Term) {
		if k.isTrue() || k.isFalse() || r.candN[k] {
			return
		}
		r.candN[k] = true
		// must hold on entry
		t := c.Subst(k, r.entryMap(ex), map[*Term]*Term{})
		if !ex.entailsQ(r.entry, t) {
			return
		}
		// and say something new
		r.cands = append(r.cands, k)
		added = true
	}
	for _, w := range r.sortedW() {
		t, ok := w.g.(*Term)
		if !ok {
			continue
		}
		if _, isV := r.gvar[t]; !isV {
			if w.kind == "term" && t.sort.K == SBV {
				add(c.Sle(c.BV(0, int(t.sort.W)), t))
				if e, ok := w.e.(*Term); ok {
					add(c.Sle(t, e))
				}
			}
			continue
		}
		e, isT := w.e.(*Term)
		switch {
		case w.kind == "u":
			func() {
				defer func() {
					if q := recover(); q != nil {
						if _, ok := q.(unsupported); !ok {
							panic(q)
						}
					}
				}()
				add(c.Neq(t, ex.nilU()))
			}()
		case isT && t.sort.K == SBV:
			add(c.Sle(e, t))
			add(c.Sle(t, e))
			add(c.Sle(c.BV(0, int(t.sort.W)), t))
			add(c.Ule(e, t))
			add(c.Ule(t, c.BV(maxLen, int(t.sort.W))))
			if t.sort.W <= 16 || t.sort.W == 64 || t.sort.W == 32 {
				r.consts(ex, bs, w, t, add)
			}
		}
	}
	// a flag that says whether something is nil
	for _, w := range r.sortedW() {
		f, ok := w.g.(*Term)
		if !ok || f.sort.K != SBool || r.gvar[f] != w.loc {
			continue
		}
		for _, p := range r.sortedW() {
			if u, ok := p.g.(*Term); ok && p.kind == "u" && r.gvar[u] == p.loc {
				add(c.Eq(f, c.Eq(u, ex.nilU())))
				add(c.Eq(f, c.Neq(u, ex.nilU())))
			}
		}
	}
	// what a reader has waited for: no more than before, or than it has read
	for _, w := range r.sortedW() {
		if !strings.HasSuffix(w.loc, "#demand") {
			continue
		}
		d, ok := w.g.(*Term)
		e, ok2 := w.e.(*Term)
		if !ok || !ok2 {
			continue
		}
		for _, p := range r.sortedW() {
			if !strings.HasSuffix(p.loc, "#pos") {
				continue
			}
			if pg, ok := p.g.(*Term); ok && pg.sort == d.sort {
				add(c.Or(c.Sle(d, e), c.Sle(d, pg)))
			}
		}
	}
	if ex.peel {
		r.lits(ex, bs, add)
	}
	// guards met in the body
	n := 0
	for _, b := range bs {
		for _, a := range b.st.pc[min(r.npc, len(b.st.pc)):] {
			for _, at := range atoms(a) {
				if n > 200 {
					break
				}
				var x, y *Term
				switch at.op {
				case OSlt, OUlt, OSle, OUle:
					x, y = at.args[0], at.args[1]
				case OEq:
					x, y = at.args[0], at.args[1]
					if x.sort.K != SBV {
						continue
					}
				default:
					continue
				}
				okv := func(t *Term) bool {
					for _, v := range ex.vars(t) {
						if _, g := r.gvar[v]; !g && !r.knownAtEntry(ex, v) {
							return false
						}
					}
					return len(t.args) < 6
				}
				if !okv(x) || !okv(y) {
					continue
				}
				g := false
				for _, v := range append(ex.vars(x), ex.vars(y)...) {
					if _, ok := r.gvar[v]; ok {
						g = true
					}
				}
				if !g {
					continue
				}
				n++
				switch at.op {
				case OSlt, OSle:
					add(c.Sle(x, y))
				case OUlt, OUle:
					add(c.Ule(x, y))
				case OEq:
					add(c.Sle(x, y))
					add(c.Sle(y, x))
					add(c.Ule(x, y))
					add(c.Ule(y, x))
				}
			}
		}
	}
	return added
}

// lits: what the paths back to the head say about the new values.
func (r *LoopRec) lits(ex *Exec, bs []*backState, add func(*Term)) {
	c := ex.c
	n := 0
	for _, b := range bs {
		m := map[*Term]*Term{}
		for _, w := range r.sortedW() {
			g, ok := w.g.(*Term)
			if !ok || g.sort.K != SBV {
				continue
			}
			if _, ok := r.gvar[g]; !ok {
				continue
			}
			if v := r.leafBack(ex, b, w); v != nil && v.op == OVar && v != g {
				m[v] = g
			}
		}
		if len(m) == 0 {
			continue
		}
		memo := map[*Term]*Term{}
		for _, a := range b.st.pc[min(r.npc, len(b.st.pc)):] {
			touches := false
			for _, v := range ex.vars(a) {
				if _, ok := m[v]; ok {
					touches = true
				}
			}
			if !touches || n > 60 {
				continue
			}
			k := c.Subst(a, m, memo)
			ok := true
			for _, v := range ex.vars(k) {
				if _, g := r.gvar[v]; !g && !r.knownAtEntry(ex, v) {
					ok = false
				}
			}
			if ok {
				n++
				add(k)
			}
		}
	}
}

// cases: what is known of the new values together on each path back to the
// head, and on entry.  It is proposed where the paths differ.
func (r *LoopRec) cases(ex *Exec, bs []*backState) bool {
	if !ex.cases || len(bs) == 0 || len(bs) > 40 {
		return false
	}
	return r.cases1(ex, bs, false) || r.cases1(ex, bs, true)
}

// cases1: with flags, only of truth values and of what is or is not nil.
func (r *LoopRec) cases1(ex *Exec, bs []*backState, flags bool) bool {
	c := ex.c
	var alts []*Term
	seen := map[*Term]bool{}
	alt := func(st *State, pc []*Term, val func(w *wleaf) (*Term, *bool)) bool {
		m := map[*Term]*Term{}
		k := c.True
		for _, w := range r.sortedW() {
			g, ok := w.g.(*Term)
			if w.kind == "u" {
				for v, loc := range r.gvar {
					if loc == w.loc {
						g, ok = v, true
					}
				}
			}
			if !ok {
				continue
			}
			if _, ok := r.gvar[g]; !ok || flags && g.sort.K != SBool && g.sort.K != SU {
				continue
			}
			v, isNil := val(w)
			switch {
			case isNil != nil && *isNil:
				k = c.And(k, c.Eq(g, ex.nilU()))
			case isNil != nil:
				k = c.And(k, c.Neq(g, ex.nilU()))
			case v == nil:
			case v == g:
				m[v] = g
			case g.sort.K == SBool:
				if v.isTrue() || v.isFalse() {
					k = c.And(k, c.Eq(g, v))
				} else if v.op == OVar {
					m[v] = g
				}
			case g.sort.K == SU && v.op == OVar && v != ex.nilU():
				m[v] = g
			case g.sort.K == SU && v == ex.nilU():
				k = c.And(k, c.Eq(g, v))
			case g.sort.K != SBV:
			case isConst(v):
				k = c.And(k, c.Eq(g, v))
			case v.op == OVar:
				m[v] = g
			}
		}
		memo := map[*Term]*Term{}
		n := 0
		for _, a := range pc {
			touches := false
			for _, v := range ex.vars(a) {
				if _, ok := m[v]; ok {
					touches = true
				}
			}
			if !touches || n > 8 {
				continue
			}
			a = c.Subst(a, m, memo)
			ok := true
			for _, v := range ex.vars(a) {
				if _, g := r.gvar[v]; !g && !r.knownAtEntry(ex, v) {
					ok = false
				}
			}
			if ok {
				n++
				k = c.And(k, a)
			}
		}
		if k.isTrue() {
			return false
		}
		if !seen[k] {
			seen[k] = true
			alts = append(alts, k)
		}
		return len(alts) <= 6
	}
	yes, no := true, false
	nilness := func(v Val) *bool {
		i, ok := v.(IfaceV)
		if !ok {
			return nil
		}
		switch {
		case i.T == nil:
			return &yes
		default:
			return &no
		}
	}
	uval := func(v Val) (*Term, *bool) {
		t, _ := v.(*Term)
		return t, nilness(v)
	}
	if !alt(r.entry, r.entry.pc, func(w *wleaf) (*Term, *bool) {
		if w.kind == "u" {
			return uval(w.e)
		}
		t, _ := w.e.(*Term)
		return t, nil
	}) {
		return false
	}
	for _, b := range bs {
		if !alt(b.st, b.st.pc[min(r.npc, len(b.st.pc)):], func(w *wleaf) (*Term, *bool) {
			if w.kind == "u" {
				return uval(r.locate(ex, b.st, w.loc))
			}
			return r.leafBack(ex, b, w), nil
		}) {
			return false
		}
	}
	if len(alts) < 2 {
		return false
	}
	k := c.False
	for _, a := range alts {
		k = c.Or(k, a)
	}
	if r.candN[k] || k.isTrue() {
		return false
	}
	r.candN[k] = true
	if !ex.entailsQ(r.entry, c.Subst(k, r.entryMap(ex), map[*Term]*Term{})) {
		return false
	}
	r.cands = append(r.cands, k)
	return true
}

// consts: small sets of constants a leaf ranges over.
func (r *LoopRec) consts(ex *Exec, bs []*backState, w *wleaf, t *Term, add func(*Term)) {
	e, ok := w.e.(*Term)
	if !ok {
		return
	}
	var set []*Term
	if isConst(e) {
		set = append(set, e)
	}
	for _, b := range bs {
		v := r.leafBack(ex, b, w)
		if v == nil {
			return
		}
		if v == t {
			continue
		}
		for _, a := range b.st.pc {
			if a.op == OEq && a.args[1] == v && isConst(a.args[0]) {
				v = a.args[0]
				break
			}
			if a.op == OEq && a.args[0] == v && isConst(a.args[1]) {
				v = a.args[1]
				break
			}
		}
		if !isConst(v) {
			return
		}
		dup := false
		for _, s := range set {
			dup = dup || s == v
		}
		if !dup {
			set = append(set, v)
		}
		if len(set) > 4 {
			return
		}
	}
	if len(set) == 0 || len(set) == 1 && !isConst(e) && !ex.entailsQ(r.entry, ex.c.Eq(e, set[0])) {
		return
	}
	if len(set) > 1 && isConst(e) && ex.mayPeel {
		panic(peelSig{len(ex.inferring)})
	}
	k := ex.c.False
	for _, s := range set {
		k = ex.c.Or(k, ex.c.Eq(t, s))
	}
	add(k)
}

func (r *LoopRec) entryMap(ex *Exec) map[*Term]*Term {
	m := map[*Term]*Term{}
	for v, loc := range r.gvar {
		if t, ok := r.W[loc].e.(*Term); ok {
			m[v] = t
		} else if iv, ok := r.W[loc].e.(IfaceV); ok {
			func() {
				defer func() {
					if q := recover(); q != nil {
						if _, ok := q.(unsupported); !ok {
							panic(q)
						}
					}
				}()
				m[v] = ex.toU(r.entry, iv)
			}()
		}
	}
	return m
}

func atoms(t *Term) []*Term {
	switch t.op {
	case OAnd, OOr:
		var out []*Term
		for _, a := range t.args {
			out = append(out, atoms(a)...)
		}
		return out
	case ONot:
		return atoms(t.args[0])
	}
	return []*Term{t}
}
