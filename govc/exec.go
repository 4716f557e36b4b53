package main

// Path-wise symbolic execution of go/ssa with solver-backed forking.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   Val
	args []Val
	invk *ssa.CallCommon
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	shared bool
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	ip     int
	defers []deferred
	// where the result goes in the caller
	ret      ssa.Value
	discard  bool                               // deferred call: result ignored, caller's ip unchanged
	pandef   bool                               // deferred call running because of a panic
	onRet    func(ex *Exec, st *State, res Val) // continuation instead of plain return
	unroll   map[*ssa.BasicBlock]int
	headDone bool
	depth    int
}

func (f *Frame) clone() *Frame {
	g := *f
	f.shared, g.shared = true, true
	g.defers = f.defers[:len(f.defers):len(f.defers)]
	return &g
}
func (f *Frame) set(r ssa.Value, v Val) {
	if f.shared {
		m := make(map[ssa.Value]Val, len(f.env)+8)
		for k, x := range f.env {
			m[k] = x
		}
		f.env = m
		f.shared = false
	}
	f.env[r] = v
}

type Thread struct {
	frames    []*Frame
	pend      *Event
	done      bool
	result    Val
	panicking bool
	recovered bool
	panicVal  Val
}

func (t *Thread) clone() *Thread {
	n := *t
	n.frames = make([]*Frame, len(t.frames))
	for i, f := range t.frames {
		n.frames[i] = f.clone()
	}
	return &n
}
func (t *Thread) top() *Frame { return t.frames[len(t.frames)-1] }

type State struct {
	heap    *Heap
	pc      []*Term
	known   map[*Term]bool
	knSh    bool
	fresh   int
	nextObj int
	th      []*Thread
	cur     int
	loops   []*LoopRec
	angelic map[*Term]angel
	dead    bool
	exited  *LoopRec
	ghost   map[string]Val
	ghSh    bool
	path    []string
	events  int
}

func (st *State) clone() *State {
	n := *st
	n.heap = st.heap.clone()
	st.heap.shared = true
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	st.pc = st.pc[:len(st.pc):len(st.pc)]
	st.knSh, n.knSh = true, true
	st.ghSh, n.ghSh = true, true
	n.th = make([]*Thread, len(st.th))
	for i, t := range st.th {
		n.th[i] = t.clone()
	}
	n.loops = st.loops[:len(st.loops):len(st.loops)]
	st.loops = st.loops[:len(st.loops):len(st.loops)]
	n.path = st.path[:len(st.path):len(st.path)]
	st.path = n.path
	return &n
}
func (st *State) thread() *Thread { return st.th[st.cur] }
func (st *State) top() *Frame     { return st.th[st.cur].top() }
func (st *State) setGhost(k string, v Val) {
	if st.ghSh {
		m := make(map[string]Val, len(st.ghost)+1)
		for a, b := range st.ghost {
			m[a] = b
		}
		st.ghost, st.ghSh = m, false
	}
	st.ghost[k] = v
}
func (st *State) know(t *Term) {
	if st.knSh {
		m := make(map[*Term]bool, len(st.known)+4)
		for a, b := range st.known {
			m[a] = b
		}
		st.known, st.knSh = m, false
	}
	if t.op == OAnd {
		for _, a := range t.args {
			st.know(a)
		}
	}
	st.known[t] = true
}
func (st *State) assume(t *Term) {
	if t.isTrue() || st.known[t] {
		return
	}
	if t.isFalse() {
		st.dead = true
	}
	st.pc = append(st.pc, t)
	st.know(t)
}
func (st *State) newObj(v Val) int {
	st.nextObj++
	st.heap.set(st.nextObj, v)
	return st.nextObj
}

type forkSig struct{ cond *Term }
type deadSig struct{}
type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

type Oblig struct {
	Props  string
	Label  string
	Pos    string
	VCs    int
	Failed int
	Detail string
	Model  map[string]string
	Script string
}

type Exec struct {
	peel      bool // treat the first iteration of loops separately
	mayPeel   bool
	whole     bool // compare strings with constants as wholes
	mergeMin  int  // branches a call must have for its paths to be joined
	c         *Ctx
	s         *Solver
	prog      *ssa.Program
	W         *World
	st        *State // current state (for models)
	obs       map[string]*Oblig
	order     []string
	trial     int
	varsMem   map[*Term][]*Term
	opts      Options
	Paths     int
	Steps     int64
	Reached   map[string]bool
	fnsSeen   map[string]bool
	progress  []progress
	defProp   string // default property of implicit obligations
	depthOf   int
	initSt    *State
	inferring []string
	initMode  bool
	inferStk  []*LoopRec
	contracts map[string]*ssa.Function
	pairs     map[string]pair
	used      map[string]int
	Loops     int
	Invs      int
	tyIDs     map[string]*Term
	ourFns    map[*ssa.Function]bool
	cases     bool   // look for invariants that tell the paths apart
	stopProp  string // give up as soon as an obligation of this property fails
	stop      *int32 // set when another contract has failed already
	Forks     map[string]int
	deadline  time.Time // when to give up
}

type stopSig struct{}

type Options struct {
	Real     map[string]int // functions verified against their body, not their contract
	MaxPaths int
}

func NewExec(w *World) *Exec {
	c := NewCtx()
	ex := &Exec{c: c, s: NewSolver(c), prog: w.Prog, W: w, obs: map[string]*Oblig{}, varsMem: map[*Term][]*Term{},
		Reached: map[string]bool{}, fnsSeen: map[string]bool{}, ourFns: map[*ssa.Function]bool{},
		contracts: map[string]*ssa.Function{}, pairs: map[string]pair{}, used: map[string]int{}}
	for _, n := range []string{"io.EOF", "io.ErrUnexpectedEOF", "io.ErrShortWrite", "io.ErrNoProgress", "bufio.ErrBufferFull", "bufio.ErrNegativeCount"} {
		ex.sentinel(n)
	}
	ex.opts.MaxPaths = 200000
	ex.mergeMin = 4
	if os.Getenv("GOVC_SLOW") != "" {
		ex.s.Dbg = os.Stderr
	}
	return ex
}

func (ex *Exec) assumeCur(t *Term) {
	if ex.st != nil {
		ex.st.assume(t)
	}
}

// fresh names are per path, so that re-execution after a fork is deterministic.
func (ex *Exec) fresh(st *State, p string, s Sort) *Term {
	st.fresh++
	return ex.c.Var(fmt.Sprintf("%s!%d%s", p, st.fresh, sortTag(s)), s)
}

func (ex *Exec) freshVal(st *State, p string, t types.Type) Val {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		return ex.freshSlice(st, p, sl.Elem(), true)
	}
	st.fresh++
	base := fmt.Sprintf("%s!%d", p, st.fresh)
	return ex.symByType(t, func(path string, s Sort) *Term {
		return ex.c.Var(base+path+sortTag(s), s)
	})
}

func (ex *Exec) vars(t *Term) []*Term {
	if v, ok := ex.varsMem[t]; ok {
		return v
	}
	var out []*Term
	if t.op == OVar {
		out = []*Term{t}
	} else {
		seen := map[*Term]bool{}
		for _, a := range t.args {
			for _, v := range ex.vars(a) {
				if !seen[v] {
					seen[v] = true
					out = append(out, v)
				}
			}
		}
	}
	ex.varsMem[t] = out
	return out
}

func (ex *Exec) sat(st *State, extra ...*Term) SatRes {
	fs := cone(st.pc, extra, ex.vars)
	return ex.s.Check(append(fs, extra...), false)
}

// entails: pc |= g ?
func (ex *Exec) entails(st *State, g *Term) bool {
	if g.isTrue() || st.known[g] {
		return true
	}
	if g.isFalse() {
		return ex.s.Check(append([]*Term{}, st.pc...), true) == Unsat
	}
	ng := ex.c.Not(g)
	if g.op == OAnd {
		for _, a := range g.args {
			if !ex.entails(st, a) {
				return false
			}
		}
		return true
	}
	fs := cone(st.pc, []*Term{ng}, ex.vars)
	return ex.s.Check(append(fs, ng), true) == Unsat
}

// quick entailment without the expensive fallback
func (ex *Exec) entailsQ(st *State, g *Term) bool {
	if g.isTrue() || st.known[g] {
		return true
	}
	if g.isFalse() {
		return false
	}
	ng := ex.c.Not(g)
	fs := cone(st.pc, []*Term{ng}, ex.vars)
	return ex.s.Check(append(fs, ng), false) == Unsat
}

// branch decides a condition on the current path, forking when both outcomes
// are possible.
func (ex *Exec) branch(st *State, cond *Term) bool {
	if cond.isTrue() {
		return true
	}
	if cond.isFalse() {
		return false
	}
	if st.known[cond] {
		return true
	}
	nc := ex.c.Not(cond)
	if st.known[nc] {
		return false
	}
	t := ex.sat(st, cond)
	if t == Unsat {
		st.know(nc)
		return false
	}
	f := ex.sat(st, nc)
	if f == Unsat {
		st.know(cond)
		return true
	}
	panic(forkSig{cond})
}

func (ex *Exec) posOf(fr *Frame) string {
	if fr == nil {
		return ""
	}
	p := token.NoPos
	if fr.ip < len(fr.blk.Instrs) {
		p = fr.blk.Instrs[fr.ip].Pos()
	}
	if p == token.NoPos {
		for i := fr.ip; i >= 0 && i < len(fr.blk.Instrs); i-- {
			if q := fr.blk.Instrs[i].Pos(); q != token.NoPos {
				p = q
				break
			}
		}
	}
	if p == token.NoPos {
		p = fr.fn.Pos()
	}
	ps := ex.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d(%s)", f, ps.Line, fr.fn.Name())
}

func (ex *Exec) stackOf(st *State) string {
	var p []string
	for _, th := range st.th {
		var q []string
		for i := len(th.frames) - 1; i >= 0; i-- {
			q = append(q, ex.posOf(th.frames[i]))
		}
		p = append(p, strings.Join(q, " < "))
	}
	return strings.Join(p, " || ")
}

// oblige proves goal on this path, recording the obligation.
func (ex *Exec) oblige(st *State, props, label string, goal *Term) bool {
	if ex.trial > 0 {
		// in trial runs obligations are assumed (they are proved in the final run)
		st.assume(goal)
		if st.dead {
			panic(deadSig{})
		}
		return true
	}
	if props == "" {
		props = ex.defProp
	}
	key := props + "/" + label
	o := ex.obs[key]
	if o == nil {
		o = &Oblig{Props: props, Label: label, Pos: ex.posOf(st.top())}
		ex.obs[key] = o
		ex.order = append(ex.order, key)
	}
	o.VCs++
	if ex.entails(st, goal) {
		st.assume(goal)
		return true
	}
	o.Failed++
	defer func() {
		if ex.stopProp != "" && has(strings.Split(props, ","), ex.stopProp) {
			panic(stopSig{})
		}
	}()
	if o.Failed == 1 || o.Script == "" {
		fs := append(cone(st.pc, []*Term{goal}, ex.vars), ex.c.Not(goal))
		o.Script = ex.s.script(fs)
		o.Detail = fmt.Sprintf("at %s\n goal: %v\n path condition:\n", ex.stackOf(st), goal)
		for _, p := range st.pc {
			o.Detail += "   " + p.String() + "\n"
		}
		var want []*Term
		seen := map[*Term]bool{}
		for _, f := range fs {
			for _, v := range ex.vars(f) {
				if !seen[v] && v.sort.K != SU && len(want) < 60 {
					seen[v] = true
					want = append(want, v)
				}
			}
		}
		o.Model = ex.s.Model(fs, want)
	}
	st.assume(goal)
	if st.dead {
		panic(deadSig{})
	}
	return false
}

func (ex *Exec) fail(st *State, props, label, detail string) {
	if ex.trial > 0 {
		panic(deadSig{})
	}
	ex.oblige(st, props, label, ex.c.False)
}

// ---- main loop ----

// runAll explores all paths from the given states until they finish, or until
// stop says so; stopped states are returned.
func (ex *Exec) runAll(work []*State, stop func(*State) bool) []*State {
	var out []*State
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if stop != nil && stop(st) {
				out = append(out, st)
				break
			}
			more, ok := ex.advance(st)
			work = append(work, more...)
			if !ok {
				break
			}
		}
		if ex.Paths > ex.opts.MaxPaths {
			unsup("path limit exceeded")
		}
	}
	return out
}

// advance performs one step; returns extra states to explore and whether st
// continues.
func (ex *Exec) advance(st *State) (more []*State, cont bool) {
	// snapshot for forks
	heap := st.heap.clone()
	pc, fresh, nextObj, ghost := st.pc, st.fresh, st.nextObj, st.ghost
	st.ghSh = true
	cur := st.cur
	angelic := st.angelic
	ex.st = st
	defer func() {
		if r := recover(); r != nil {
			switch sig := r.(type) {
			case forkSig:
				if ex.Forks != nil {
					ex.Forks[ex.posOf(st.top())+" "+fmt.Sprintf("%.60v", sig.cond)]++
				}
				st.heap = heap
				st.pc, st.fresh, st.nextObj, st.ghost = pc, fresh, nextObj, ghost
				st.ghSh = true
				st.cur = cur
				st.angelic = angelic
				o := st.clone()
				st.assume(sig.cond)
				o.assume(ex.c.Not(sig.cond))
				more, cont = []*State{o}, true
			case deadSig:
				ex.Paths++
				more, cont = nil, false
			case mergeSig:
				more, cont = sig.states, false
			default:
				if u, ok := r.(unsupported); ok && !strings.Contains(u.msg, "\n  at ") {
					panic(unsupported{u.msg + "\n  at " + ex.stackOf(st)})
				}
				panic(r)
			}
		}
	}()
	if st.dead {
		panic(deadSig{})
	}
	ex.Steps++
	if ex.Steps&63 == 0 {
		if ex.stop != nil && atomic.LoadInt32(ex.stop) != 0 {
			panic(stopSig{})
		}
		if !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
			unsup("time budget used up")
		}
	}
	th := st.thread()
	if th.done {
		return ex.threadDone(st)
	}
	fr := th.top()
	// loop header handling on block entry
	if fr.ip == 0 && st.cur == 0 && !fr.headDone {
		if li := ex.W.loopInfo(fr.fn).heads[fr.blk]; li != nil {
			m, c, handled := ex.atLoopHead(st, li)
			if handled {
				return m, c
			}
		}
	}
	return nil, ex.step(st)
}

func (ex *Exec) push(st *State, fn *ssa.Function, args []Val, bind []Val, ret ssa.Value) *Frame {
	if fn.Blocks == nil {
		ex.W.build(fn)
		if fn.Blocks == nil {
			unsup("call of function without body: %s", fn.String())
		}
	}
	th := st.thread()
	if len(th.frames) > 120 {
		unsup("call depth exceeded (recursion without contract?) in %s", fn.String())
	}
	nrec := 0
	for _, f := range th.frames {
		if f.fn == fn {
			nrec++
		}
	}
	if nrec > 8 {
		unsup("recursion without contract in %s", fn.String())
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, blk: fn.Blocks[0], ret: ret}
	if len(args) != len(fn.Params) {
		unsup("arity mismatch calling %s", fn.String())
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		fr.env[v] = bind[i]
	}
	th.frames = append(th.frames, fr)
	if st.cur == 0 {
		ex.fnsSeen[fn.String()] = true
		if isOurs(fnPkgPath(fn)) {
			ex.ourFns[fn] = true
		}
	}
	return fr
}

// popReturn returns from the top frame with the given result value.
func (ex *Exec) popReturn(st *State, res Val) {
	th := st.thread()
	fr := th.top()
	th.frames = th.frames[:len(th.frames)-1]
	if fr.onRet != nil {
		fr.onRet(ex, st, res)
		return
	}
	if len(th.frames) == 0 {
		th.done = true
		th.result = res
		return
	}
	caller := th.top()
	if fr.pandef {
		// deferred call during panicking finished
		if th.recovered {
			th.panicking, th.recovered, th.panicVal = false, false, nil
			if caller.fn.Recover != nil {
				caller.prev, caller.blk, caller.ip = nil, caller.fn.Recover, 0
				return
			}
			ex.popReturn(st, ex.zeroResult(caller.fn.Signature))
			return
		}
		ex.unwind(st)
		return
	}
	if fr.discard {
		return
	}
	if fr.ret != nil {
		caller.set(fr.ret, res)
	}
	caller.ip++
}

func (ex *Exec) zeroResult(sig *types.Signature) Val {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return ex.zero(sig.Results().At(0).Type())
	}
	var t TupV
	for i := 0; i < sig.Results().Len(); i++ {
		t = append(t, ex.zero(sig.Results().At(i).Type()))
	}
	return t
}

// unwind continues panicking from the top frame.
func (ex *Exec) unwind(st *State) {
	th := st.thread()
	for {
		if len(th.frames) == 0 {
			ex.fail(st, "", "no-panic: panic reaches the caller of the API", "")
			panic(deadSig{})
		}
		fr := th.top()
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			ex.callDeferred(st, d, true)
			return
		}
		// is an enclosing panic boundary registered?
		if fr.onRet != nil && fr.depth == panicBoundary {
			ex.fail(st, "", "no-panic: panic reaches the caller of the API", "")
			panic(deadSig{})
		}
		th.frames = th.frames[:len(th.frames)-1]
	}
}

const panicBoundary = -7

func (ex *Exec) callDeferred(st *State, d deferred, pan bool) {
	fv, ok := d.fn.(FuncV)
	if !ok || fv.Fn == nil {
		unsup("deferred call of a non-static function")
	}
	fn, bind := fv.Fn, fv.Bind
	name := fnName(fn)
	if _, ok := models[name]; ok {
		unsup("deferred call of %s", name)
	}
	if st.cur == 0 && !ex.initMode && (ex.opts.Real[name] == 0 || st.active(name)) {
		if g := ex.contracts[name]; g != nil {
			ex.used[name]++
			fn, bind = g, nil
		}
	}
	if pp := fnPkgPath(fn); !isOurs(pp) && !stdInline(pp, name) && fn.Synthetic == "" {
		unsup("call of unmodelled function %s", name)
	}
	fr := ex.push(st, fn, d.args, bind, nil)
	fr.discard = true
	fr.pandef = pan
}

// rtPanic is a run-time panic condition: cond must hold.
func (ex *Exec) check(st *State, cond *Term, what string) {
	if cond.isTrue() || st.known[cond] {
		return
	}
	if st.cur == 1 {
		// spec thread: its own preconditions
		ex.oblige(st, "", "spec-wellformed: "+what, cond)
		return
	}
	ex.oblige(st, "", "no-panic: "+what+" in "+st.top().fn.Name(), cond)
}

func (ex *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return ex.constVal(v)
	case *ssa.Function:
		return FuncV{Fn: v}
	case *ssa.Global:
		return PtrV{Obj: ex.globalObj(st, v)}
	case *ssa.Builtin:
		return FuncV{Model: "builtin:" + v.Name()}
	}
	x, ok := fr.env[v]
	if !ok {
		unsup("unbound value %s = %s in %s", v.Name(), v.String(), fr.fn)
	}
	return x
}

func (ex *Exec) width(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsup("width of %s", t)
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	case types.Int64, types.Uint64, types.Int, types.Uint, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return 64
	}
	unsup("width of %s", t)
	return 0
}
func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func (ex *Exec) constVal(k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return ex.zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		unsup("constant of type parameter %s", tp)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsup("constant %s", k)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return ex.c.Bool(constant.BoolVal(k.Value))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return ex.c.BV(uint64(i), ex.width(t))
		}
		u, _ := constant.Uint64Val(v)
		return ex.c.BV(u, ex.width(t))
	case b.Info()&types.IsString != 0:
		return StrV{S: ex.constStr(constant.StringVal(k.Value))}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(k.Value)
		return ex.c.BV(floatBits(f, ex.width(t)), ex.width(t))
	}
	unsup("constant %s", k)
	return nil
}

func (ex *Exec) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ex.c.False
		case u.Info()&(types.IsInteger|types.IsFloat) != 0:
			return ex.c.BV(0, ex.width(t))
		case u.Info()&types.IsString != 0:
			return StrV{}
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return PtrV{}
		}
	case *types.Struct:
		if g := ex.ghostZero(t); g != nil {
			return g
		}
		s := &StructV{F: make([]Val, u.NumFields())}
		for i := range s.F {
			s.F[i] = ex.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		if n > 4096 {
			unsup("large array %s", t)
		}
		a := &ArrV{}
		z := ex.zero(u.Elem())
		for i := 0; i < n; i++ {
			a.S = append(a.S, Chunk{U: z})
		}
		return a
	case *types.Slice:
		return SliceV{Off: ex.c.Int(0), Len: ex.c.Int(0), Cap: ex.c.Int(0)}
	case *types.Pointer:
		return PtrV{}
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Map:
		return MapV{}
	case *types.Tuple:
		var tv TupV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, ex.zero(u.At(i).Type()))
		}
		return tv
	case *types.Chan:
		return PtrV{}
	}
	unsup("zero of %s", t)
	return nil
}

// ---- memory access ----

func (ex *Exec) load(st *State, p Val) Val {
	ptr, ok := p.(PtrV)
	if !ok {
		if t, ok2 := p.(*Term); ok2 {
			return ex.loadOpaque(st, t)
		}
		unsup("load through %T", p)
	}
	if ptr.Obj == 0 {
		ex.check(st, ex.c.False, "nil pointer dereference")
		panic(deadSig{})
	}
	return ex.getPath(st, st.heap.get(ptr.Obj), ptr.Path)
}

func (ex *Exec) getPath(st *State, v Val, path []Step) Val {
	for _, s := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.F[s.Field]
		case *ArrV:
			v = ex.seqAt(st, x.S, s.Index)
		case *Term:
			v = ex.opaqueField(st, x, s)
		default:
			unsup("path %v into %T", s, v)
		}
	}
	return v
}

func (ex *Exec) store(st *State, p Val, v Val) {
	ptr, ok := p.(PtrV)
	if !ok {
		unsup("store through %T %s", p, ex.show(p))
	}
	if ptr.Obj == 0 {
		ex.check(st, ex.c.False, "nil pointer dereference")
		panic(deadSig{})
	}
	st.heap.set(ptr.Obj, ex.setPath(st, st.heap.get(ptr.Obj), ptr.Path, v))
}

func (ex *Exec) setPath(st *State, old Val, path []Step, v Val) Val {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	switch x := old.(type) {
	case *StructV:
		n := &StructV{F: append([]Val{}, x.F...)}
		n.F[s.Field] = ex.setPath(st, x.F[s.Field], path[1:], v)
		return n
	case *ArrV:
		if len(path) > 1 {
			e := ex.seqAt(st, x.S, s.Index)
			v = ex.setPath(st, e, path[1:], v)
		}
		return &ArrV{S: ex.seqPut(st, x.S, s.Index, v)}
	}
	unsup("store path into %T", old)
	return nil
}

// seqAt: element at index i (bounds already checked).
// runs gives the ends of the runs of equal elements of a table.
func runs(s Seq) (ends []int) {
	for i := 1; i <= len(s); i++ {
		if i == len(s) || s[i].U != s[i-1].U {
			ends = append(ends, i)
		}
	}
	return ends
}

func (ex *Exec) seqAt(st *State, s Seq, i *Term) Val {
	c := ex.c
	pos := c.Int(0)
	allTerm := true
	for _, ch := range s {
		if ch.F == nil {
			if _, ok := ch.U.(*Term); !ok {
				allTerm = false
			}
		} else if _, ok := ch.F.Elem.Underlying().(*types.Basic); !ok {
			allTerm = false
		}
	}
	if isConst(i) && ex.seqAllUnits(s) {
		if int(i.val) < len(s) {
			return s[i.val].U
		}
		panic(deadSig{})
	}
	if allTerm && ex.seqAllUnits(s) && len(s) > 0 {
		// a long table of few constant runs: one path per run
		if ends := runs(s); len(s) > 32 && len(ends) <= 16 {
			for _, e := range ends[:len(ends)-1] {
				if ex.branch(st, c.Ult(i, c.Int(int64(e)))) {
					return s[e-1].U
				}
			}
			return s[len(s)-1].U
		}
		// ite chain over constants/terms
		r := s[len(s)-1].U.(*Term)
		for k := len(s) - 2; k >= 0; k-- {
			r = c.Ite(c.Eq(i, c.Int(int64(k))), s[k].U.(*Term), r)
		}
		return r
	}
	for k, ch := range s {
		if ch.F == nil {
			if k == len(s)-1 && ex.entailsQ(st, c.Eq(i, pos)) || ex.branch(st, c.Eq(i, pos)) {
				return ch.U
			}
			pos = c.Add(pos, c.Int(1))
		} else {
			end := c.Add(pos, ch.N)
			if k == len(s)-1 || ex.branch(st, c.Ult(i, end)) {
				return ex.famElem(ch.F, c.Add(ch.Lo, c.Sub(i, pos)))
			}
			pos = end
		}
	}
	panic(deadSig{})
}

func (ex *Exec) seqPut(st *State, s Seq, i *Term, v Val) Seq {
	c := ex.c
	if isConst(i) && int(i.val) < len(s) && ex.seqAllUnits(s[:i.val+1]) {
		n := append(Seq{}, s...)
		n[i.val] = Chunk{U: v}
		return n
	}
	a, rest := ex.seqSplit(st, s, i)
	_, b := ex.seqSplit(st, rest, c.Int(1))
	return ex.seqCat(ex.seqCat(a, unitSeq(v)), b)
}

// seqSplit cuts s at offset n (0<=n<=len assumed).
func (ex *Exec) seqSplit(st *State, s Seq, n *Term) (Seq, Seq) {
	c := ex.c
	pos := c.Int(0)
	for k := 0; k <= len(s); k++ {
		// cut exactly here?
		if c.Eq(n, pos).isTrue() {
			return s[:k:k], s[k:]
		}
		if k == len(s) {
			return s, nil
		}
		ch := s[k]
		if ch.F == nil {
			if ex.branch(st, c.Eq(n, pos)) {
				return s[:k:k], s[k:]
			}
			pos = c.Add(pos, c.Int(1))
			continue
		}
		end := c.Add(pos, ch.N)
		if !c.Eq(n, end).isTrue() && (k == len(s)-1 || ex.branch(st, c.Ult(n, end))) || k == len(s)-1 && !c.Eq(n, end).isTrue() {
			d := c.Sub(n, pos)
			l := ex.seqCat(s[:k:k], Seq{{F: ch.F, Lo: ch.Lo, N: d}})
			r := append(Seq{{F: ch.F, Lo: c.Add(ch.Lo, d), N: c.Sub(ch.N, d)}}, s[k+1:]...)
			return l, ex.seqCat(nil, r)
		}
		pos = end
	}
	return s, nil
}

func (ex *Exec) seqSub(st *State, s Seq, lo, hi *Term) Seq {
	c := ex.c
	n := ex.seqLen(s)
	if lo == hi {
		return nil
	}
	if isConst(lo) && isConst(hi) && ex.seqAllUnits(s) && lo.val <= hi.val && int(hi.val) <= len(s) {
		return s[lo.val:hi.val:hi.val]
	}
	if lo.isConstVal(0) && hi == n {
		return s
	}
	if hi != n {
		s, _ = ex.seqSplit(st, s, hi)
	}
	_, r := ex.seqSplit(st, s, lo)
	_ = c
	return r
}

func (t *Term) isConstVal(v uint64) bool { return t.op == OConst && t.val == v }

// seqEq yields a formula implying equality of two sequences; ok=false when the
// structures cannot be aligned.
func (ex *Exec) seqEq(st *State, a, b Seq) (*Term, bool) {
	c := ex.c
	conj := []*Term{c.Eq(ex.seqLen(a), ex.seqLen(b))}
	a = append(Seq{}, a...)
	b = append(Seq{}, b...)
	for len(a) > 0 && len(b) > 0 {
		x, y := a[0], b[0]
		switch {
		case x.F == nil && y.F == nil:
			conj = append(conj, ex.valEq(st, x.U, y.U))
			a, b = a[1:], b[1:]
		case x.F != nil && y.F != nil:
			if !sameFam(x.F, y.F) {
				if !ex.entailsQ(st, c.Eq(x.F.Id, y.F.Id)) {
					// either may be empty
					if ex.branch(st, c.Eq(x.N, c.Int(0))) {
						a = a[1:]
						continue
					}
					if ex.branch(st, c.Eq(y.N, c.Int(0))) {
						b = b[1:]
						continue
					}
					if len(a) == 1 && len(b) == 1 {
						conj = append(conj, c.Eq(x.F.Id, y.F.Id), c.Eq(x.Lo, y.Lo))
						a, b = nil, nil
						continue
					}
					return c.And(append(conj, c.False)...), false
				}
			}
			if x.N == y.N || ex.branch(st, c.Eq(x.N, y.N)) {
				conj = append(conj, c.Or(c.Eq(x.Lo, y.Lo), c.Eq(x.N, c.Int(0))))
				a, b = a[1:], b[1:]
			} else if ex.branch(st, c.Ult(x.N, y.N)) {
				conj = append(conj, c.Eq(x.Lo, y.Lo))
				a = a[1:]
				b[0] = Chunk{F: y.F, Lo: c.Add(y.Lo, x.N), N: c.Sub(y.N, x.N)}
			} else {
				conj = append(conj, c.Eq(x.Lo, y.Lo))
				b = b[1:]
				a[0] = Chunk{F: x.F, Lo: c.Add(x.Lo, y.N), N: c.Sub(x.N, y.N)}
			}
		case x.F != nil:
			if ex.branch(st, c.Eq(x.N, c.Int(0))) {
				a = a[1:]
				continue
			}
			conj = append(conj, ex.valEq(st, ex.famElem(x.F, x.Lo), y.U))
			b = b[1:]
			a[0] = Chunk{F: x.F, Lo: c.Add(x.Lo, c.Int(1)), N: c.Sub(x.N, c.Int(1))}
		default:
			if ex.branch(st, c.Eq(y.N, c.Int(0))) {
				b = b[1:]
				continue
			}
			conj = append(conj, ex.valEq(st, x.U, ex.famElem(y.F, y.Lo)))
			a = a[1:]
			b[0] = Chunk{F: y.F, Lo: c.Add(y.Lo, c.Int(1)), N: c.Sub(y.N, c.Int(1))}
		}
	}
	return c.And(conj...), true
}

func (ex *Exec) nilU() *Term { return ex.c.Var("nil", US) }

// toU injects an arbitrary value into sort U (used when a concrete interface,
// pointer or function meets an opaque one).
func (ex *Exec) toU(st *State, v Val) *Term {
	switch v := v.(type) {
	case *Term:
		if v.sort.K == SU {
			return v
		}
	case IfaceV:
		if v.T == nil {
			return ex.nilU()
		}
		var leaves []*Term
		ex.leafTerms(st, v.V, &leaves)
		u := ex.c.UF("box:"+v.T.String()+sigOf(leaves), US, leaves...)
		st.assume(ex.c.Neq(u, ex.nilU()))
		return u
	case PtrV:
		if v.Obj == 0 {
			return ex.nilU()
		}
		u := ex.c.Var(fmt.Sprintf("addr:%d%s", v.Obj, showPath(v.Path)), US)
		st.assume(ex.c.Neq(u, ex.nilU()))
		return u
	case FuncV:
		if v.Fn == nil && v.Model == "" {
			return ex.nilU()
		}
		nm := v.Model
		if v.Fn != nil {
			nm = v.Fn.String()
		}
		var leaves []*Term
		for _, b := range v.Bind {
			ex.leafTerms(st, b, &leaves)
		}
		u := ex.c.UF("fn:"+nm+sigOf(leaves), US, leaves...)
		st.assume(ex.c.Neq(u, ex.nilU()))
		return u
	case MapV:
		if v.Obj == 0 {
			return ex.nilU()
		}
		u := ex.c.Var(fmt.Sprintf("map:%d", v.Obj), US)
		st.assume(ex.c.Neq(u, ex.nilU()))
		return u
	case *MapObj:
		return ex.mapU(st, v)
	}
	unsup("toU of %T %s", v, ex.show(v))
	return nil
}
func sigOf(ts []*Term) string {
	s := "/"
	for _, t := range ts {
		s += sortTag(t.sort)
	}
	return s
}

func (ex *Exec) leafTerms(st *State, v Val, out *[]*Term) {
	switch v := v.(type) {
	case *Term:
		*out = append(*out, v)
	case *StructV:
		for _, f := range v.F {
			ex.leafTerms(st, f, out)
		}
	case StrV:
		*out = append(*out, ex.seqId(st, v.S), ex.seqLen(v.S))
	case *ArrV:
		for _, ch := range v.S {
			if ch.F == nil {
				ex.leafTerms(st, ch.U, out)
			} else {
				*out = append(*out, ch.F.Id, ch.Lo, ch.N)
			}
		}
	case PtrV, IfaceV, FuncV, MapV:
		*out = append(*out, ex.toU(st, v))
	case SliceV:
		*out = append(*out, ex.c.Var(fmt.Sprintf("slice:%d%s", v.Obj, showPath(v.Path)), US), v.Off, v.Len)
	case nil:
	default:
		unsup("leafTerms %T", v)
	}
}

// seqId: a U-term identifying sequence contents (congruent).
func (ex *Exec) seqId(st *State, s Seq) *Term {
	if k, ok := ex.seqConst(s); ok {
		return ex.c.Var("str:"+k, US)
	}
	if len(s) == 1 && s[0].F != nil && s[0].Lo.isConstVal(0) {
		return ex.c.UF("seqid", US, s[0].F.Id, s[0].N)
	}
	var ts []*Term
	for _, ch := range s {
		if ch.F == nil {
			ex.leafTerms(st, ch.U, &ts)
		} else {
			ts = append(ts, ch.F.Id, ch.Lo, ch.N)
		}
	}
	return ex.c.UF("seqid"+sigOf(ts), US, ts...)
}

func isNilVal(v Val) (bool, bool) { // (isnil, known)
	switch v := v.(type) {
	case PtrV:
		return v.Obj == 0, true
	case IfaceV:
		return v.T == nil, true
	case FuncV:
		return v.Fn == nil && v.Model == "", true
	case MapV:
		return v.Obj == 0, true
	case SliceV:
		return v.Obj == 0, true
	}
	return false, false
}

// valEq: Go equality of two values of the same static type.
func (ex *Exec) valEq(st *State, a, b Val) *Term {
	c := ex.c
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			if x.sort == y.sort {
				return c.Eq(x, y)
			}
			unsup("valEq sorts %v %v", x.sort, y.sort)
		}
		return c.Eq(x, ex.toU(st, b))
	case *StructV:
		y, ok := b.(*StructV)
		if !ok {
			unsup("valEq struct/%T", b)
		}
		r := c.True
		for i := range x.F {
			r = c.And(r, ex.valEq(st, x.F[i], y.F[i]))
		}
		return r
	case StrV:
		y := b.(StrV)
		return ex.strEq(st, x.S, y.S)
	case *ArrV:
		y := b.(*ArrV)
		r, _ := ex.seqEq(st, x.S, y.S)
		return r
	case PtrV:
		y, ok := b.(PtrV)
		if !ok {
			return c.Eq(ex.toU(st, a), ex.toU(st, b))
		}
		if x.Obj != y.Obj {
			return c.False
		}
		if len(x.Path) != len(y.Path) {
			return c.False
		}
		r := c.True
		for i := range x.Path {
			if x.Path[i].Index != nil {
				r = c.And(r, c.Eq(x.Path[i].Index, y.Path[i].Index))
			} else if x.Path[i].Field != y.Path[i].Field {
				return c.False
			}
		}
		return r
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return c.Eq(ex.toU(st, a), ex.toU(st, b))
		}
		if x.T == nil || y.T == nil {
			return c.Bool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return c.False
		}
		return ex.valEq(st, x.V, y.V)
	case FuncV:
		an, _ := isNilVal(a)
		bn, known := isNilVal(b)
		if known && (an || bn) {
			return c.Bool(an && bn)
		}
		return c.Eq(ex.toU(st, a), ex.toU(st, b))
	case MapV:
		if y, ok := b.(MapV); ok {
			return c.Bool(x.Obj == y.Obj)
		}
		return c.Eq(ex.toU(st, a), ex.toU(st, b))
	case SliceV:
		y, ok := b.(SliceV)
		if ok && (x.Obj == 0 || y.Obj == 0) {
			if x.Obj == 0 && y.Obj == 0 {
				return c.True
			}
			if x.Obj == 0 {
				x = y
			}
			if x.Nil != nil {
				return x.Nil
			}
			return c.False
		}
	case nil:
		if b == nil {
			return c.True
		}
	}
	unsup("valEq %T %T", a, b)
	return nil
}

// strEq is exact string equality; when the structures do not align it falls
// back on an uninterpreted predicate that is congruent and length-respecting.
func (ex *Exec) strEq(st *State, a, b Seq) *Term {
	c := ex.c
	if len(a) == 0 || len(b) == 0 {
		return c.Eq(ex.seqLen(a), ex.seqLen(b))
	}
	if x, ok := ex.seqConst(a); ok {
		if y, ok := ex.seqConst(b); ok {
			return c.Bool(x == y)
		}
	}
	if ex.seqAllUnits(b) && !ex.seqAllUnits(a) {
		a, b = b, a
	}
	if _, ok := ex.seqConst(a); ok && ex.whole && len(a) > 4 && len(b) == 1 && b[0].F != nil {
		// whether they are equal matters, not why
		p := ex.c.UF("streq", BoolS, ex.seqId(st, a), ex.seqId(st, b))
		st.assume(c.Implies(p, c.Eq(ex.seqLen(b), c.Int(int64(len(a))))))
		return p
	}
	if ex.seqAllUnits(a) {
		// len equal and each byte equal; the other side may be opaque
		n := int64(len(a))
		ln := c.Eq(ex.seqLen(b), c.Int(n))
		if ln.isFalse() {
			return c.False
		}
		if len(b) == 1 && b[0].F != nil {
			r := ln
			for i := int64(0); i < n; i++ {
				r = c.And(r, c.Eq(a[i].U.(*Term), ex.famElem(b[0].F, c.Add(b[0].Lo, c.Int(i))).(*Term)))
			}
			return r
		}
		if !ex.branch(st, ln) {
			return c.False
		}
		r, _ := ex.seqEq(st, a, b)
		return r
	}
	r, ok := ex.seqEq(st, a, b)
	if ok && len(a) == 1 && len(b) == 1 && sameFam(a[0].F, b[0].F) {
		return r
	}
	// opaque predicate
	ia, ib := ex.seqId(st, a), ex.seqId(st, b)
	if ib.id < ia.id {
		ia, ib = ib, ia
	}
	p := ex.c.UF("streq", BoolS, ia, ib)
	st.assume(c.Implies(p, c.Eq(ex.seqLen(a), ex.seqLen(b))))
	st.assume(c.Implies(r, p))
	return p
}
