package main

// Calls: builtins, modelled library functions, contracts, opaque calls
// (events matched against the specification thread) and plain inlining.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is an observable operation a thread is about to perform.
type Event struct {
	Name string
	Args []Val
	Res  types.Type // result type (tuple, single or nil)
	Ret  ssa.Value
	Site *ssa.Call
}

type angel struct{}

type model func(ex *Exec, st *State, fr *Frame, in *ssa.Call, args []Val) Val

// pushed is returned by models that arranged control flow themselves.
type pushed struct{ cont bool }

var models = map[string]model{}

// finish stores a call result and moves on.
func (ex *Exec) finish(st *State, fr *Frame, in *ssa.Call, v Val) bool {
	if p, ok := v.(pushed); ok {
		return p.cont
	}
	if in != nil {
		fr.set(in, v)
	}
	fr.ip++
	return true
}

func (ex *Exec) call(st *State, fr *Frame, cm *ssa.CallCommon, in *ssa.Call) bool {
	var args []Val
	if cm.IsInvoke() {
		recv := ex.val(st, fr, cm.Value)
		for _, a := range cm.Args {
			args = append(args, ex.val(st, fr, a))
		}
		return ex.invoke(st, fr, in, recv, cm.Value.Type(), cm.Method, args)
	}
	for _, a := range cm.Args {
		args = append(args, ex.val(st, fr, a))
	}
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		return ex.finish(st, fr, in, ex.builtin(st, fr, b.Name(), args, cm, in))
	}
	if f := cm.StaticCallee(); f != nil {
		var bind []Val
		if mc, ok := cm.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				bind = append(bind, ex.val(st, fr, b))
			}
		}
		return ex.callFn(st, fr, in, f, args, bind)
	}
	fv := ex.val(st, fr, cm.Value)
	switch f := fv.(type) {
	case FuncV:
		if f.Fn != nil {
			return ex.callFn(st, fr, in, f.Fn, args, f.Bind)
		}
		if f.Model != "" {
			m := models[f.Model]
			if m == nil {
				unsup("function value model %s", f.Model)
			}
			if f.Recv != nil {
				args = append([]Val{f.Recv}, args...)
			}
			return ex.finish(st, fr, in, m(ex, st, fr, in, args))
		}
		ex.check(st, ex.c.False, "call of nil function")
		panic(deadSig{})
	case *Term:
		ex.check(st, ex.c.Neq(f, ex.nilU()), "call of nil function")
		return ex.event(st, fr, in, &Event{Name: "func", Args: append([]Val{f}, args...), Res: in.Type(), Ret: in, Site: in})
	}
	unsup("dynamic call of %T", fv)
	return false
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func (ex *Exec) callFn(st *State, fr *Frame, in *ssa.Call, f *ssa.Function, args, bind []Val) bool {
	name := fnName(f)
	if st.cur == 0 && !ex.initMode && (ex.opts.Real[name] == 0 || st.active(name)) {
		if g := ex.contracts[name]; g != nil {
			ex.used[name]++
			ex.push(st, g, args, nil, retOf(in))
			return true
		}
	}
	if m, ok := models[name]; ok {
		return ex.finish(st, fr, in, m(ex, st, fr, in, args))
	}
	if len(st.th) == 2 {
		if p, ok := ex.pairs[name]; ok {
			n := 0
			for _, f2 := range st.thread().frames {
				if fnName(f2.fn) == name {
					n++
				}
			}
			if n > 0 || p.always {
				res := types.Type(f.Signature.Results())
				if f.Signature.Results().Len() == 1 {
					res = f.Signature.Results().At(0).Type()
				}
				return ex.event(st, fr, in, &Event{Name: "call:" + p.tag, Args: p.pick(args), Res: res, Ret: in, Site: in})
			}
		}
	}
	pp := fnPkgPath(f)
	if ex.initMode && !isOurs(pp) {
		// library initialisers are not modelled; their results are unusable
		return ex.finish(st, fr, in, Poison{"result of " + name + " at initialisation"})
	}
	if !isOurs(pp) && !stdInline(pp, name) && f.Synthetic == "" {
		unsup("call of unmodelled function %s", name)
	}
	if in != nil && len(bind) == 0 && !ex.initMode && ex.W.mergeable(f, ex.mergeMin) {
		ex.callMerged(st, f, args, in)
	}
	ex.push(st, f, args, bind, retOf(in))
	return true
}

// active reports whether the function is being executed: a recursive call is
// held to the contract also where the function itself is verified.
func (st *State) active(name string) bool {
	for _, f := range st.thread().frames {
		if fnName(f.fn) == name {
			return true
		}
	}
	return false
}

func retOf(in *ssa.Call) ssa.Value {
	if in == nil {
		return nil
	}
	return in
}

// stdInline lists library code that is executed from its source.
func stdInline(pkg, name string) bool {
	switch pkg {
	case "encoding/binary", "math/bits", "slices", "cmp", "internal/byteorder", "container/list":
		return true
	case "strings", "internal/stringslite":
		switch name[strings.LastIndex(name, ".")+1:] {
		case "HasPrefix", "HasSuffix", "Cut", "CutPrefix", "CutSuffix", "TrimPrefix", "TrimSuffix":
			return true
		}
	case "math":
		return false
	case "unicode/utf8":
		return strings.HasSuffix(name, ".RuneLen") || strings.HasSuffix(name, ".ValidRune") || strings.HasSuffix(strings.ToLower(name), ".decoderune") || strings.HasSuffix(name, ".decodeRuneSlow")
	}
	return false
}

func (ex *Exec) invoke(st *State, fr *Frame, in *ssa.Call, recv Val, it types.Type, m *types.Func, args []Val) bool {
	switch r := recv.(type) {
	case IfaceV:
		if r.T == nil {
			ex.check(st, ex.c.False, "method call on nil interface")
			panic(deadSig{})
		}
		f := ex.prog.LookupMethod(r.T, m.Pkg(), m.Name())
		if f == nil {
			unsup("method %s of %s", m.Name(), r.T)
		}
		return ex.callFn(st, fr, in, f, append([]Val{r.V}, args...), nil)
	case *Term:
		key := "invoke:" + m.Name()
		if n, ok := it.(*types.Named); ok {
			key = "invoke:" + n.Obj().Name() + "." + m.Name()
			if n.Obj().Pkg() != nil {
				key = "invoke:" + n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + m.Name()
			}
		}
		ex.check(st, ex.c.Neq(r, ex.nilU()), "method call on nil interface")
		if mo, ok := models[key]; ok {
			return ex.finish(st, fr, in, mo(ex, st, fr, in, append([]Val{r}, args...)))
		}
		if mo, ok := models["invoke:*."+m.Name()]; ok {
			return ex.finish(st, fr, in, mo(ex, st, fr, in, append([]Val{r}, args...)))
		}
		return ex.event(st, fr, in, &Event{Name: m.Name(), Args: append([]Val{r}, args...), Res: in.Type(), Ret: in, Site: in})
	}
	if p, ok := recv.(Poison); ok && ex.initMode {
		return ex.finish(st, fr, in, p)
	}
	unsup("invoke on %T", recv)
	return false
}

func (ex *Exec) builtin(st *State, fr *Frame, name string, args []Val, cm *ssa.CallCommon, in *ssa.Call) Val {
	c := ex.c
	switch name {
	case "len":
		switch x := args[0].(type) {
		case StrV:
			return ex.seqLen(x.S)
		case SliceV:
			return x.Len
		case *ArrV:
			return ex.seqLen(x.S)
		case MapV:
			if x.Obj == 0 {
				return c.Int(0)
			}
			if mo, ok := st.heap.get(x.Obj).(*MapObj); ok && mo.B == nil {
				return c.Int(int64(len(mo.K)))
			}
		case PtrV:
			if a, ok := cm.Args[0].Type().Underlying().(*types.Pointer); ok {
				return c.Int(a.Elem().Underlying().(*types.Array).Len())
			}
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return x.Cap
		case *ArrV:
			return ex.seqLen(x.S)
		}
	case "append":
		s, ok := args[0].(SliceV)
		if !ok {
			unsup("append to %T", args[0])
		}
		if len(args) == 1 {
			return s
		}
		var q Seq
		switch y := args[1].(type) {
		case SliceV:
			q = ex.sliceSeq(st, y)
		case StrV:
			q = y.S
		default:
			unsup("append of %T", args[1])
		}
		return ex.appendSeq(st, s, q, ex.replaces(st, fr, in, s))
	case "copy":
		d := args[0].(SliceV)
		var q Seq
		switch y := args[1].(type) {
		case SliceV:
			q = ex.sliceSeq(st, y)
		case StrV:
			q = y.S
		}
		n := ex.seqLen(q)
		if ex.branch(st, c.Ule(n, d.Len)) {
			ex.writeSeq(st, d, c.Int(0), q)
			return n
		}
		ex.writeSeq(st, d, c.Int(0), ex.seqSub(st, q, c.Int(0), d.Len))
		return d.Len
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			var lt *Term
			if isSigned(cm.Args[0].Type()) {
				lt = c.Slt(t, r)
			} else {
				lt = c.Ult(t, r)
			}
			if name == "max" {
				lt = c.Not(c.Or(lt, c.Eq(t, r)))
			}
			r = c.Ite(lt, t, r)
		}
		return r
	case "recover":
		th := st.thread()
		// recover is effective when called by a deferred function during panicking
		if len(th.frames) > 0 && th.panicking && !th.recovered && th.top().pandef {
			th.recovered = true
			v := th.panicVal
			if iv, ok := v.(IfaceV); ok {
				return iv
			}
			return v
		}
		return IfaceV{}
	case "panic":
		unsup("panic builtin as value")
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(PtrV); ok && p.Obj == 0 {
			ex.check(st, c.False, "nil pointer dereference")
			panic(deadSig{})
		}
		return args[0]
	case "delete":
		mv := args[0].(MapV)
		if mv.Obj == 0 {
			return nil
		}
		mo, ok := st.heap.get(mv.Obj).(*MapObj)
		if !ok || mo.B != nil {
			unsup("delete on ghost map")
		}
		for i := range mo.K {
			if ex.branch(st, ex.valEq(st, mo.K[i], args[1])) {
				n := &MapObj{K: append(append([]Val{}, mo.K[:i]...), mo.K[i+1:]...), V: append(append([]Val{}, mo.V[:i]...), mo.V[i+1:]...)}
				st.heap.set(mv.Obj, n)
				return nil
			}
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case MapV:
			if x.Obj != 0 {
				st.heap.set(x.Obj, &MapObj{})
			}
			return nil
		}
	}
	unsup("builtin %s on %T", name, args[0])
	return nil
}

// ---- lock-step execution of code (thread 0) against its specification
// (thread 1) ----

type pair struct {
	tag    string
	always bool
	keep   []int
}

func (p pair) pick(args []Val) []Val {
	if p.keep == nil {
		return args
	}
	var out []Val
	for _, i := range p.keep {
		out = append(out, args[i])
	}
	return out
}

func (ex *Exec) event(st *State, fr *Frame, in *ssa.Call, ev *Event) bool {
	if len(st.th) == 1 {
		// no specification running: arbitrary result
		return ex.finish(st, fr, in, ex.eventResult(st, ev))
	}
	if st.cur == 1 {
		st.thread().pend = ev
		st.cur = 0
		return true
	}
	sp := st.th[1]
	props := st.ghost["par"].(string)
	if sp.done {
		ex.fail(st, props, "refines: operation "+ev.Name+" not allowed after the specified sequence ended", "")
		panic(deadSig{})
	}
	if sp.pend == nil {
		unsup("specification thread is not waiting")
	}
	pe := sp.pend
	if pe.Name != ev.Name || len(pe.Args) != len(ev.Args) {
		ex.fail(st, props, "refines: operation "+ev.Name+" where the specification requires "+pe.Name, "")
		panic(deadSig{})
	}
	for i := range ev.Args {
		ex.oblige(st, props, fmt.Sprintf("refines: argument %d of %s", i, ev.Name), ex.same(st, ev.Args[i], pe.Args[i]))
	}
	r := ex.eventResult(st, ev)
	st.events++
	// resume both; the specification runs on to its next operation first
	fr = st.th[0].top()
	if ev.Ret != nil {
		fr.set(ev.Ret, r)
	}
	fr.ip++
	sf := sp.top()
	if pe.Ret != nil {
		sf.set(pe.Ret, r)
	}
	sf.ip++
	sp.pend = nil
	st.cur = 1
	return true
}

func (ex *Exec) eventResult(st *State, ev *Event) Val {
	mk := func(t types.Type) Val {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return ex.freshVal(st, "r."+ev.Name, t)
	}
	switch t := ev.Res.(type) {
	case nil:
		return nil
	case *types.Tuple:
		if t.Len() == 0 {
			return nil
		}
		var tv TupV
		for i := 0; i < t.Len(); i++ {
			tv = append(tv, mk(t.At(i).Type()))
		}
		return tv
	default:
		return mk(ev.Res)
	}
}

// threadDone handles a finished thread.
func (ex *Exec) threadDone(st *State) ([]*State, bool) {
	if st.cur == 1 {
		st.cur = 0
		if len(st.th[0].frames) == 0 {
			unsup("code thread vanished")
		}
		return nil, true
	}
	ex.Paths++
	return nil, false
}
