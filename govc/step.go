package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func floatBits(f float64, w int) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func (ex *Exec) jump(fr *Frame, to *ssa.BasicBlock) {
	fr.prev, fr.blk, fr.ip, fr.headDone = fr.blk, to, 0, false
}

// step executes one instruction of the current thread. Returns false when the
// state is finished.
func (ex *Exec) step(st *State) bool {
	th := st.thread()
	fr := th.top()
	if fr.ip == 0 {
		// phis first, simultaneously
		if len(fr.blk.Instrs) > 0 {
			if _, ok := fr.blk.Instrs[0].(*ssa.Phi); ok {
				idx := -1
				for i, p := range fr.blk.Preds {
					if p == fr.prev {
						idx = i
					}
				}
				var vs []Val
				var ps []*ssa.Phi
				for _, in := range fr.blk.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if idx < 0 {
						unsup("phi without predecessor")
					}
					ps = append(ps, p)
					vs = append(vs, ex.val(st, fr, p.Edges[idx]))
				}
				for i, p := range ps {
					fr.set(p, vs[i])
				}
				fr.ip = len(ps)
				return true
			}
		}
	}
	in := fr.blk.Instrs[fr.ip]
	c := ex.c
	switch in := in.(type) {
	case *ssa.Phi:
		// inside a loop head after havoc: phis already set
		fr.ip++
	case *ssa.DebugRef:
		fr.ip++
	case *ssa.Alloc:
		o := st.newObj(ex.zero(in.Type().Underlying().(*types.Pointer).Elem()))
		fr.set(in, PtrV{Obj: o})
		fr.ip++
	case *ssa.BinOp:
		fr.set(in, ex.binop(st, in.Op, ex.val(st, fr, in.X), ex.val(st, fr, in.Y), in.X.Type(), in.Y.Type()))
		fr.ip++
	case *ssa.UnOp:
		x := ex.val(st, fr, in.X)
		var r Val
		switch in.Op {
		case token.MUL:
			r = ex.load(st, x)
		case token.NOT:
			r = c.Not(x.(*Term))
		case token.SUB:
			if isFloat(in.Type()) {
				unsup("float negation")
			}
			r = c.Neg(x.(*Term))
		case token.XOR:
			t := x.(*Term)
			r = c.Sub(c.BV(mask(int(t.sort.W)), int(t.sort.W)), t)
		default:
			unsup("unop %s", in.Op)
		}
		fr.set(in, r)
		fr.ip++
	case *ssa.Convert:
		fr.set(in, ex.convert(st, ex.val(st, fr, in.X), in.X.Type(), in.Type()))
		fr.ip++
	case *ssa.MultiConvert:
		fr.set(in, ex.convert(st, ex.val(st, fr, in.X), in.X.Type(), in.Type()))
		fr.ip++
	case *ssa.ChangeType:
		fr.set(in, ex.val(st, fr, in.X))
		fr.ip++
	case *ssa.ChangeInterface:
		fr.set(in, ex.val(st, fr, in.X))
		fr.ip++
	case *ssa.MakeInterface:
		fr.set(in, ex.makeIface(in.X.Type(), ex.val(st, fr, in.X)))
		fr.ip++
	case *ssa.MakeClosure:
		f := FuncV{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.Bind = append(f.Bind, ex.val(st, fr, b))
		}
		fr.set(in, f)
		fr.ip++
	case *ssa.MakeSlice:
		n, k := ex.val(st, fr, in.Len).(*Term), ex.val(st, fr, in.Cap).(*Term)
		n, k = ex.toInt(n, in.Len.Type()), ex.toInt(k, in.Cap.Type())
		et := in.Type().Underlying().(*types.Slice).Elem()
		ex.check(st, c.And(c.Sle(c.Int(0), n), c.Sle(n, k)), "makeslice size out of range")
		ex.allocCheck(st, k)
		fr.set(in, ex.makeSlice(st, et, n, k))
		fr.ip++
	case *ssa.MakeMap:
		o := st.newObj(&MapObj{})
		fr.set(in, MapV{Obj: o})
		fr.ip++
	case *ssa.Extract:
		tv, ok := ex.val(st, fr, in.Tuple).(TupV)
		if !ok {
			unsup("extract from %T", ex.val(st, fr, in.Tuple))
		}
		fr.set(in, tv[in.Index])
		fr.ip++
	case *ssa.Field:
		fr.set(in, ex.field(st, ex.val(st, fr, in.X), in.Field, in.X.Type()))
		fr.ip++
	case *ssa.FieldAddr:
		x := ex.val(st, fr, in.X)
		p, ok := x.(PtrV)
		if !ok {
			if t, ok := x.(*Term); ok {
				fr.set(in, ex.opaqueFieldAddr(st, t, in))
				fr.ip++
				break
			}
			unsup("fieldaddr of %T %s", x, ex.show(x))
		}
		if p.Obj == 0 {
			ex.check(st, c.False, "nil pointer dereference")
			panic(deadSig{})
		}
		fr.set(in, PtrV{Obj: p.Obj, Path: append(p.Path[:len(p.Path):len(p.Path)], Step{Field: in.Field})})
		fr.ip++
	case *ssa.IndexAddr:
		ex.indexAddr(st, fr, in)
	case *ssa.Index:
		x := ex.val(st, fr, in.X)
		i := ex.toInt(ex.val(st, fr, in.Index).(*Term), in.Index.Type())
		var s Seq
		switch x := x.(type) {
		case *ArrV:
			s = x.S
		case StrV:
			s = x.S
		default:
			unsup("index of %T", x)
		}
		ex.check(st, c.Ult(i, ex.seqLen(s)), "index out of range")
		fr.set(in, ex.seqAt(st, s, i))
		fr.ip++
	case *ssa.Lookup:
		x := ex.val(st, fr, in.X)
		if s, ok := x.(StrV); ok {
			i := ex.toInt(ex.val(st, fr, in.Index).(*Term), in.Index.Type())
			ex.check(st, c.Ult(i, ex.seqLen(s.S)), "index out of range")
			fr.set(in, ex.seqAt(st, s.S, i))
		} else if g := ex.lazyMap(st, x); g != nil {
			f := g.F["get"].(FuncV)
			nf := ex.push(st, f.Fn, []Val{ex.val(st, fr, in.Index)}, f.Bind, nil)
			nf.onRet = func(ex *Exec, st *State, res Val) {
				fr := st.thread().top()
				if in.CommaOk {
					fr.set(in, res)
				} else {
					fr.set(in, res.(TupV)[0])
				}
				fr.ip++
			}
			return true
		} else {
			v, ok := ex.mapLookup(st, x, ex.val(st, fr, in.Index), in.X.Type().Underlying().(*types.Map))
			if in.CommaOk {
				fr.set(in, TupV{v, ok})
			} else {
				fr.set(in, v)
			}
		}
		fr.ip++
	case *ssa.MapUpdate:
		ex.mapUpdate(st, ex.val(st, fr, in.Map), ex.val(st, fr, in.Key), ex.val(st, fr, in.Value), in.Map.Type().Underlying().(*types.Map))
		fr.ip++
	case *ssa.Slice:
		ex.slice(st, fr, in)
		fr.ip++
	case *ssa.SliceToArrayPointer:
		s := ex.val(st, fr, in.X).(SliceV)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		ex.check(st, c.Sle(c.Int(n), s.Len), "slice to array conversion: slice too short")
		fr.set(in, ex.sliceToArrPtr(st, s, n))
		fr.ip++
	case *ssa.Store:
		ex.store(st, ex.val(st, fr, in.Addr), ex.val(st, fr, in.Val))
		fr.ip++
	case *ssa.TypeAssert:
		fr.set(in, ex.typeAssert(st, in, ex.val(st, fr, in.X)))
		fr.ip++
	case *ssa.Jump:
		ex.jump(fr, fr.blk.Succs[0])
	case *ssa.If:
		if ex.branch(st, ex.val(st, fr, in.Cond).(*Term)) {
			ex.jump(fr, fr.blk.Succs[0])
		} else {
			ex.jump(fr, fr.blk.Succs[1])
		}
	case *ssa.Return:
		var r Val
		switch len(in.Results) {
		case 0:
		case 1:
			r = ex.val(st, fr, in.Results[0])
		default:
			var t TupV
			for _, x := range in.Results {
				t = append(t, ex.val(st, fr, x))
			}
			r = t
		}
		ex.popReturn(st, r)
	case *ssa.Call:
		return ex.call(st, fr, in.Common(), in)
	case *ssa.Defer:
		d := deferred{}
		cm := in.Common()
		if cm.IsInvoke() {
			unsup("deferred interface call")
		}
		d.fn = ex.val(st, fr, cm.Value)
		for _, a := range cm.Args {
			d.args = append(d.args, ex.val(st, fr, a))
		}
		fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], d)
		fr.ip++
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[: n-1 : n-1]
			ex.callDeferred(st, d, false)
		} else {
			fr.ip++
		}
	case *ssa.Panic:
		th.panicking, th.recovered = true, false
		th.panicVal = ex.val(st, fr, in.X)
		ex.unwind(st)
	case *ssa.Range:
		fr.set(in, ex.rangeStart(st, ex.val(st, fr, in.X), in.X.Type()))
		fr.ip++
	case *ssa.Next:
		it, v := ex.rangeNext(st, ex.val(st, fr, in.Iter), in)
		fr.set(in.Iter, it)
		fr.set(in, v)
		fr.ip++
	default:
		unsup("instruction %T %s", in, in)
	}
	return true
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (ex *Exec) makeIface(t types.Type, v Val) Val {
	if iv, ok := v.(IfaceV); ok {
		return iv
	}
	if u, ok := v.(*Term); ok && u.sort.K == SU {
		if _, isI := t.Underlying().(*types.Interface); isI {
			return u
		}
	}
	return IfaceV{T: t, V: v}
}

// toInt extends an index operand to 64 bits.
func (ex *Exec) toInt(t *Term, ty types.Type) *Term {
	if t.sort.W == 64 {
		return t
	}
	if isSigned(ty) {
		return ex.c.Sext(t, 64)
	}
	return ex.c.Zext(t, 64)
}

func (ex *Exec) field(st *State, x Val, i int, t types.Type) Val {
	switch v := x.(type) {
	case *StructV:
		return v.F[i]
	case *Term:
		return ex.opaqueField(st, v, Step{Field: i})
	}
	unsup("field of %T", x)
	return nil
}

func (ex *Exec) indexAddr(st *State, fr *Frame, in *ssa.IndexAddr) {
	c := ex.c
	x := ex.val(st, fr, in.X)
	i := ex.toInt(ex.val(st, fr, in.Index).(*Term), in.Index.Type())
	switch x := x.(type) {
	case SliceV:
		ex.check(st, c.Ult(i, x.Len), "index out of range")
		if g, ok := st.heap.get(x.Obj).(*GhostV); ok && g.Kind == "Lazy" {
			f := g.F["at"].(FuncV)
			ex.push(st, f.Fn, []Val{c.Add(x.Off, i)}, f.Bind, in)
			return
		}
		fr.set(in, PtrV{Obj: x.Obj, Path: append(x.Path[:len(x.Path):len(x.Path)], Step{Field: -1, Index: c.Add(x.Off, i)})})
		fr.ip++
	case PtrV:
		n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if x.Obj == 0 {
			ex.check(st, c.False, "nil pointer dereference")
			panic(deadSig{})
		}
		ex.check(st, c.Ult(i, c.Int(n)), "index out of range")
		fr.set(in, PtrV{Obj: x.Obj, Path: append(x.Path[:len(x.Path):len(x.Path)], Step{Field: -1, Index: i})})
		fr.ip++
	default:
		unsup("indexaddr of %T %s", x, ex.show(x))
	}
}

func (ex *Exec) slice(st *State, fr *Frame, in *ssa.Slice) {
	c := ex.c
	x := ex.val(st, fr, in.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ex.toInt(ex.val(st, fr, v).(*Term), v.Type())
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	if lo == nil {
		lo = c.Int(0)
	}
	switch x := x.(type) {
	case StrV:
		n := ex.seqLen(x.S)
		if hi == nil {
			hi = n
		}
		ex.check(st, c.And(c.Ule(hi, n), c.Ule(lo, hi)), "slice bounds out of range")
		fr.set(in, StrV{S: ex.seqSub(st, x.S, lo, hi)})
		return
	case SliceV:
		if hi == nil {
			hi = x.Len
		}
		lim := x.Cap
		if mx != nil {
			ex.check(st, c.And(c.Ule(mx, x.Cap), c.Ule(hi, mx)), "slice bounds out of range")
			lim = mx
		}
		ex.check(st, c.And(c.Ule(hi, x.Cap), c.Ule(lo, hi)), "slice bounds out of range")
		fr.set(in, SliceV{Obj: x.Obj, Path: x.Path, Off: c.Add(x.Off, lo), Len: c.Sub(hi, lo), Cap: c.Sub(lim, lo)})
		return
	case PtrV:
		n := c.Int(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if x.Obj == 0 {
			ex.check(st, c.False, "nil pointer dereference")
			panic(deadSig{})
		}
		if hi == nil {
			hi = n
		}
		lim := n
		if mx != nil {
			ex.check(st, c.And(c.Ule(mx, n), c.Ule(hi, mx)), "slice bounds out of range")
			lim = mx
		}
		ex.check(st, c.And(c.Ule(hi, n), c.Ule(lo, hi)), "slice bounds out of range")
		fr.set(in, SliceV{Obj: x.Obj, Path: x.Path, Off: lo, Len: c.Sub(hi, lo), Cap: c.Sub(lim, lo)})
		return
	}
	unsup("slice of %T", x)
}

func (ex *Exec) sliceToArrPtr(st *State, s SliceV, n int64) Val {
	a := ex.getPath(st, st.heap.get(s.Obj), s.Path).(*ArrV)
	if s.Off.isConstVal(0) && ex.seqLen(a.S).isConstVal(uint64(n)) {
		return PtrV{Obj: s.Obj, Path: s.Path}
	}
	unsup("slice to array pointer with offset")
	return nil
}

func (ex *Exec) makeSlice(st *State, et types.Type, n, k *Term) Val {
	c := ex.c
	var q Seq
	if isConst(k) && k.val <= 512 {
		z := ex.zero(et)
		for i := uint64(0); i < k.val; i++ {
			q = append(q, Chunk{U: z})
		}
	} else {
		id := c.Var("zeros:"+et.String(), US)
		q = Seq{{F: &Fam{Id: id, Elem: et}, Lo: c.Int(0), N: k}}
	}
	o := st.newObj(&ArrV{S: q})
	return SliceV{Obj: o, Off: c.Int(0), Len: n, Cap: k}
}

// sliceSeq gives the visible content of a slice.
func (ex *Exec) sliceSeq(st *State, s SliceV) Seq {
	if s.Obj == 0 {
		return nil
	}
	a, ok := ex.getPath(st, st.heap.get(s.Obj), s.Path).(*ArrV)
	if !ok {
		unsup("sliceSeq of %T", st.heap.get(s.Obj))
	}
	return ex.seqSub(st, a.S, s.Off, ex.c.Add(s.Off, s.Len))
}

// newSliceSeq allocates a slice holding exactly q.
func (ex *Exec) newSliceSeq(st *State, q Seq) SliceV {
	o := st.newObj(&ArrV{S: q})
	n := ex.seqLen(q)
	return SliceV{Obj: o, Off: ex.c.Int(0), Len: n, Cap: n}
}

// writeSeq overwrites dst[at : at+len(q)].
func (ex *Exec) writeSeq(st *State, s SliceV, at *Term, q Seq) {
	n := ex.seqLen(q)
	if n.isConstVal(0) {
		return
	}
	a := ex.getPath(st, st.heap.get(s.Obj), s.Path).(*ArrV)
	pos := ex.c.Add(s.Off, at)
	l, r := ex.seqSplit(st, a.S, pos)
	_, r = ex.seqSplit(st, r, n)
	nv := &ArrV{S: ex.seqCat(ex.seqCat(l, q), r)}
	st.heap.set(s.Obj, ex.setPath(st, st.heap.get(s.Obj), s.Path, nv))
}

// replaces is the number of references to the array of s that are overwritten
// at once by the result of append.
func (ex *Exec) replaces(st *State, fr *Frame, in *ssa.Call, s SliceV) int {
	if in == nil || in.Parent() != fr.fn || fr.ip+1 >= len(in.Block().Instrs) || s.Obj <= 0 {
		return 0
	}
	next := in.Block().Instrs[fr.ip+1:]
	fa, viaField := next[0].(*ssa.FieldAddr)
	if viaField && len(next) > 1 {
		next = next[1:]
	}
	sto, ok := next[0].(*ssa.Store)
	if !ok || in.Block() != fr.blk || sto.Val != ssa.Value(in) || viaField && sto.Addr != ssa.Value(fa) {
		return 0
	}
	for _, r := range *in.Referrers() {
		if r != ssa.Instruction(sto) {
			return 0
		}
	}
	var p PtrV
	if viaField {
		if p, ok = ex.val(st, fr, fa.X).(PtrV); ok {
			p = PtrV{Obj: p.Obj, Path: append(p.Path[:len(p.Path):len(p.Path)], Step{Field: fa.Field})}
		}
	} else {
		p, ok = ex.val(st, fr, sto.Addr).(PtrV)
	}
	if !ok || p.Obj == 0 {
		return 0
	}
	if old, ok := ex.load(st, p).(SliceV); ok && old.Obj == s.Obj {
		return 1
	}
	return 0
}

func (ex *Exec) appendSeq(st *State, s SliceV, q Seq, dead int) SliceV {
	c := ex.c
	n := ex.seqLen(q)
	if n.isConstVal(0) {
		return s
	}
	nl := c.Add(s.Len, n)
	if fits := c.Ule(nl, s.Cap); s.Obj > 0 && len(s.Path) == 0 && !isConst(fits) && len(ex.refsTo(st, true, false)[s.Obj]) == dead {
		// nobody else can see the old array: whether it is reused is unobservable
	} else if s.Obj != 0 && ex.branch(st, fits) {
		ex.writeSeq(st, s, s.Len, q)
		return SliceV{Obj: s.Obj, Path: s.Path, Off: s.Off, Len: nl, Cap: s.Cap}
	}
	if s.Obj == 0 && ex.branch(st, c.Eq(n, c.Int(0))) {
		return s
	}
	r := ex.seqCat(ex.sliceSeq(st, s), q)
	// capacity of the grown slice is at least its length
	extra := ex.fresh(st, "growcap", BVS(64))
	st.assume(c.Ule(extra, c.Int(maxLen)))
	fam := &Fam{Id: ex.fresh(st, "spare", US), Elem: ex.elemTypeOf(st, s, q)}
	o := st.newObj(&ArrV{S: ex.seqCat(r, Seq{{F: fam, Lo: c.Int(0), N: extra}})})
	return SliceV{Obj: o, Off: c.Int(0), Len: nl, Cap: c.Add(nl, extra)}
}

func (ex *Exec) elemTypeOf(st *State, s SliceV, q Seq) types.Type {
	for _, ch := range q {
		if ch.F != nil {
			return ch.F.Elem
		}
		if t, ok := ch.U.(*Term); ok && t.sort.K == SBV {
			switch t.sort.W {
			case 8:
				return types.Typ[types.Byte]
			case 16:
				return types.Typ[types.Int16]
			case 32:
				return types.Typ[types.Int32]
			case 64:
				return types.Typ[types.Int64]
			}
		}
	}
	return types.NewInterfaceType(nil, nil)
}

func (ex *Exec) binop(st *State, op token.Token, x, y Val, tx, ty types.Type) Val {
	c := ex.c
	switch op {
	case token.EQL:
		return ex.goEq(st, x, y, tx, ty)
	case token.NEQ:
		return c.Not(ex.goEq(st, x, y, tx, ty))
	}
	if s, ok := x.(StrV); ok {
		t := y.(StrV)
		switch op {
		case token.ADD:
			return StrV{S: ex.seqCat(s.S, t.S)}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a, ok := ex.seqConst(s.S); ok {
				if b, ok := ex.seqConst(t.S); ok {
					switch op {
					case token.LSS:
						return c.Bool(a < b)
					case token.LEQ:
						return c.Bool(a <= b)
					case token.GTR:
						return c.Bool(a > b)
					}
					return c.Bool(a >= b)
				}
			}
			lt := func(p, q Seq) *Term {
				r := c.UF("strlt", BoolS, ex.seqId(st, p), ex.seqId(st, q))
				r2 := c.UF("strlt", BoolS, ex.seqId(st, q), ex.seqId(st, p))
				st.assume(c.Not(c.And(r, r2)))
				eq := ex.strEq(st, p, q)
				st.assume(c.Implies(eq, c.And(c.Not(r), c.Not(r2))))
				st.assume(c.Implies(c.Not(eq), c.Or(r, r2)))
				return r
			}
			switch op {
			case token.LSS:
				return lt(s.S, t.S)
			case token.GTR:
				return lt(t.S, s.S)
			case token.LEQ:
				return c.Not(lt(t.S, s.S))
			}
			return c.Not(lt(s.S, t.S))
		}
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		unsup("binop %s on %T %T", op, x, y)
	}
	if isFloat(tx) {
		w := a.sort
		switch op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return c.UF("f"+op.String()+sortTag(w), w, a, b)
		default:
			return c.UF("f"+op.String()+sortTag(w), BoolS, a, b)
		}
	}
	if a.sort.K == SBool {
		switch op {
		case token.AND:
			return c.And(a, b)
		case token.OR:
			return c.Or(a, b)
		}
		unsup("bool op %s", op)
	}
	sg := isSigned(tx)
	switch op {
	case token.ADD:
		return c.Add(a, b)
	case token.SUB:
		return c.Sub(a, b)
	case token.MUL:
		return c.Mul(a, b)
	case token.QUO, token.REM:
		ex.check(st, c.Neq(b, c.BV(0, int(b.sort.W))), "integer divide by zero")
		switch {
		case op == token.QUO && sg:
			return c.SDiv(a, b)
		case op == token.QUO:
			return c.UDiv(a, b)
		case sg:
			return c.SRem(a, b)
		}
		return c.URem(a, b)
	case token.AND:
		return c.BvAnd(a, b)
	case token.OR:
		return c.BvOr(a, b)
	case token.XOR:
		return c.BvXor(a, b)
	case token.AND_NOT:
		w := int(b.sort.W)
		return c.BvAnd(a, c.Sub(c.BV(mask(w), w), b))
	case token.SHL, token.SHR:
		w := int(a.sort.W)
		if isSigned(ty) {
			ex.check(st, c.Sle(c.BV(0, int(b.sort.W)), b), "negative shift amount")
		}
		var s *Term
		over := c.False
		bw := int(b.sort.W)
		if bw > w {
			over = c.Not(c.Ult(b, c.BV(uint64(w), bw)))
			s = c.Extract(b, w-1, 0)
		} else {
			s = c.Zext(b, w)
		}
		if op == token.SHL {
			return c.Ite(over, c.BV(0, w), c.Shl(a, s))
		}
		if sg {
			return c.Ite(over, c.AShr(a, c.BV(uint64(w-1), w)), c.AShr(a, s))
		}
		return c.Ite(over, c.BV(0, w), c.LShr(a, s))
	case token.LSS:
		if sg {
			return c.Slt(a, b)
		}
		return c.Ult(a, b)
	case token.LEQ:
		if sg {
			return c.Sle(a, b)
		}
		return c.Ule(a, b)
	case token.GTR:
		if sg {
			return c.Slt(b, a)
		}
		return c.Ult(b, a)
	case token.GEQ:
		if sg {
			return c.Sle(b, a)
		}
		return c.Ule(b, a)
	}
	unsup("binop %s", op)
	return nil
}

// goEq is == on operands that may mix interface and concrete operands.
func (ex *Exec) goEq(st *State, x, y Val, tx, ty types.Type) *Term {
	_, xi := tx.Underlying().(*types.Interface)
	_, yi := ty.Underlying().(*types.Interface)
	if xi && !yi {
		if _, ok := y.(IfaceV); !ok {
			if t, isT := y.(*Term); !isT || t.sort.K != SU {
				y = IfaceV{T: ty, V: y}
			}
		}
	}
	if yi && !xi {
		if _, ok := x.(IfaceV); !ok {
			if t, isT := x.(*Term); !isT || t.sort.K != SU {
				x = IfaceV{T: tx, V: x}
			}
		}
	}
	if isFloat(tx) && !xi && !yi {
		a, b := x.(*Term), y.(*Term)
		return ex.c.UF("feq"+sortTag(a.sort), BoolS, a, b)
	}
	// error comparison with a sentinel: concrete dynamic types differ from it
	if u, ok := x.(*Term); ok && ex.isSentinel(u) {
		if iv, ok := y.(IfaceV); ok {
			_ = iv
			return ex.c.False
		}
	}
	if u, ok := y.(*Term); ok && ex.isSentinel(u) {
		if _, ok := x.(IfaceV); ok {
			return ex.c.False
		}
	}
	return ex.valEq(st, x, y)
}

func (ex *Exec) isSentinel(u *Term) bool {
	for _, s := range ex.s.sents {
		if s == u {
			return u != ex.nilU()
		}
	}
	return false
}

func (ex *Exec) convert(st *State, x Val, from, to types.Type) Val {
	c := ex.c
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			a := x.(*Term)
			w0, w1 := int(a.sort.W), ex.width(to)
			if w1 <= w0 {
				return c.Extract(a, w1-1, 0)
			}
			if isSigned(from) {
				return c.Sext(a, w1)
			}
			return c.Zext(a, w1)
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return x
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return ex.opaqueStr(st, "runestr", x.(*Term))
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if ex.width(from) == ex.width(to) {
				return x
			}
			return c.UF(fmt.Sprintf("fcvt%d_%d", ex.width(from), ex.width(to)), BVS(ex.width(to)), x.(*Term))
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0, fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			return c.UF(fmt.Sprintf("cvt%s_%s", fb.Name(), tb.Name()), BVS(ex.width(to)), x.(*Term))
		case fi&types.IsBoolean != 0 && ti&types.IsBoolean != 0:
			return x
		}
	}
	// string <-> []byte
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok && ex.width(sl.Elem()) == 8 {
			return ex.newSliceSeq(st, x.(StrV).S)
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if s, ok := x.(SliceV); ok && ex.width(fu.(*types.Slice).Elem()) == 8 {
			return StrV{S: ex.sliceSeq(st, s)}
		}
	}
	if tok && tb.Kind() == types.UnsafePointer || fok && fb.Kind() == types.UnsafePointer {
		return x
	}
	if types.Identical(fu, tu) {
		return x
	}
	unsup("convert %s to %s", from, to)
	return nil
}

// opaqueStr: a string determined by the given terms.
func (ex *Exec) opaqueStr(st *State, name string, args ...*Term) StrV {
	c := ex.c
	id := c.UF(name+".id"+sigOf(args), US, args...)
	n := c.UF(name+".len"+sigOf(args), BVS(64), args...)
	st.assume(c.Ule(n, c.Int(maxLen)))
	return StrV{S: Seq{{F: &Fam{Id: id, Elem: types.Typ[types.Byte]}, Lo: c.Int(0), N: n}}}
}

func (ex *Exec) typeAssert(st *State, in *ssa.TypeAssert, x Val) Val {
	c := ex.c
	fail := func() Val {
		if in.CommaOk {
			return TupV{ex.zero(in.AssertedType), c.False}
		}
		ex.check(st, c.False, "interface conversion")
		panic(deadSig{})
	}
	ok := func(v Val) Val {
		if in.CommaOk {
			return TupV{v, c.True}
		}
		return v
	}
	iface, isI := in.AssertedType.Underlying().(*types.Interface)
	switch iv := x.(type) {
	case IfaceV:
		if iv.T == nil {
			return fail()
		}
		if isI {
			impl := types.Implements(iv.T, iface)
			if h, known := ex.assertHook(st, iv, in.AssertedType); known {
				impl = h
			}
			if impl {
				return ok(iv)
			}
			return fail()
		}
		if types.Identical(iv.T, in.AssertedType) {
			return ok(iv.V)
		}
		return fail()
	case *Term:
		// opaque dynamic type
		if isI && iface.NumMethods() == 0 {
			if ex.branch(st, c.Neq(iv, ex.nilU())) {
				return ok(iv)
			}
			return fail()
		}
		p := c.And(c.Neq(iv, ex.nilU()), c.UF("is:"+in.AssertedType.String(), BoolS, iv))
		if ex.branch(st, p) {
			if isI {
				return ok(iv)
			}
			return ok(ex.symByType(in.AssertedType, func(path string, s Sort) *Term {
				return c.UF("unbox:"+in.AssertedType.String()+path+sortTag(s), s, iv)
			}))
		}
		return fail()
	}
	unsup("typeassert on %T", x)
	return nil
}

// ---- maps ----

func (ex *Exec) lazyMap(st *State, m Val) *GhostV {
	if mv, ok := m.(MapV); ok && mv.Obj != 0 {
		if g, ok := st.heap.get(mv.Obj).(*GhostV); ok && g.Kind == "LazyMap" {
			return g
		}
	}
	return nil
}

func (ex *Exec) mapLookup(st *State, m Val, k Val, mt *types.Map) (Val, *Term) {
	c := ex.c
	mv, ok := m.(MapV)
	if !ok {
		if t, ok := m.(*Term); ok {
			return ex.opaqueMapLookup(st, t, k, mt)
		}
		unsup("map lookup in %T", m)
	}
	if mv.Obj == 0 {
		return ex.zero(mt.Elem()), c.False
	}
	switch mo := st.heap.get(mv.Obj).(type) {
	case *Term:
		return ex.baseLookup(st, mo, k, mt)
	case *MapObj:
		if z, isT := ex.zero(mt.Elem()).(*Term); isT && len(mo.K) >= 4 && mo.B == nil {
			// one conditional value instead of a path for every entry
			v, found := z, c.False
			for i := range mo.K {
				e := ex.valEq(st, mo.K[i], k)
				v, found = c.Ite(e, mo.V[i].(*Term), v), c.Or(found, e)
			}
			return v, found
		}
		for i := len(mo.K) - 1; i >= 0; i-- {
			if ex.branch(st, ex.valEq(st, mo.K[i], k)) {
				return mo.V[i], c.True
			}
		}
		if mo.B != nil {
			return ex.baseLookup(st, mo.B, k, mt)
		}
		return ex.zero(mt.Elem()), c.False
	case *GhostV:
		return ex.ghostMapLookup(st, mo, mv.Obj, k, mt)
	}
	unsup("map object")
	return nil, nil
}

func (ex *Exec) mapUpdate(st *State, m Val, k, v Val, mt *types.Map) {
	mv, ok := m.(MapV)
	if !ok {
		unsup("map update of %T", m)
	}
	if mv.Obj == 0 {
		ex.check(st, ex.c.False, "assignment to entry in nil map")
		panic(deadSig{})
	}
	switch mo := st.heap.get(mv.Obj).(type) {
	case *Term:
		// storing what is stored already changes nothing
		ts := []*Term{mo}
		ex.leafTerms(st, k, &ts)
		if ex.entailsQ(st, ex.c.UF("maphas"+sigOf(ts), BoolS, ts...)) {
			if old, _ := ex.baseLookup(st, mo, k, mt); ex.entailsQ(st, ex.valEq(st, old, v)) {
				return
			}
		}
		st.heap.set(mv.Obj, &MapObj{K: []Val{k}, V: []Val{v}, B: mo})
		return
	case *MapObj:
		for i := range mo.K {
			if ex.branch(st, ex.valEq(st, mo.K[i], k)) {
				n := &MapObj{K: mo.K, V: append([]Val{}, mo.V...), B: mo.B}
				n.V[i] = v
				st.heap.set(mv.Obj, n)
				return
			}
		}
		st.heap.set(mv.Obj, &MapObj{K: append(mo.K[:len(mo.K):len(mo.K)], k), V: append(mo.V[:len(mo.V):len(mo.V)], v), B: mo.B})
		return
	case *GhostV:
		ex.ghostMapUpdate(st, mo, mv.Obj, k, v)
		return
	}
	unsup("map object")
}

type rangeIter struct {
	keys, vals []Val
	str        Seq
	isStr      bool
}

func (ex *Exec) rangeStart(st *State, x Val, t types.Type) Val {
	switch m := x.(type) {
	case MapV:
		if m.Obj == 0 {
			return rangeIter{}
		}
		mo, ok := st.heap.get(m.Obj).(*MapObj)
		if !ok || mo.B != nil {
			unsup("range over ghost map")
		}
		return rangeIter{keys: mo.K, vals: mo.V}
	}
	unsup("range over %T", x)
	return nil
}

func (ex *Exec) rangeNext(st *State, it Val, in *ssa.Next) (Val, Val) {
	r := it.(rangeIter)
	tup := in.Type().(*types.Tuple)
	if len(r.keys) == 0 {
		v := TupV{ex.c.False}
		for i := 1; i < tup.Len(); i++ {
			if b, ok := tup.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				v = append(v, nil)
				continue
			}
			v = append(v, ex.zero(tup.At(i).Type()))
		}
		return r, v
	}
	// any remaining key may come next
	pick := 0
	for pick < len(r.keys)-1 {
		b := ex.fresh(st, "maporder", BoolS)
		if ex.branch(st, b) {
			break
		}
		pick++
	}
	n := rangeIter{keys: append(append([]Val{}, r.keys[:pick]...), r.keys[pick+1:]...), vals: append(append([]Val{}, r.vals[:pick]...), r.vals[pick+1:]...)}
	return n, TupV{ex.c.True, r.keys[pick], r.vals[pick]}
}
