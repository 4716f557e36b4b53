package main

// The vocabulary of the contracts (package vspec/gv).

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) freshSlice(st *State, name string, et types.Type, maybeNil bool) SliceV {
	c := ex.c
	st.fresh++
	base := fmt.Sprintf("%s!%d", name, st.fresh)
	id := c.Var(base+".id", US)
	n, k := c.Var(base+".len", BVS(64)), c.Var(base+".cap", BVS(64))
	st.assume(c.Ule(n, k))
	st.assume(c.Ule(k, c.Int(maxLen)))
	o := st.newObj(&ArrV{S: Seq{{F: &Fam{Id: id, Elem: et}, Lo: c.Int(0), N: k}}})
	s := SliceV{Obj: o, Off: c.Int(0), Len: n, Cap: k}
	if maybeNil {
		s.Nil = c.Var(base+".nil", BoolS)
		st.assume(c.Implies(s.Nil, c.Eq(k, c.Int(0))))
	}
	return s
}

func (ex *Exec) newSource(st *State) PtrV {
	c := ex.c
	st.fresh++
	b := fmt.Sprintf("src!%d", st.fresh)
	n := c.Var(b+".n", BVS(64))
	e := c.Var(b+".err", US)
	st.assume(c.Ule(n, c.Int(maxLen)))
	st.assume(c.Neq(e, ex.nilU()))
	g := ex.ghostZero(ex.W.namedType("vspec/gv", "Source")).(*GhostV)
	g = g.with("id", c.Var(b+".id", US)).with("n", n).with("serr", e)
	return PtrV{Obj: st.newObj(g)}
}

func (ex *Exec) srcIface(p PtrV) IfaceV {
	return IfaceV{T: types.NewPointer(ex.W.namedType("vspec/gv", "Source")), V: p}
}

func constStrArg(ex *Exec, v Val) string {
	s, ok := ex.seqConst(v.(StrV).S)
	if !ok {
		unsup("label is not a constant string")
	}
	return s
}

func init() {
	reg := func(name string, m model) { models["vspec/gv."+name] = m }
	fresh := func(t *types.Basic, name string) model {
		return func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
			return ex.freshVal(st, name, t)
		}
	}
	reg("Bool", fresh(types.Typ[types.Bool], "bool"))
	reg("Byte", fresh(types.Typ[types.Uint8], "byte"))
	reg("Int16", fresh(types.Typ[types.Int16], "i16"))
	reg("Int32", fresh(types.Typ[types.Int32], "i32"))
	reg("Int64", fresh(types.Typ[types.Int64], "i64"))
	reg("Int", fresh(types.Typ[types.Int], "int"))
	reg("Uint64", fresh(types.Typ[types.Uint64], "u64"))
	reg("Float64", fresh(types.Typ[types.Float64], "f64"))
	reg("String", fresh(types.Typ[types.String], "str"))
	reg("Size", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		t := ex.fresh(st, "size", BVS(64))
		st.assume(ex.c.Ule(t, ex.c.Int(maxLen)))
		return t
	})
	reg("Bytes", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		return ex.freshSlice(st, "bytes", types.Typ[types.Byte], true)
	})
	reg("UUID", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		return ex.freshVal(st, "uuid", in.Type())
	})
	reg("Error", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		t := ex.fresh(st, "someerr", US)
		st.assume(ex.c.Neq(t, ex.nilU()))
		return t
	})
	reg("Choose", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		n := a[0].(*Term)
		t := ex.fresh(st, "choose", BVS(64))
		if !isConst(n) {
			st.assume(ex.c.Ult(t, n))
			return t
		}
		for i := int64(0); i < int64(n.val)-1; i++ {
			if ex.branch(st, ex.c.Eq(t, ex.c.Int(i))) {
				return ex.c.Int(i)
			}
		}
		return ex.c.Int(int64(n.val) - 1)
	})
	reg("Loop", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		return ex.fresh(st, "again", BoolS)
	})
	reg("Assume", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		st.assume(a[0].(*Term))
		if st.dead || ex.sat(st) == Unsat {
			panic(deadSig{})
		}
		return nil
	})
	reg("Ensure", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		ex.oblige(st, constStrArg(ex, a[0]), constStrArg(ex, a[1]), a[2].(*Term))
		return nil
	})
	reg("Reach", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		l := constStrArg(ex, a[0])
		if ex.trial == 0 && !ex.Reached[l] && ex.s.Check(st.pc, true) != Unsat {
			ex.Reached[l] = true
		}
		return nil
	})
	reg("Progress", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		ex.progress = append(ex.progress[:0:0], progress{constStrArg(ex, a[0]), constStrArg(ex, a[1]), a[2].(PtrV)})
		return nil
	})
	reg("Symbolic", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val { return ex.c.True })
	nop := func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val { return nil }
	reg("Note", nop)
	reg("note", nop)
	reg("EqBytes", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		return ex.strEq(st, ex.sliceSeq(st, a[0].(SliceV)), ex.sliceSeq(st, a[1].(SliceV)))
	})
	reg("Owned", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		s := a[0].(SliceV)
		if s.Obj == 0 {
			return ex.c.True
		}
		if _, vol := st.ghost[fmt.Sprintf("vol:%d", s.Obj)]; vol {
			return ex.c.Eq(s.Len, ex.c.Int(0))
		}
		return ex.c.True
	})
	reg("SameError", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		e := a[0]
		r := ex.c.False
		for i := 0; i < 8; i++ {
			switch x := e.(type) {
			case *Term:
				return ex.c.Or(r, ex.valEq(st, x, a[1]))
			case IfaceV:
				if x.T == nil {
					return r
				}
				if y, ok := a[1].(IfaceV); ok {
					r = ex.c.Or(r, ex.valEq(st, x, y))
				}
				if x.T.String() == "*fmt.wrapError" {
					e = ex.load(st, x.V).(*StructV).F[1]
					continue
				}
				p, ok := x.V.(PtrV)
				if f := ex.findMethod(x.T, "Unwrap"); f != nil && ok {
					// an error type of the code under verification: take the
					// error-typed field its Unwrap returns
					if v, ok := ex.unwrapField(st, f, p); ok {
						e = v
						continue
					}
					unsup("Unwrap of %s", x.T)
				}
				return r
			default:
				unsup("SameError on %T", e)
			}
		}
		return r
	})

	// ---- ghosts of package reflect, and containers given by functions ----
	reg("Wrap", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		v := ex.zero(in.Type()).(*StructV)
		return &StructV{F: append([]Val{v.F[0], a[0]}, v.F[2:]...)}
	})
	reg("Unwrap", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		v, ok := a[0].(*StructV)
		if !ok {
			unsup("Unwrap of %T", a[0])
		}
		if iv, ok := v.F[1].(IfaceV); ok {
			return iv
		}
		return IfaceV{}
	})
	reg("Lazy", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		n := a[0].(*Term)
		o := st.newObj(&GhostV{Kind: "Lazy", F: map[string]Val{"at": a[1]}})
		return SliceV{Obj: o, Off: ex.c.Int(0), Len: n, Cap: n}
	})
	reg("LazyMap", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		return MapV{Obj: st.newObj(&GhostV{Kind: "LazyMap", F: map[string]Val{"get": a[0]}})}
	})

	// ---- sources ----
	reg("NewSource", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val { return ex.newSource(st) })
	src := func(ex *Exec, st *State, v Val) *GhostV { return ex.ghost(st, v, "Source") }
	reg("Total", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val { return src(ex, st, a[0]).T("n") })
	reg("At", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		s := src(ex, st, a[0])
		i := a[1].(*Term)
		ex.oblige(st, "", "spec-wellformed: stream index", ex.c.Ult(i, s.T("n")))
		if q, ok := s.F["seq"].(StrV); ok {
			return ex.seqAt(st, q.S, i)
		}
		return ex.famElem(&Fam{Id: s.T("id"), Elem: types.Typ[types.Byte]}, i)
	})
	reg("Seg", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		s := src(ex, st, a[0])
		c := ex.c
		lo, n := a[1].(*Term), a[2].(*Term)
		ex.oblige(st, "", "spec-wellformed: stream segment", c.And(c.Ule(lo, s.T("n")), c.Ule(n, c.Sub(s.T("n"), lo))))
		if q, ok := s.F["seq"].(StrV); ok {
			return StrV{S: ex.seqSub(st, q.S, lo, c.Add(lo, n))}
		}
		return StrV{S: ex.seg(s.T("id"), lo, n)}
	})
	reg("Fn", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		s := src(ex, st, a[1])
		if s.F["seq"] != nil {
			if _, ok := s.F["seq"].(StrV); ok {
				unsup("abstracted function of a concrete stream")
			}
		}
		return ex.c.UF(constStrArg(ex, a[0]), BVS(64), s.T("id"), a[2].(*Term))
	})
	reg("NewSourceOf", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		p := ex.newSource(st)
		g := ex.ghost(st, p, "Source")
		q := a[0].(StrV)
		ex.store(st, p, g.with("seq", q).with("n", ex.seqLen(q.S)))
		return p
	})
	reg("End", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val { return src(ex, st, a[0]).T("serr") })
	reg("Demand", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		return src(ex, st, a[0]).T("demand")
	})
	reg("ArbReader", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		c := ex.c
		sp := ex.newSource(st)
		st.fresh++
		b := fmt.Sprintf("rd!%d", st.fresh)
		size := c.Var(b+".size", BVS(64))
		st.assume(c.Ule(c.Int(16), size))
		st.assume(c.Ule(size, c.Int(maxLen)))
		rp := ex.newReader(st, ex.srcIface(sp), size).(PtrV)
		pos, buf, d := c.Var(b+".pos", BVS(64)), c.Var(b+".buf", BVS(64)), c.Var(b+".demand", BVS(64))
		g := ex.ghost(st, rp, "Reader").with("pos", pos).with("b", buf)
		ex.store(st, rp, g)
		s := src(ex, st, sp)
		ex.store(st, sp, s.with("demand", d))
		ex.ghostInv(st, g)
		st.assume(c.Ule(d, c.Add(pos, buf)))
		return TupV{rp, sp}
	})
	reg("Pos", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		g, _, _ := ex.rdr(st, a[1])
		return g.T("pos")
	})
	reg("SourceOf", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		_, sp, _ := ex.rdr(st, a[0])
		return sp
	})
	reg("Commit", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		c := ex.c
		g, _, s := ex.rdr(st, a[0])
		np := a[1].(*Term)
		st.assume(c.Ule(g.T("pos"), np))
		st.assume(c.Ule(np, s.T("n")))
		n := c.Sub(np, g.T("pos"))
		if n.isConstVal(0) {
			return nil
		}
		ex.stale(st, a[0])
		ex.rdDiscard(st, a[0], n)
		return nil
	})
	reg("Exhaust", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		c := ex.c
		ex.stale(st, a[0])
		g, sp, s := ex.rdr(st, a[0])
		d := ex.fresh(st, "demand", BVS(64))
		st.assume(c.Ule(s.T("demand"), d))
		ng := g.with("pos", s.T("n")).with("b", c.Int(0))
		ex.store(st, a[0], ng)
		ex.store(st, sp, s.with("demand", d))
		ex.ghostInv(st, ng)
		return nil
	})
	reg("Lose", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		c := ex.c
		ex.stale(st, a[0])
		g, sp, s := ex.rdr(st, a[0])
		p, b := ex.fresh(st, "lost", BVS(64)), ex.fresh(st, "buf", BVS(64))
		d := ex.fresh(st, "demand", BVS(64))
		st.assume(c.Ule(s.T("demand"), d))
		st.assume(c.Ule(g.T("pos"), p))
		ng := g.with("pos", p).with("b", b)
		ex.store(st, a[0], ng)
		ex.store(st, sp, s.with("demand", d))
		ex.ghostInv(st, ng)
		return nil
	})
	reg("AllocBound", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		st.setGhost("alloc", a[0])
		return nil
	})

	// ---- sinks ----
	snk := func(ex *Exec, st *State, v Val) *GhostV { return ex.ghost(st, v, "Sink") }
	reg("initSink", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		s := snk(ex, st, a[0])
		e := ex.fresh(st, "sinkerr", US)
		st.assume(ex.c.Neq(e, ex.nilU()))
		ex.store(st, a[0], s.with("serr", e))
		return nil
	})
	reg("Received", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		s := snk(ex, st, a[0])
		q := s.F["acc"].(StrV).S
		p := s.T("pend")
		if p.isConstVal(0) || ex.branch(st, ex.c.Eq(p, ex.c.Int(0))) {
			return StrV{S: q}
		}
		n := ex.seqLen(q)
		st.assume(ex.c.Ule(p, n))
		return StrV{S: ex.seqSub(st, q, ex.c.Int(0), ex.c.Sub(n, p))}
	})
	reg("Failed", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val { return snk(ex, st, a[0]).T("failed") })
	reg("SinkErr", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val { return snk(ex, st, a[0]).T("serr") })
}

// stale: slices handed out by the reader may be overwritten now.
func (ex *Exec) stale(st *State, p Val) {
	g := ex.ghost(st, p, "Reader")
	if v, ok := g.F["vol"].(PtrV); ok && v.Obj != 0 {
		if a, ok := st.heap.get(v.Obj).(*ArrV); ok {
			st.heap.set(v.Obj, &ArrV{S: Seq{{F: &Fam{Id: ex.fresh(st, "stale", US), Elem: types.Typ[types.Byte]}, Lo: ex.c.Int(0), N: ex.seqLen(a.S)}}})
		}
		ex.store(st, p, g.with("vol", PtrV{}))
	}
}

// unwrapField recognises `func (e *T) Unwrap() error { return e.f }`.
func (ex *Exec) unwrapField(st *State, f *ssa.Function, p PtrV) (Val, bool) {
	if f.Blocks == nil || len(f.Blocks) != 1 || p.Obj == 0 {
		return nil, false
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return nil, false
	}
	u, ok := ret.Results[0].(*ssa.UnOp)
	if !ok {
		return nil, false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || fa.X != f.Params[0] {
		return nil, false
	}
	return ex.load(st, PtrV{Obj: p.Obj, Path: append(p.Path[:len(p.Path):len(p.Path)], Step{Field: fa.Field})}), true
}
