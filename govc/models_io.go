package main

// Assumed contracts of the standard library: bufio, io, strings.Builder,
// errors, fmt, math, bytes.  They are stated over ghost state (stream,
// position, buffered amount; accepted bytes, sticky error).

import (
	"fmt"
	"go/types"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) isNil() IfaceV { return IfaceV{} }

// ghostZero: the zero value of modelled struct types.
func (ex *Exec) ghostZero(t types.Type) Val {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	c := ex.c
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "strings.Builder", "bytes.Buffer":
		return &GhostV{Kind: "Builder", F: map[string]Val{"s": StrV{}}}
	case "bufio.Reader":
		return &GhostV{Kind: "Reader", F: map[string]Val{"rd": IfaceV{}, "pos": c.Int(0), "b": c.Int(0), "size": c.Int(0), "att": c.False, "vol": PtrV{}}}
	case "bufio.Writer":
		return &GhostV{Kind: "Writer", F: map[string]Val{"dst": IfaceV{}, "n": c.Int(0), "size": c.Int(0), "err": ex.nilU()}}
	case "vspec/gv.Source":
		return &GhostV{Kind: "Source", F: map[string]Val{"id": ex.nilU(), "n": c.Int(0), "serr": ex.nilU(), "owner": PtrV{}, "taken": c.Int(0), "demand": c.Int(0)}}
	case "vspec/gv.Sink":
		return &GhostV{Kind: "Sink", F: map[string]Val{"acc": StrV{}, "pend": c.Int(0), "failed": c.False, "serr": ex.nilU()}}
	case "sync.Once":
		return &GhostV{Kind: "Once", F: map[string]Val{"done": c.False}}
	case "sync.Map":
		return &GhostV{Kind: "SyncMap", F: map[string]Val{}}
	case "sync.Mutex", "sync.RWMutex":
		return &GhostV{Kind: "Mutex", F: map[string]Val{}}
	}
	return nil
}

// ghostInv: facts every modelled object satisfies by construction.
func (ex *Exec) ghostInv(st *State, g *GhostV) {
	c := ex.c
	switch g.Kind {
	case "Reader":
		iv, ok := g.F["rd"].(IfaceV)
		if !ok || iv.T == nil {
			return
		}
		if p, ok := iv.V.(PtrV); ok {
			if s, ok := ex.load(st, p).(*GhostV); ok && s.Kind == "Source" {
				n := s.T("n")
				st.assume(c.Ule(g.T("pos"), n))
				st.assume(c.Ule(g.T("b"), c.Sub(n, g.T("pos"))))
				st.assume(c.Ule(g.T("b"), g.T("size")))
			}
		}
	case "Writer":
		st.assume(c.Ule(g.T("n"), g.T("size")))
	case "Sink":
		st.assume(c.Ule(g.T("pend"), ex.seqLen(g.F["acc"].(StrV).S)))
	}
}

func (ex *Exec) ghost(st *State, p Val, kind string) *GhostV {
	if pp, ok := p.(PtrV); !ok || pp.Obj == 0 {
		if ok {
			ex.check(st, ex.c.False, "nil pointer dereference")
			panic(deadSig{})
		}
		unsup("ghost %s through %T", kind, p)
	}
	g, ok := ex.load(st, p).(*GhostV)
	if !ok || g.Kind != kind {
		unsup("expected modelled %s", kind)
	}
	return g
}

func sameObj(a, b Val) bool {
	x, ok1 := a.(PtrV)
	y, ok2 := b.(PtrV)
	if !ok1 || !ok2 || x.Obj != y.Obj || len(x.Path) != len(y.Path) {
		return false
	}
	for i := range x.Path {
		if x.Path[i].Index != y.Path[i].Index || x.Path[i].Field != y.Path[i].Field {
			return false
		}
	}
	return true
}

// reader: attach a bufio.Reader to its source and return ghost state.
func (ex *Exec) rdr(st *State, p Val) (g *GhostV, sp PtrV, s *GhostV) {
	g = ex.ghost(st, p, "Reader")
	iv, ok := g.F["rd"].(IfaceV)
	if !ok {
		unsup("bufio.Reader over an opaque reader")
	}
	if iv.T == nil {
		unsup("bufio.Reader without a source")
	}
	sp, ok = iv.V.(PtrV)
	if !ok || !strings.HasSuffix(iv.T.String(), "gv.Source") {
		unsup("bufio.Reader over %s", iv.T)
	}
	s = ex.ghost(st, sp, "Source")
	if !sameObj(s.F["owner"], p) {
		if g.T("att") != ex.c.False {
			unsup("two readers alternate on one source")
		}
		taken := ex.srcTaken(st, s)
		g = g.with("pos", taken).with("b", ex.c.Int(0)).with("att", ex.c.True)
		s = s.with("owner", p)
		ex.store(st, p, g)
		ex.store(st, sp, s)
	}
	return
}

func (ex *Exec) srcTaken(st *State, s *GhostV) *Term {
	if o, ok := s.F["owner"].(PtrV); ok && o.Obj != 0 {
		og := ex.ghost(st, o, "Reader")
		return ex.c.Add(og.T("pos"), og.T("b"))
	}
	return s.T("taken")
}

func (ex *Exec) seg(id, lo, n *Term) Seq {
	if n.isConstVal(0) {
		return nil
	}
	f := &Fam{Id: id, Elem: types.Typ[types.Byte]}
	if isConst(n) && n.val <= 64 {
		q := make(Seq, 0, n.val)
		for i := uint64(0); i < n.val; i++ {
			q = append(q, Chunk{U: ex.famElem(f, ex.c.Add(lo, ex.c.Int(int64(i))))})
		}
		return q
	}
	return Seq{{F: f, Lo: lo, N: n}}
}

// want makes m (m >= 0) bytes available in the reader's buffer if the stream
// has them; reports success.  m <= size must hold.
func (ex *Exec) rdNeed(st *State, p Val, m *Term, fit bool) bool {
	c := ex.c
	g, sp, s := ex.rdr(st, p)
	pos, b, n := g.T("pos"), g.T("b"), s.T("n")
	have := c.Ule(m, b)
	st.assume(c.Ule(pos, n))
	if v, ok := g.F["vol"].(PtrV); ok && v.Obj != 0 && !ex.entailsQ(st, have) {
		// the buffer may be refilled: slices handed out earlier are stale
		if a, ok := st.heap.get(v.Obj).(*ArrV); ok {
			st.heap.set(v.Obj, &ArrV{S: Seq{{F: &Fam{Id: ex.fresh(st, "stale", US), Elem: types.Typ[types.Byte]}, Lo: c.Int(0), N: ex.seqLen(a.S)}}})
		}
		g = g.with("vol", PtrV{})
	}
	end := c.Add(pos, m)
	d := s.T("demand")
	nd := c.Ite(c.Or(have, c.Ule(end, d)), d, end)
	s = s.with("demand", nd)
	ok := ex.branch(st, c.Ule(m, c.Sub(n, pos)))
	if ok {
		if !ex.entailsQ(st, have) {
			nb := ex.fresh(st, "buf", BVS(64))
			st.assume(c.Ule(m, nb))
			st.assume(c.Ule(b, nb))
			st.assume(c.Ule(nb, c.Sub(n, pos)))
			if fit {
				st.assume(c.Ule(nb, g.T("size")))
			}
			st.assume(c.Implies(have, c.Eq(nb, b)))
			g = g.with("b", nb)
		}
	} else {
		g = g.with("b", c.Sub(n, pos))
	}
	ex.store(st, sp, s)
	ex.store(st, p, g)
	return ok
}

// rdTake consumes m bytes already made available (or skipped over).
func (ex *Exec) rdTake(st *State, p Val, m *Term) {
	c := ex.c
	g := ex.ghost(st, p, "Reader")
	ex.store(st, p, g.with("pos", c.Add(g.T("pos"), m)).with("b", c.Sub(g.T("b"), m)))
}

func (ex *Exec) mkBytes(st *State, q Seq) SliceV { return ex.newSliceSeq(st, q) }

// sentinel error of a package variable
func (ex *Exec) sentinel(name string) *Term {
	t := ex.c.Var("global:"+name, US)
	for _, s := range ex.s.sents {
		if s == t {
			return t
		}
	}
	if len(ex.s.sents) == 0 {
		ex.s.sents = append(ex.s.sents, ex.nilU())
	}
	ex.s.sents = append(ex.s.sents, t)
	return t
}

// freshErr: a new non-nil error value.
func (ex *Exec) freshErr(st *State, why string, wrapped []Val) Val {
	et := ex.W.namedType("errors", "errorString")
	if et == nil {
		u := ex.fresh(st, "err", US)
		st.assume(ex.c.Neq(u, ex.nilU()))
		return u
	}
	if len(wrapped) > 0 {
		if wt := ex.W.namedType("fmt", "wrapError"); wt != nil {
			msg := ex.freshVal(st, "msg", types.Typ[types.String])
			o := st.newObj(&StructV{F: []Val{msg, wrapped[0]}})
			return IfaceV{T: types.NewPointer(wt), V: PtrV{Obj: o}}
		}
	}
	msg := ex.freshVal(st, "msg", types.Typ[types.String])
	o := st.newObj(&StructV{F: []Val{msg}})
	return IfaceV{T: types.NewPointer(et), V: PtrV{Obj: o}}
}

func (ex *Exec) wr(st *State, p Val) (g *GhostV, sp PtrV, s *GhostV) {
	g = ex.ghost(st, p, "Writer")
	iv, ok := g.F["dst"].(IfaceV)
	if !ok || iv.T == nil {
		unsup("bufio.Writer over an opaque writer")
	}
	pp, ok := iv.V.(PtrV)
	if !ok {
		unsup("bufio.Writer over %s", iv.T)
	}
	sp = ex.sinkPtr(st, iv.T, pp)
	s = ex.ghost(st, sp, "Sink")
	return
}

func (ex *Exec) sinkPtr(st *State, t types.Type, p PtrV) PtrV {
	switch {
	case strings.HasSuffix(t.String(), "gv.Sink"):
		return p
	case strings.HasSuffix(t.String(), "gv.FlushSink"):
		return PtrV{Obj: p.Obj, Path: append(p.Path[:len(p.Path):len(p.Path)], Step{Field: 0})}
	}
	unsup("writer destination %s", t)
	return p
}

// wrFail: the destination refuses data; the error sticks.
func (ex *Exec) wrFail(st *State, p Val) Val {
	g, sp, s := ex.wr(st, p)
	ex.store(st, sp, s.with("failed", ex.c.True))
	ex.store(st, p, g.with("err", s.T("serr")))
	return s.T("serr")
}

// wrWrite accepts q into the buffer, possibly flushing.  Returns the error.
func (ex *Exec) wrWrite(st *State, p Val, q Seq) Val {
	c := ex.c
	g, sp, s := ex.wr(st, p)
	if !ex.branch(st, c.Eq(g.T("err"), ex.nilU())) {
		ex.store(st, sp, s.with("acc", StrV{S: ex.seqCat(s.F["acc"].(StrV).S, q)}))
		return g.T("err")
	}
	n := ex.seqLen(q)
	avail := c.Sub(g.T("size"), g.T("n"))
	st.assume(c.Ule(g.T("n"), g.T("size")))
	nn := c.Add(g.T("n"), n)
	fits := c.Ule(n, avail)
	if !ex.entailsQ(st, fits) {
		if ex.branch(st, c.And(ex.fresh(st, "sinkfail", BoolS), c.Not(fits))) {
			// the accepted sequence keeps growing logically; the destination
			// is marked as having refused
			acc := ex.seqCat(s.F["acc"].(StrV).S, q)
			ex.store(st, sp, s.with("acc", StrV{S: acc}))
			return ex.wrFail(st, p)
		}
		nb := ex.fresh(st, "wbuf", BVS(64))
		st.assume(c.Ule(nb, g.T("size")))
		st.assume(c.Ite(fits, c.Eq(nb, nn), c.Ule(nb, n)))
		nn = nb
	}
	acc := ex.seqCat(s.F["acc"].(StrV).S, q)
	ex.store(st, sp, s.with("acc", StrV{S: acc}).with("pend", nn))
	ex.store(st, p, g.with("n", nn))
	return IfaceV{}
}

func (ex *Exec) wrFlush(st *State, p Val) Val {
	c := ex.c
	g, sp, s := ex.wr(st, p)
	if !ex.branch(st, c.Eq(g.T("err"), ex.nilU())) {
		return g.T("err")
	}
	if ex.branch(st, c.Eq(g.T("n"), c.Int(0))) {
		return IfaceV{}
	}
	if ex.branch(st, ex.fresh(st, "sinkfail", BoolS)) {
		return ex.wrFail(st, p)
	}
	ex.store(st, sp, s.with("pend", c.Int(0)))
	ex.store(st, p, g.with("n", c.Int(0)))
	return IfaceV{}
}

// attach binds a reader to its source as soon as it is created.
func (ex *Exec) attach(st *State, p PtrV) {
	g := ex.ghost(st, p, "Reader")
	iv, ok := g.F["rd"].(IfaceV)
	if !ok || iv.T == nil || !strings.HasSuffix(iv.T.String(), "gv.Source") {
		return
	}
	ex.rdr(st, p)
}

func (ex *Exec) newReader(st *State, rd Val, size *Term) Val {
	g := ex.ghostZero(ex.W.namedType("bufio", "Reader")).(*GhostV)
	p := PtrV{Obj: st.newObj(g.with("rd", rd).with("size", size))}
	ex.attach(st, p)
	return p
}
func (ex *Exec) newWriter(st *State, w Val, size *Term) Val {
	g := ex.ghostZero(ex.W.namedType("bufio", "Writer")).(*GhostV)
	return PtrV{Obj: st.newObj(g.with("dst", w).with("size", size))}
}

func (ex *Exec) asSlice(st *State, v Val) SliceV {
	s, ok := v.(SliceV)
	if !ok {
		unsup("slice expected, got %T", v)
	}
	return s
}

func init() {
	reg := func(name string, m model) { models[name] = m }
	intT := types.Typ[types.Int]
	_ = intT

	// ---- bufio.Reader ----
	newR := func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		size := ex.c.Int(4096)
		if len(a) > 1 {
			size = a[1].(*Term)
			size = ex.c.Ite(ex.c.Slt(size, ex.c.Int(16)), ex.c.Int(16), size)
		}
		if iv, ok := a[0].(IfaceV); ok && iv.T != nil && iv.T.String() == "*bufio.Reader" {
			g := ex.ghost(st, iv.V, "Reader")
			if ex.branch(st, ex.c.Sle(size, g.T("size"))) {
				return iv.V
			}
			unsup("bufio.Reader over bufio.Reader")
		}
		return ex.newReader(st, a[0], size)
	}
	reg("bufio.NewReader", newR)
	reg("bufio.NewReaderSize", newR)
	reg("(*bufio.Reader).Reset", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		g := ex.ghost(st, a[0], "Reader")
		// detach from the previous source: what was buffered is dropped
		if iv, ok := g.F["rd"].(IfaceV); ok && iv.T != nil {
			if sp, ok := iv.V.(PtrV); ok {
				if s, ok := ex.load(st, sp).(*GhostV); ok && s.Kind == "Source" && sameObj(s.F["owner"], a[0]) {
					ex.store(st, sp, s.with("taken", ex.srcTaken(st, s)).with("owner", PtrV{}))
				}
			}
		}
		size := g.T("size")
		if size.isConstVal(0) {
			size = ex.c.Int(4096)
		}
		ex.store(st, a[0], g.with("rd", a[1]).with("att", ex.c.False).with("b", ex.c.Int(0)).with("pos", ex.c.Int(0)).with("size", size).with("vol", PtrV{}))
		ex.attach(st, a[0].(PtrV))
		return nil
	})
	reg("(*bufio.Reader).Size", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		return ex.ghost(st, a[0], "Reader").T("size")
	})
	reg("(*bufio.Reader).Buffered", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		g, _, _ := ex.rdr(st, a[0])
		return g.T("b")
	})
	reg("(*bufio.Reader).Peek", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		c := ex.c
		n := a[1].(*Term)
		if ex.branch(st, c.Slt(n, c.Int(0))) {
			return TupV{ex.zero(types.NewSlice(types.Typ[types.Byte])), ex.sentinel("bufio.ErrNegativeCount")}
		}
		g, _, _ := ex.rdr(st, a[0])
		size := g.T("size")
		m := n
		var err Val = IfaceV{}
		over := !ex.branch(st, c.Ule(n, size))
		if over {
			m = size
			err = ex.sentinel("bufio.ErrBufferFull")
		}
		ok := ex.rdNeed(st, a[0], m, true)
		g, _, s := ex.rdr(st, a[0])
		k := m
		if !ok {
			k = c.Sub(s.T("n"), g.T("pos"))
			if !over {
				err = s.T("serr")
			}
		}
		q := ex.seg(s.T("id"), g.T("pos"), k)
		o := st.newObj(&ArrV{S: q})
		st.setGhost(fmt.Sprintf("vol:%d", o), ex.c.True)
		ex.store(st, a[0], g.with("vol", PtrV{Obj: o}))
		return TupV{SliceV{Obj: o, Off: c.Int(0), Len: k, Cap: k}, err}
	})
	reg("(*bufio.Reader).Discard", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		c := ex.c
		n := a[1].(*Term)
		if ex.branch(st, c.Slt(n, c.Int(0))) {
			return TupV{c.Int(0), ex.sentinel("bufio.ErrNegativeCount")}
		}
		if ex.branch(st, c.Eq(n, c.Int(0))) {
			return TupV{n, IfaceV{}}
		}
		return ex.rdDiscard(st, a[0], n)
	})
	reg("(*bufio.Reader).ReadByte", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		c := ex.c
		if ex.rdNeed(st, a[0], c.Int(1), true) {
			g, _, s := ex.rdr(st, a[0])
			v := ex.famElem(&Fam{Id: s.T("id"), Elem: types.Typ[types.Byte]}, g.T("pos"))
			ex.rdTake(st, a[0], c.Int(1))
			return TupV{v, IfaceV{}}
		}
		_, _, s := ex.rdr(st, a[0])
		return TupV{c.BV(0, 8), s.T("serr")}
	})
	reg("(*bufio.Reader).Read", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		c := ex.c
		p := ex.asSlice(st, a[1])
		if ex.branch(st, c.Eq(p.Len, c.Int(0))) {
			return TupV{c.Int(0), IfaceV{}}
		}
		if !ex.rdNeed(st, a[0], c.Int(1), true) {
			_, _, s := ex.rdr(st, a[0])
			return TupV{c.Int(0), s.T("serr")}
		}
		g, sp, s := ex.rdr(st, a[0])
		k := ex.fresh(st, "nread", BVS(64))
		st.assume(c.Ule(c.Int(1), k))
		st.assume(c.Ule(k, p.Len))
		st.assume(c.Ule(k, c.Sub(s.T("n"), g.T("pos"))))
		ex.writeSeq(st, p, c.Int(0), ex.seg(s.T("id"), g.T("pos"), k))
		nb := ex.fresh(st, "buf", BVS(64))
		np := c.Add(g.T("pos"), k)
		st.assume(c.Ule(nb, c.Sub(s.T("n"), np)))
		st.assume(c.Ule(nb, g.T("size")))
		st.assume(c.Implies(c.Ule(k, g.T("b")), c.Eq(nb, c.Sub(g.T("b"), k))))
		_ = sp
		ex.store(st, a[0], g.with("pos", np).with("b", nb))
		return TupV{k, IfaceV{}}
	})
	readFull := func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		c := ex.c
		iv, ok := a[0].(IfaceV)
		if !ok || iv.T == nil {
			unsup("io.ReadFull on opaque reader")
		}
		rp := iv.V
		if iv.T.String() != "*bufio.Reader" {
			// a struct embedding *bufio.Reader
			rp = ex.embeddedReader(st, iv)
		}
		buf := ex.asSlice(st, a[1])
		if ex.branch(st, c.Eq(buf.Len, c.Int(0))) {
			return TupV{c.Int(0), IfaceV{}}
		}
		g, _, s := ex.rdr(st, rp)
		pos := g.T("pos")
		if ex.branch(st, c.Ule(buf.Len, c.Sub(s.T("n"), pos))) {
			ex.rdDiscard(st, rp, buf.Len)
			ex.writeSeq(st, buf, c.Int(0), ex.seg(s.T("id"), pos, buf.Len))
			return TupV{buf.Len, IfaceV{}}
		}
		k := c.Sub(s.T("n"), pos)
		ex.rdDiscard(st, rp, buf.Len)
		junk := &Fam{Id: ex.fresh(st, "partial", US), Elem: types.Typ[types.Byte]}
		ex.writeSeq(st, buf, c.Int(0), Seq{{F: junk, Lo: c.Int(0), N: buf.Len}})
		if ex.branch(st, c.Eq(k, c.Int(0))) {
			return TupV{c.Int(0), s.T("serr")}
		}
		if ex.branch(st, c.Eq(s.T("serr"), ex.sentinel("io.EOF"))) {
			return TupV{k, ex.sentinel("io.ErrUnexpectedEOF")}
		}
		return TupV{k, s.T("serr")}
	}
	reg("io.ReadFull", readFull)

	// ---- bufio.Writer ----
	newW := func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		size := ex.c.Int(4096)
		if len(a) > 1 {
			size = a[1].(*Term)
			size = ex.c.Ite(ex.c.Sle(size, ex.c.Int(0)), ex.c.Int(4096), size)
		}
		return ex.newWriter(st, a[0], size)
	}
	reg("bufio.NewWriter", newW)
	reg("bufio.NewWriterSize", newW)
	reg("(*bufio.Writer).Reset", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		g := ex.ghost(st, a[0], "Writer")
		// unflushed bytes are lost to the old destination
		size := g.T("size")
		if size.isConstVal(0) {
			size = ex.c.Int(4096)
		}
		ex.store(st, a[0], g.with("dst", a[1]).with("n", ex.c.Int(0)).with("err", ex.nilU()).with("size", size))
		return nil
	})
	reg("(*bufio.Writer).Size", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		return ex.ghost(st, a[0], "Writer").T("size")
	})
	reg("(*bufio.Writer).Buffered", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		return ex.ghost(st, a[0], "Writer").T("n")
	})
	reg("(*bufio.Writer).Available", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		g := ex.ghost(st, a[0], "Writer")
		return ex.c.Sub(g.T("size"), g.T("n"))
	})
	reg("(*bufio.Writer).AvailableBuffer", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		g := ex.ghost(st, a[0], "Writer")
		k := ex.c.Sub(g.T("size"), g.T("n"))
		o := st.newObj(&ArrV{S: Seq{{F: &Fam{Id: ex.fresh(st, "avail", US), Elem: types.Typ[types.Byte]}, Lo: ex.c.Int(0), N: k}}})
		return SliceV{Obj: o, Off: ex.c.Int(0), Len: ex.c.Int(0), Cap: k}
	})
	reg("(*bufio.Writer).Write", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		p := ex.asSlice(st, a[1])
		return ex.wrResult(st, ex.wrWrite(st, a[0], ex.sliceSeq(st, p)), p.Len)
	})
	reg("(*bufio.Writer).WriteString", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		q := a[1].(StrV).S
		return ex.wrResult(st, ex.wrWrite(st, a[0], q), ex.seqLen(q))
	})
	reg("(*bufio.Writer).WriteByte", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		return ex.wrWrite(st, a[0], unitSeq(a[1]))
	})
	reg("(*bufio.Writer).Flush", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		return ex.wrFlush(st, a[0])
	})

	// ---- strings.Builder ----
	bw := func(get func(ex *Exec, st *State, v Val) Seq, ret int) model {
		return func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
			g := ex.ghost(st, a[0], "Builder")
			q := get(ex, st, a[1])
			ex.store(st, a[0], g.with("s", StrV{S: ex.seqCat(g.F["s"].(StrV).S, q)}))
			if ret == 1 {
				return IfaceV{}
			}
			return TupV{ex.seqLen(q), IfaceV{}}
		}
	}
	str := func(ex *Exec, st *State, v Val) Seq { return v.(StrV).S }
	byt := func(ex *Exec, st *State, v Val) Seq { return ex.sliceSeq(st, v.(SliceV)) }
	one := func(ex *Exec, st *State, v Val) Seq { return unitSeq(v) }
	for _, t := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		reg(t+"Write", bw(byt, 2))
		reg(t+"WriteString", bw(str, 2))
		reg(t+"WriteByte", bw(one, 1))
		reg(t+"String", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
			return ex.ghost(st, a[0], "Builder").F["s"]
		})
		reg(t+"Len", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
			return ex.seqLen(ex.ghost(st, a[0], "Builder").F["s"].(StrV).S)
		})
		reg(t+"Reset", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
			g := ex.ghost(st, a[0], "Builder")
			ex.store(st, a[0], g.with("s", StrV{}))
			return nil
		})
		reg(t+"Grow", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
			n := a[1].(*Term)
			ex.check(st, ex.c.Sle(ex.c.Int(0), n), "negative count in Grow")
			ex.allocCheck(st, n)
			return nil
		})
	}

	// ---- bytes / strings ----
	reg("bytes.Equal", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		return ex.strEq(st, ex.sliceSeq(st, a[0].(SliceV)), ex.sliceSeq(st, a[1].(SliceV)))
	})
	reg("strings.Contains", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		x, ok := ex.seqConst(a[0].(StrV).S)
		y, ok2 := ex.seqConst(a[1].(StrV).S)
		if !ok || !ok2 {
			unsup("strings.Contains of strings that are not constant")
		}
		return ex.c.Bool(strings.Contains(x, y))
	})
	reg("strings.Clone", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val { return a[0] })

	// ---- math ----
	id := func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val { return a[0] }
	reg("math.Float64bits", id)
	reg("math.Float64frombits", id)
	reg("math.Float32bits", id)
	reg("math.Float32frombits", id)

	// ---- errors / fmt ----
	reg("errors.New", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		return ex.freshErr(st, "errors.New", nil)
	})
	reg("fmt.Errorf", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		f, ok := ex.seqConst(a[0].(StrV).S)
		if !ok {
			return ex.freshErr(st, "fmt.Errorf", nil)
		}
		var wrapped []Val
		vs := ex.variadic(st, a[1])
		k := 0
		for i := 0; i+1 < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
				i++
			}
			if i < len(f) && f[i] == '%' {
				continue
			}
			if i < len(f) && f[i] == 'w' && k < len(vs) {
				wrapped = append(wrapped, vs[k])
			}
			k++
		}
		return ex.freshErr(st, "fmt.Errorf", wrapped)
	})
	fs := func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		return ex.freshVal(st, "fmt", types.Typ[types.String])
	}
	reg("fmt.Sprintf", fs)
	reg("fmt.Sprint", fs)
	reg("fmt.Sprintln", fs)
	reg("(*errors.errorString).Error", fs)
	reg("(*fmt.wrapError).Error", fs)
	reg("strconv.FormatInt", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		return ex.opaqueStr(st, "fmtint", a[0].(*Term), a[1].(*Term))
	})
	// Unicode classes: known for ASCII, none outside Unicode, otherwise arbitrary.
	uni := func(name string, ascii func(r rune) bool) {
		reg("unicode."+name, func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
			c, r := ex.c, a[0].(*Term)
			k := func(r rune) *Term { return c.BV(uint64(uint32(r)), 32) }
			in1 := c.False
			for i := rune(0); i < 128; i++ {
				if !ascii(i) {
					continue
				}
				j := i
				for j < 127 && ascii(j+1) {
					j++
				}
				in1 = c.Or(in1, c.And(c.Sle(k(i), r), c.Sle(r, k(j))))
				i = j
			}
			in2 := c.And(c.Sle(k(128), r), c.Sle(r, k(0x10ffff)), c.UF("unicode."+name, BoolS, r))
			return c.Or(in1, in2)
		})
	}
	uni("IsLetter", unicode.IsLetter)
	uni("IsDigit", unicode.IsDigit)
	uni("IsNumber", unicode.IsNumber)
	uni("IsSpace", unicode.IsSpace)
	uni("IsUpper", unicode.IsUpper)
	uni("IsLower", unicode.IsLower)
	reg("strconv.Itoa", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		return ex.opaqueStr(st, "fmtint", a[0].(*Term), ex.c.Int(10))
	})
	reg("invoke:*.Error", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		return ex.opaqueStr(st, "errtext", a[0].(*Term))
	})
	reg("(*fmt.wrapError).Unwrap", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		return ex.load(st, a[0]).(*StructV).F[1]
	})
	reg("errors.Unwrap", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		iv, ok := a[0].(IfaceV)
		if !ok {
			return ex.c.UF("unwrap", US, a[0].(*Term))
		}
		if iv.T == nil {
			return IfaceV{}
		}
		f := ex.findMethod(iv.T, "Unwrap")
		if f == nil {
			return IfaceV{}
		}
		return pushed{ex.callFn(st, fr, in, f, []Val{iv.V}, nil)}
	})

	// ---- sync ----
	nop := func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val { return nil }
	for _, n := range []string{"Mutex).Lock", "Mutex).Unlock", "RWMutex).Lock", "RWMutex).Unlock", "RWMutex).RLock", "RWMutex).RUnlock"} {
		reg("(*sync."+n, nop)
	}
	reg("(*sync.Once).Do", func(ex *Exec, st *State, fr *Frame, in *ssa.Call, a []Val) Val {
		g := ex.ghost(st, a[0], "Once")
		if ex.branch(st, g.T("done")) {
			return nil
		}
		ex.store(st, a[0], g.with("done", ex.c.True))
		f, ok := a[1].(FuncV)
		if !ok || f.Fn == nil {
			unsup("Once.Do of opaque function")
		}
		nf := ex.push(st, f.Fn, nil, f.Bind, nil)
		_ = nf
		return pushed{true}
	})
}

func (ex *Exec) findMethod(t types.Type, name string) *ssa.Function {
	ms := ex.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return ex.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// embeddedReader finds the *bufio.Reader embedded in a struct value.
func (ex *Exec) embeddedReader(st *State, iv IfaceV) Val {
	if p, ok := iv.V.(PtrV); ok && p.Obj != 0 {
		if s, ok := ex.load(st, p).(*StructV); ok {
			pt, _ := iv.T.Underlying().(*types.Pointer)
			if pt != nil {
				if sty, ok := pt.Elem().Underlying().(*types.Struct); ok {
					for i := 0; i < sty.NumFields(); i++ {
						if sty.Field(i).Embedded() && sty.Field(i).Type().String() == "*bufio.Reader" {
							return s.F[i]
						}
					}
				}
			}
		}
	}
	unsup("io.ReadFull on %s", iv.T)
	return nil
}

// rdDiscard consumes n (> 0) bytes, however many the buffer holds.
func (ex *Exec) rdDiscard(st *State, p Val, n *Term) Val {
	c := ex.c
	g, sp, s := ex.rdr(st, p)
	pos, b, tot := g.T("pos"), g.T("b"), s.T("n")
	have := c.Ule(n, b)
	end := c.Add(pos, n)
	d := s.T("demand")
	s = s.with("demand", c.Ite(c.Or(have, c.Ule(end, d)), d, end))
	ex.store(st, sp, s)
	st.assume(c.Ule(pos, tot))
	if ex.branch(st, c.Ule(n, c.Sub(tot, pos))) {
		if ex.entailsQ(st, have) {
			ex.store(st, p, g.with("pos", end).with("b", c.Sub(b, n)))
		} else {
			nb := ex.fresh(st, "buf", BVS(64))
			st.assume(c.Ule(nb, c.Sub(tot, end)))
			st.assume(c.Ule(nb, g.T("size")))
			st.assume(c.Implies(have, c.Eq(nb, c.Sub(b, n))))
			ex.store(st, p, g.with("pos", end).with("b", nb))
		}
		return TupV{n, IfaceV{}}
	}
	ex.store(st, p, g.with("pos", tot).with("b", c.Int(0)))
	return TupV{c.Sub(tot, pos), s.T("serr")}
}

func (ex *Exec) wrResult(st *State, err Val, n *Term) Val {
	if iv, ok := err.(IfaceV); ok && iv.T == nil {
		return TupV{n, err}
	}
	k := ex.fresh(st, "nn", BVS(64))
	st.assume(ex.c.Ule(k, n))
	return TupV{k, err}
}

// variadic gives the elements of a ...any argument.
func (ex *Exec) variadic(st *State, v Val) []Val {
	s, ok := v.(SliceV)
	if !ok || s.Obj == 0 {
		return nil
	}
	var out []Val
	for _, ch := range ex.sliceSeq(st, s) {
		if ch.F != nil {
			return out
		}
		out = append(out, ch.U)
	}
	return out
}

// allocCheck: while an allocation bound is in force every explicit allocation
// must be covered by the bytes the source has delivered.
func (ex *Exec) allocCheck(st *State, k *Term) {
	b, ok := st.ghost["alloc"].(PtrV)
	if !ok || st.cur == 1 {
		return
	}
	c := ex.c
	g := ex.ghost(st, b, "Reader")
	lim := c.Add(c.Mul(c.Int(4), c.Add(g.T("pos"), g.T("b"))), c.Add(c.Mul(c.Int(4), g.T("size")), c.Int(1<<16)))
	ex.oblige(st, "C10", "memory: allocation covered by delivered bytes", c.Ule(k, lim))
}
