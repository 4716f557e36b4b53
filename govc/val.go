package main

// Symbolic values, sequences, heap.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type StructV struct{ F []Val }
type ArrV struct{ S Seq }
type StrV struct{ S Seq }
type SliceV struct {
	Obj           int // heap object holding ArrV (0: nil slice)
	Path          []Step
	Off, Len, Cap *Term
	Nil           *Term // when set: whether the slice is nil
}
type Step struct {
	Field int   // >=0 struct field
	Index *Term // array index when non-nil
}
type PtrV struct {
	Obj  int // 0 = nil
	Path []Step
}
type IfaceV struct {
	T types.Type // nil = nil interface
	V Val
}
type FuncV struct {
	Fn    *ssa.Function
	Bind  []Val
	Model string // builtin behaviour instead of Fn
	Recv  Val
}
type TupV []Val
type MapV struct{ Obj int } // 0 = nil map

// GhostV is the content of a modelled object (bufio.Reader, Source, ...).
type GhostV struct {
	Kind string
	F    map[string]Val
}

// MapObj is a map with an explicit association list (last write wins is
// resolved at insertion) over an optional opaque base, an arbitrary map.  The
// content of a map object is a *Term when it is the opaque map alone.
type MapObj struct {
	K, V []Val
	B    *Term
}

// mapU names the content of a map.
func (ex *Exec) mapU(st *State, mo *MapObj) *Term {
	u := mo.B
	if u == nil {
		u = ex.c.Var("emptymap", US)
	}
	for i := range mo.K {
		ts := []*Term{u}
		ex.leafTerms(st, mo.K[i], &ts)
		ex.leafTerms(st, mo.V[i], &ts)
		u = ex.c.UF("mapput"+sigOf(ts), US, ts...)
	}
	return u
}

// baseLookup looks a key up in an arbitrary map.
func (ex *Exec) baseLookup(st *State, b *Term, k Val, mt *types.Map) (Val, *Term) {
	ts := []*Term{b}
	ex.leafTerms(st, k, &ts)
	has := ex.c.UF("maphas"+sigOf(ts), BoolS, ts...)
	v := ex.symByType(mt.Elem(), func(path string, s Sort) *Term {
		return ex.c.UF("mapget"+path+sigOf(ts)+sortTag(s), s, ts...)
	})
	if t, ok := v.(*Term); ok {
		if z, ok := ex.zero(mt.Elem()).(*Term); ok {
			return ex.c.Ite(has, t, z), has
		}
	}
	if ex.branch(st, has) {
		return v, ex.c.True
	}
	return ex.zero(mt.Elem()), ex.c.False
}

func (g *GhostV) with(k string, v Val) *GhostV {
	n := &GhostV{Kind: g.Kind, F: make(map[string]Val, len(g.F)+1)}
	for a, b := range g.F {
		n.F[a] = b
	}
	n.F[k] = v
	return n
}
func (g *GhostV) T(k string) *Term { return g.F[k].(*Term) }

// ---- sequences ----

// Fam is an opaque family of elements indexed by a 64-bit integer.
// Element i has leaves UF("el"+path, sort)(Id, i).
type Fam struct {
	Id   *Term // sort U
	Elem types.Type
}

type Chunk struct {
	U     Val // unit element when F == nil
	F     *Fam
	Lo, N *Term
}
type Seq []Chunk

func (ex *Exec) seqLen(s Seq) *Term {
	c := ex.c
	n := c.Int(0)
	k := int64(0)
	for _, ch := range s {
		if ch.F == nil {
			k++
		} else {
			n = c.Add(n, ch.N)
		}
	}
	return c.Add(n, c.Int(k))
}

func (ex *Exec) seqCat(a, b Seq) Seq {
	out := make(Seq, 0, len(a)+len(b))
	add := func(ch Chunk) {
		if ch.F != nil && isConst(ch.N) && ch.N.val == 0 {
			return
		}
		if n := len(out); n > 0 && ch.F != nil && out[n-1].F != nil && sameFam(out[n-1].F, ch.F) {
			if ex.c.Add(out[n-1].Lo, out[n-1].N) == ch.Lo {
				out[n-1].N = ex.c.Add(out[n-1].N, ch.N)
				return
			}
		}
		out = append(out, ch)
	}
	for _, ch := range a {
		add(ch)
	}
	for _, ch := range b {
		add(ch)
	}
	return out
}

func sameFam(a, b *Fam) bool { return a == b || a.Id == b.Id }

func (ex *Exec) seqAllUnits(s Seq) bool {
	for _, ch := range s {
		if ch.F != nil {
			return false
		}
	}
	return true
}

func unitSeq(vs ...Val) Seq {
	s := make(Seq, len(vs))
	for i, v := range vs {
		s[i] = Chunk{U: v}
	}
	return s
}

func (ex *Exec) constStr(s string) Seq {
	q := make(Seq, len(s))
	for i := 0; i < len(s); i++ {
		q[i] = Chunk{U: ex.c.BV(uint64(s[i]), 8)}
	}
	return q
}

// concrete string content if all units are constants.
func (ex *Exec) seqConst(s Seq) (string, bool) {
	var sb strings.Builder
	for _, ch := range s {
		if ch.F != nil {
			return "", false
		}
		t, ok := ch.U.(*Term)
		if !ok || !isConst(t) || t.sort.K != SBV {
			return "", false
		}
		sb.WriteByte(byte(t.val))
	}
	return sb.String(), true
}

// famElem gives element i of an opaque family.
func (ex *Exec) famElem(f *Fam, i *Term) Val {
	return ex.symByType(f.Elem, func(path string, s Sort) *Term {
		return ex.c.UF("el"+path+sortTag(s), s, f.Id, i)
	})
}

// symByType builds a symbolic value of type t with leaves made by mk.
func (ex *Exec) symByType(t types.Type, mk func(path string, s Sort) *Term) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mk("", BoolS)
		case u.Info()&types.IsInteger != 0:
			return mk("", BVS(ex.width(t)))
		case u.Info()&types.IsFloat != 0:
			return mk("", BVS(ex.width(t)))
		case u.Info()&types.IsString != 0:
			n := mk(".len", BVS(64))
			ex.assumeCur(ex.c.Ule(n, ex.c.Int(maxLen)))
			// the content family is indexed by position and by the identity terms
			id := mk(".id", US)
			return StrV{S: Seq{{F: &Fam{Id: id, Elem: types.Typ[types.Byte]}, Lo: ex.c.Int(0), N: n}}}
		case u.Kind() == types.UnsafePointer:
			return mk("", US)
		}
	case *types.Struct:
		sv := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			i := i
			sv.F = append(sv.F, ex.symByType(u.Field(i).Type(), func(p string, s Sort) *Term {
				return mk(fmt.Sprintf(".%d%s", i, p), s)
			}))
		}
		return sv
	case *types.Array:
		n := u.Len()
		if n <= 64 {
			var q Seq
			for i := int64(0); i < n; i++ {
				q = append(q, Chunk{U: ex.symByType(u.Elem(), func(p string, s Sort) *Term {
					return mk(fmt.Sprintf("[%d]%s", i, p), s)
				})})
			}
			return &ArrV{S: q}
		}
	}
	return mk("", US)
}

func sortTag(s Sort) string {
	switch s.K {
	case SBool:
		return ":b"
	case SU:
		return ":u"
	}
	return fmt.Sprintf(":%d", s.W)
}

const maxLen = 1 << 56

// ---- heap ----

type Heap struct {
	m      map[int]Val
	shared bool
}

func (h *Heap) clone() *Heap {
	h.shared = true
	return &Heap{m: h.m, shared: true}
}
func (h *Heap) get(o int) Val { return h.m[o] }
func (h *Heap) set(o int, v Val) {
	if h.shared {
		m := make(map[int]Val, len(h.m)+4)
		for k, x := range h.m {
			m[k] = x
		}
		h.m = m
		h.shared = false
	}
	h.m[o] = v
}

// ---- printing ----
func (ex *Exec) show(v Val) string {
	switch v := v.(type) {
	case nil:
		return "<nil>"
	case *Term:
		return v.String()
	case *StructV:
		var p []string
		for _, f := range v.F {
			p = append(p, ex.show(f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case StrV:
		if s, ok := ex.seqConst(v.S); ok {
			return fmt.Sprintf("%q", s)
		}
		return "str" + ex.showSeq(v.S)
	case *ArrV:
		return "arr" + ex.showSeq(v.S)
	case SliceV:
		if v.Obj == 0 {
			return "nil-slice"
		}
		return fmt.Sprintf("slice(o%d%v off=%v len=%v)", v.Obj, len(v.Path), v.Off, v.Len)
	case PtrV:
		return fmt.Sprintf("&o%d%s", v.Obj, showPath(v.Path))
	case IfaceV:
		if v.T == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", types.TypeString(v.T, func(p *types.Package) string { return p.Name() }), ex.show(v.V))
	case FuncV:
		if v.Fn != nil {
			return "func " + v.Fn.Name()
		}
		return "func<" + v.Model + ">"
	case TupV:
		var p []string
		for _, f := range v {
			p = append(p, ex.show(f))
		}
		return "(" + strings.Join(p, ", ") + ")"
	}
	return fmt.Sprintf("%T", v)
}
func showPath(p []Step) string {
	s := ""
	for _, st := range p {
		if st.Index != nil {
			s += "[" + st.Index.String() + "]"
		} else {
			s += fmt.Sprintf(".%d", st.Field)
		}
	}
	return s
}
func (ex *Exec) showSeq(s Seq) string {
	var p []string
	for _, ch := range s {
		if ch.F == nil {
			p = append(p, ex.show(ch.U))
		} else {
			p = append(p, fmt.Sprintf("%s[%v:+%v]", ch.F.Id, ch.Lo, ch.N))
		}
	}
	return "<" + strings.Join(p, " ") + ">"
}
