package main

// Terms: hash-consed SMT terms with local simplification.
// Sorts: Bool, bit-vectors (width<=64), the uninterpreted sort U and arrays
// indexed by 64-bit vectors.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type SortKind uint8

const (
	SBool SortKind = iota
	SBV
	SU
	SArr
)

type Sort struct {
	K SortKind
	W uint8    // BV width, or element width for arrays of BV
	E SortKind // element kind for arrays
}

var (
	BoolS = Sort{K: SBool}
	US    = Sort{K: SU}
)

func BVS(w int) Sort { return Sort{K: SBV, W: uint8(w)} }
func ArrS(e Sort) Sort {
	return Sort{K: SArr, W: e.W, E: e.K}
}
func (s Sort) Elem() Sort { return Sort{K: s.E, W: s.W} }
func (s Sort) String() string {
	switch s.K {
	case SBool:
		return "Bool"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	case SU:
		return "U"
	case SArr:
		return fmt.Sprintf("(Array (_ BitVec 64) %s)", s.Elem())
	}
	return "?"
}

type Op uint8

const (
	OConst Op = iota // val
	OVar             // name
	ONot
	OAnd
	OOr
	OIte
	OEq
	OLin // sum coef*arg + val
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBvAnd
	OBvOr
	OBvXor
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract // val = hi<<8|lo
	OZext
	OSext
	OSelect
	OStore
	OUF // name, args
)

type Term struct {
	id   int
	op   Op
	sort Sort
	args []*Term
	coef []uint64
	val  uint64
	name string
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 6 {
		return "…"
	}
	switch t.op {
	case OConst:
		if t.sort.K == SBool {
			return fmt.Sprint(t.val == 1)
		}
		if int64(signext(t.val, int(t.sort.W))) < 0 {
			return fmt.Sprintf("%d(%#x)", int64(signext(t.val, int(t.sort.W))), t.val)
		}
		return fmt.Sprintf("%d", t.val)
	case OVar:
		return t.name
	}
	var sb strings.Builder
	sb.WriteString("(" + opNames[t.op])
	if t.op == OUF {
		sb.WriteString(t.name)
	}
	if t.op == OExtract {
		fmt.Fprintf(&sb, "[%d:%d]", t.val>>8, t.val&255)
	}
	for i, a := range t.args {
		sb.WriteString(" ")
		if t.coef != nil {
			fmt.Fprintf(&sb, "%d*", int64(t.coef[i]))
		}
		sb.WriteString(a.str(d + 1))
	}
	if t.op == OLin {
		fmt.Fprintf(&sb, " %d", int64(signext(t.val, int(t.sort.W))))
	}
	sb.WriteString(")")
	return sb.String()
}

var opNames = [...]string{"const", "var", "not", "and", "or", "ite", "=", "lin", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvult", "bvule", "bvslt", "bvsle", "concat", "extract", "zero_extend", "sign_extend", "select", "store", ""}

// Ctx owns a term table.
type Ctx struct {
	orb   map[*Term]orBit
	tab   map[string]*Term
	n     int
	True  *Term
	False *Term
	fresh int
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}}
	c.True = c.mk(&Term{op: OConst, sort: BoolS, val: 1})
	c.False = c.mk(&Term{op: OConst, sort: BoolS, val: 0})
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte(t.op))
	sb.WriteByte(byte(t.sort.K))
	sb.WriteByte(t.sort.W)
	sb.WriteByte(byte(t.sort.E))
	fmt.Fprintf(&sb, "%x|", t.val)
	if t.name != "" {
		sb.WriteString(t.name)
	}
	for i, a := range t.args {
		if t.coef != nil {
			fmt.Fprintf(&sb, ",%x*%x", t.coef[i], a.id)
		} else {
			fmt.Fprintf(&sb, ",%x", a.id)
		}
	}
	k := sb.String()
	if o, ok := c.tab[k]; ok {
		return o
	}
	c.n++
	t.id = c.n
	c.tab[k] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}
func signext(v uint64, w int) uint64 {
	if w >= 64 {
		return v
	}
	v &= mask(w)
	if v>>(uint(w)-1) != 0 {
		v |= ^mask(w)
	}
	return v
}

func (c *Ctx) BV(v uint64, w int) *Term {
	return c.mk(&Term{op: OConst, sort: BVS(w), val: v & mask(w)})
}
func (c *Ctx) Int(v int64) *Term { return c.BV(uint64(v), 64) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Var(name string, s Sort) *Term {
	return c.mk(&Term{op: OVar, sort: s, name: name})
}
func (c *Ctx) Fresh(prefix string, s Sort) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.fresh), s)
}
func (c *Ctx) UF(name string, s Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return c.Var(name, s)
	}
	return c.mk(&Term{op: OUF, sort: s, name: name, args: args})
}

func isConst(t *Term) bool   { return t.op == OConst }
func (t *Term) isTrue() bool { return t.op == OConst && t.sort.K == SBool && t.val == 1 }
func (t *Term) isFalse() bool {
	return t.op == OConst && t.sort.K == SBool && t.val == 0
}
func (t *Term) sval() int64 { return int64(signext(t.val, int(t.sort.W))) }

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a.isTrue():
		return c.False
	case a.isFalse():
		return c.True
	case a.op == ONot:
		return a.args[0]
	case a.op == OUlt:
		return c.Ule(a.args[1], a.args[0])
	case a.op == OUle:
		return c.Ult(a.args[1], a.args[0])
	case a.op == OSlt:
		return c.Sle(a.args[1], a.args[0])
	case a.op == OSle:
		return c.Slt(a.args[1], a.args[0])
	}
	return c.mk(&Term{op: ONot, sort: BoolS, args: []*Term{a}})
}

func (c *Ctx) And(as ...*Term) *Term { return c.nary(OAnd, as) }
func (c *Ctx) Or(as ...*Term) *Term  { return c.nary(OOr, as) }
func (c *Ctx) nary(op Op, as []*Term) *Term {
	absorb, neutral := c.False, c.True
	if op == OOr {
		absorb, neutral = c.True, c.False
	}
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == absorb {
			return false
		}
		if a == neutral || seen[a] {
			return true
		}
		if a.op == op {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if a.op == ONot && seen[a.args[0]] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return absorb
		}
	}
	for _, a := range out {
		if seen[c.Not(a)] {
			return absorb
		}
	}
	if len(out) == 0 {
		return neutral
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(&Term{op: op, sort: BoolS, args: out})
}
func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(x, a, b *Term) *Term {
	if x.isTrue() || a == b {
		return a
	}
	if x.isFalse() {
		return b
	}
	if x.op == ONot {
		return c.Ite(x.args[0], b, a)
	}
	if a.sort.K == SBool {
		if a.isTrue() && b.isFalse() {
			return x
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(x)
		}
		if a.isTrue() {
			return c.Or(x, b)
		}
		if a.isFalse() {
			return c.And(c.Not(x), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(x), a)
		}
		if b.isFalse() {
			return c.And(x, a)
		}
	}
	return c.mk(&Term{op: OIte, sort: a.sort, args: []*Term{x, a, b}})
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch: %v:%v vs %v:%v", a, a.sort, b, b.sort))
	}
	if isConst(a) && isConst(b) {
		return c.Bool(a.val == b.val)
	}
	if len(c.orb) > 0 && (isConst(a) || isConst(b)) {
		t, k := a, b
		if isConst(a) {
			t, k = b, a
		}
		if o, ok := c.orb[t]; ok {
			if k.val&o.bit == 0 {
				return c.False
			}
			return c.Or(c.Eq(o.x, k), c.Eq(o.x, c.BV(k.val&^o.bit, 32)))
		}
	}
	switch a.sort.K {
	case SBool:
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.False
		}
	case SBV:
		// canonical: compare difference with zero when it folds
		if a.op == OLin || b.op == OLin {
			d := c.Sub(a, b)
			if isConst(d) {
				return c.Bool(d.val == 0)
			}
			// single atom with unit coefficient: atom == const
			if d.op == OLin && len(d.args) == 1 && (d.coef[0] == 1 || d.coef[0] == mask(int(d.sort.W))) {
				k := (-d.val) & mask(int(d.sort.W))
				if d.coef[0] != 1 {
					k = d.val
				}
				return c.rawEq(d.args[0], c.BV(k, int(d.sort.W)))
			}
			// canonical orientation: the atom with the smallest id gets a positive coefficient
			if d.op == OLin && len(d.args) == 2 && d.val == 0 {
				m := mask(int(d.sort.W))
				if d.coef[0] == 1 && d.coef[1] == m || d.coef[0] == m && d.coef[1] == 1 {
					return c.rawEq(d.args[0], d.args[1])
				}
			}
			if d.op == OLin && int64(signext(d.coef[0], int(d.sort.W))) < 0 {
				d = c.Neg(d)
			}
			return c.rawEq(d, c.BV(0, int(a.sort.W)))
		}
		if isConst(a) {
			a, b = b, a
		}
		if a.op == OConcat && (isConst(b) || b.op == OConcat || b.op == OZext) || b.op == OConcat && a.op == OZext || a.op == OZext && b.op == OZext {
			xs, ys := c.refine(c.pieces(a), c.pieces(b))
			if len(xs) > 1 {
				var r []*Term
				for i := range xs {
					r = append(r, c.Eq(xs[i], ys[i]))
				}
				return c.And(r...)
			}
		}
		if isConst(b) {
			switch a.op {
			case OExtract:
				x := a.args[0]
				if hi, lo := int(a.val>>8), int(a.val&255); hi == int(x.sort.W)-1 && lo > 0 {
					if b.val == 0 {
						return c.Ult(x, c.BV(1<<uint(lo), hi+1))
					}
					if b.val == mask(hi-lo+1) {
						return c.Ule(c.BV(b.val<<uint(lo), hi+1), x)
					}
				}
			case OZext:
				iw := int(a.args[0].sort.W)
				if b.val&^mask(iw) != 0 {
					return c.False
				}
				return c.Eq(a.args[0], c.BV(b.val, iw))
			case OSext:
				iw := int(a.args[0].sort.W)
				if signext(b.val, iw)&mask(int(a.sort.W)) != b.val {
					return c.False
				}
				return c.Eq(a.args[0], c.BV(b.val, iw))
			case OIte:
				if isConst(a.args[1]) && isConst(a.args[2]) {
					p, q := a.args[1].val == b.val, a.args[2].val == b.val
					switch {
					case p && q:
						return c.True
					case p:
						return a.args[0]
					case q:
						return c.Not(a.args[0])
					default:
						return c.False
					}
				}
			}
		}
	}
	return c.rawEq(a, b)
}
func (c *Ctx) rawEq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, sort: BoolS, args: []*Term{a, b}})
}
func (c *Ctx) Neq(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

// ---- linear arithmetic ----
func (c *Ctx) linOf(t *Term) (args []*Term, coef []uint64, k uint64) {
	switch t.op {
	case OConst:
		return nil, nil, t.val
	case OLin:
		return t.args, t.coef, t.val
	case OBvXor:
		if x := t.args[1]; isConst(x) && x.val == mask(int(t.sort.W)) { // ^a = -a-1
			return t.args[:1], []uint64{x.val}, x.val
		}
	}
	return []*Term{t}, []uint64{1}, 0
}
func (c *Ctx) mkLin(w int, m map[*Term]uint64, k uint64) *Term {
	ms := mask(w)
	k &= ms
	var args []*Term
	for a, q := range m {
		if q&ms != 0 {
			args = append(args, a)
		}
	}
	if len(args) == 0 {
		return c.BV(k, w)
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	if len(args) == 1 && m[args[0]]&ms == 1 && k == 0 {
		return args[0]
	}
	if len(args) == 1 && m[args[0]]&ms == ms && k == ms {
		return c.BvXor(args[0], c.BV(ms, w))
	}
	coef := make([]uint64, len(args))
	for i, a := range args {
		coef[i] = m[a] & ms
	}
	return c.mk(&Term{op: OLin, sort: BVS(w), args: args, coef: coef, val: k})
}
func (c *Ctx) addScaled(m map[*Term]uint64, t *Term, s uint64) uint64 {
	args, coef, k := c.linOf(t)
	for i, a := range args {
		m[a] += coef[i] * s
	}
	return k * s
}
func (c *Ctx) Add(a, b *Term) *Term {
	w := int(a.sort.W)
	if isConst(a) && isConst(b) {
		return c.BV(a.val+b.val, w)
	}
	m := map[*Term]uint64{}
	k := c.addScaled(m, a, 1)
	k += c.addScaled(m, b, 1)
	return c.mkLin(w, m, k)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	w := int(a.sort.W)
	if a == b {
		return c.BV(0, w)
	}
	m := map[*Term]uint64{}
	k := c.addScaled(m, a, 1)
	k += c.addScaled(m, b, ^uint64(0))
	return c.mkLin(w, m, k)
}
func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.BV(0, int(a.sort.W)), a) }
func (c *Ctx) Mul(a, b *Term) *Term {
	w := int(a.sort.W)
	if isConst(b) {
		a, b = b, a
	}
	if isConst(a) {
		m := map[*Term]uint64{}
		k := c.addScaled(m, b, a.val)
		return c.mkLin(w, m, k)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OMul, sort: a.sort, args: []*Term{a, b}})
}

func (c *Ctx) bin(op Op, a, b *Term) *Term {
	return c.mk(&Term{op: op, sort: a.sort, args: []*Term{a, b}})
}
func (c *Ctx) UDiv(a, b *Term) *Term {
	if isConst(a) && isConst(b) && b.val != 0 {
		return c.BV(a.val/b.val, int(a.sort.W))
	}
	if isConst(b) && b.val == 1 {
		return a
	}
	return c.bin(OUDiv, a, b)
}
func (c *Ctx) URem(a, b *Term) *Term {
	if isConst(a) && isConst(b) && b.val != 0 {
		return c.BV(a.val%b.val, int(a.sort.W))
	}
	return c.bin(OURem, a, b)
}
func (c *Ctx) SDiv(a, b *Term) *Term {
	if isConst(a) && isConst(b) && b.val != 0 && b.sval() != -1 {
		return c.BV(uint64(a.sval()/b.sval()), int(a.sort.W))
	}
	return c.bin(OSDiv, a, b)
}
func (c *Ctx) SRem(a, b *Term) *Term {
	if isConst(a) && isConst(b) && b.val != 0 && b.sval() != -1 {
		return c.BV(uint64(a.sval()%b.sval()), int(a.sort.W))
	}
	return c.bin(OSRem, a, b)
}
func (c *Ctx) BvAnd(a, b *Term) *Term {
	w := int(a.sort.W)
	if isConst(a) && isConst(b) {
		return c.BV(a.val&b.val, w)
	}
	if isConst(a) {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if isConst(b) {
		if b.val == 0 {
			return b
		}
		if b.val == mask(w) {
			return a
		}
		// low mask -> zext(extract)
		if b.val&(b.val+1) == 0 {
			n := bits.Len64(b.val)
			return c.Zext(c.Extract(a, n-1, 0), w)
		}
		if r := c.bitwise(OBvAnd, a, b); r != nil {
			return r
		}
		return c.bin(OBvAnd, a, b)
	}
	if r := c.bitwise(OBvAnd, a, b); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.bin(OBvAnd, a, b)
}
func (c *Ctx) BvOr(a, b *Term) *Term {
	w := int(a.sort.W)
	if isConst(a) && isConst(b) {
		return c.BV(a.val|b.val, w)
	}
	if isConst(a) {
		a, b = b, a
	}
	if isConst(b) && b.val == 0 || a == b {
		return a
	}
	if isConst(b) && b.val == mask(w) {
		return b
	}
	if r := c.bitwise(OBvOr, a, b); r != nil {
		if w == 32 && isConst(b) && b.val < 0x80 && b.val&(b.val-1) == 0 && a.op == OVar {
			if c.orb == nil {
				c.orb = map[*Term]orBit{}
			}
			c.orb[r] = orBit{a, b.val}
		}
		return r
	}
	if !isConst(b) && a.id > b.id {
		a, b = b, a
	}
	return c.bin(OBvOr, a, b)
}

// pieces cuts a term into constants and slices of atoms, most significant
// first.
func (c *Ctx) pieces(t *Term) []*Term {
	switch t.op {
	case OZext:
		return append([]*Term{c.BV(0, int(t.sort.W)-int(t.args[0].sort.W))}, c.pieces(t.args[0])...)
	case OConcat:
		return append(c.pieces(t.args[0]), c.pieces(t.args[1])...)
	}
	return []*Term{t}
}

func (c *Ctx) join(ps []*Term) *Term {
	// merge neighbours
	var out []*Term
	for _, p := range ps {
		if n := len(out); n > 0 {
			q := out[n-1]
			if isConst(q) && isConst(p) {
				out[n-1] = c.BV(q.val<<p.sort.W|p.val, int(q.sort.W)+int(p.sort.W))
				continue
			}
			if q.op == OExtract {
				base, lo := q.args[0], int(q.val&255)
				if p.op == OExtract && p.args[0] == base && int(p.val>>8)+1 == lo {
					out[n-1] = c.Extract(base, int(q.val>>8), int(p.val&255))
					continue
				}
				if p == base && false {
					continue
				}
			}
		}
		out = append(out, p)
	}
	w := 0
	for _, p := range out {
		w += int(p.sort.W)
	}
	if len(out) > 1 && isConst(out[0]) && out[0].val == 0 {
		return c.Zext(c.join(out[1:]), w)
	}
	r := out[len(out)-1]
	for i := len(out) - 2; i >= 0; i-- {
		r = c.mk(&Term{op: OConcat, sort: BVS(int(out[i].sort.W) + int(r.sort.W)), args: []*Term{out[i], r}})
	}
	return r
}

// refine cuts two terms of equal width at the same places.
func (c *Ctx) refine(pa, pb []*Term) (xs, ys []*Term) {
	for len(pa) > 0 {
		x, y := pa[0], pb[0]
		wx, wy := int(x.sort.W), int(y.sort.W)
		switch {
		case wx == wy:
			pa, pb = pa[1:], pb[1:]
		case wx > wy:
			rest := c.pieces(c.Extract(x, wx-wy-1, 0))
			x = c.Extract(x, wx-1, wx-wy)
			pa = append(append([]*Term{}, rest...), pa[1:]...)
			pb = pb[1:]
		default:
			rest := c.pieces(c.Extract(y, wy-wx-1, 0))
			y = c.Extract(y, wy-1, wy-wx)
			pb = append(append([]*Term{}, rest...), pb[1:]...)
			pa = pa[1:]
		}
		xs, ys = append(xs, x), append(ys, y)
	}
	return
}

// runs cuts a constant into runs of equal bits.
func (c *Ctx) runs(t *Term) []*Term {
	w := int(t.sort.W)
	var out []*Term
	for hi := w - 1; hi >= 0; {
		b := t.val >> uint(hi) & 1
		lo := hi
		for lo > 0 && t.val>>uint(lo-1)&1 == b {
			lo--
		}
		out = append(out, c.BV(t.val>>uint(lo), hi-lo+1))
		hi = lo - 1
	}
	return out
}

// bitwise applies a bitwise operation piece by piece; nil if that gains
// nothing.
func (c *Ctx) bitwise(op Op, a, b *Term) *Term {
	pp := func(t *Term) []*Term {
		var out []*Term
		for _, p := range c.pieces(t) {
			if isConst(p) {
				out = append(out, c.runs(p)...)
			} else {
				out = append(out, p)
			}
		}
		return out
	}
	pa, pb := pp(a), pp(b)
	if len(pa) == 1 && len(pb) == 1 {
		return nil
	}
	if len(pa) > 16 || len(pb) > 16 {
		return nil
	}
	xs, ys := c.refine(pa, pb)
	if len(xs) == 1 {
		return nil
	}
	var out []*Term
	for i, x := range xs {
		y := ys[i]
		if isConst(x) {
			x, y = y, x
		}
		m := mask(int(x.sort.W))
		var r *Term
		switch {
		case x == y && op != OBvXor:
			r = x
		case isConst(y) && y.val == 0 && op != OBvAnd:
			r = x
		case isConst(y) && y.val == 0:
			r = y
		case isConst(y) && y.val == m && op == OBvAnd:
			r = x
		case isConst(y) && y.val == m && op == OBvOr:
			r = y
		case op == OBvOr:
			r = c.BvOr(x, y)
		case op == OBvAnd:
			r = c.BvAnd(x, y)
		default:
			r = c.BvXor(x, y)
		}
		out = append(out, c.pieces(r)...)
	}
	return c.join(out)
}
func (c *Ctx) BvXor(a, b *Term) *Term {
	w := int(a.sort.W)
	if isConst(a) && isConst(b) {
		return c.BV(a.val^b.val, w)
	}
	if isConst(a) {
		a, b = b, a
	}
	if isConst(b) && b.val == 0 {
		return a
	}
	if a == b {
		return c.BV(0, w)
	}
	if isConst(b) && b.val == mask(w) {
		if a.op == OLin {
			return c.Sub(b, a)
		}
		if a.op == OBvXor && a.args[1] == b {
			return a.args[0]
		}
	}
	if a.op == OConcat || b.op == OConcat || a.op == OZext || b.op == OZext {
		if r := c.bitwise(OBvXor, a, b); r != nil {
			return r
		}
	}
	if !isConst(b) && a.id > b.id {
		a, b = b, a
	}
	return c.bin(OBvXor, a, b)
}

// shifts: Go semantics are handled by the caller; here SMT semantics (same for
// unsigned shift counts of equal width: >= width gives 0 / sign fill).
func (c *Ctx) Shl(a, b *Term) *Term {
	w := int(a.sort.W)
	if isConst(b) {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(w) {
			return c.BV(0, w)
		}
		if isConst(a) {
			return c.BV(a.val<<b.val, w)
		}
		n := int(b.val)
		return c.Concat(c.Extract(a, w-1-n, 0), c.BV(0, n))
	}
	return c.bin(OShl, a, b)
}
func (c *Ctx) LShr(a, b *Term) *Term {
	w := int(a.sort.W)
	if isConst(b) {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(w) {
			return c.BV(0, w)
		}
		n := int(b.val)
		return c.Zext(c.Extract(a, w-1, n), w)
	}
	return c.bin(OLShr, a, b)
}
func (c *Ctx) AShr(a, b *Term) *Term {
	w := int(a.sort.W)
	if isConst(b) {
		n := int(b.val)
		if b.val >= uint64(w) {
			n = w - 1
		}
		if n == 0 {
			return a
		}
		return c.Sext(c.Extract(a, w-1, n), w)
	}
	return c.bin(OAShr, a, b)
}
func (c *Ctx) Concat(a, b *Term) *Term {
	w := int(a.sort.W) + int(b.sort.W)
	if isConst(a) && isConst(b) {
		return c.BV(a.val<<b.sort.W|b.val, w)
	}
	if isConst(a) && a.val == 0 {
		return c.Zext(b, w)
	}
	if a.op == OExtract && b.op == OExtract && a.args[0] == b.args[0] && a.val&255 == (b.val>>8)+1 {
		return c.Extract(a.args[0], int(a.val>>8), int(b.val&255))
	}
	return c.join(append(c.pieces(a), c.pieces(b)...))
}
func (c *Ctx) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if lo == 0 && hi == int(a.sort.W)-1 {
		return a
	}
	switch a.op {
	case OConst:
		return c.BV(a.val>>uint(lo), w)
	case OExtract:
		l0 := int(a.val & 255)
		return c.Extract(a.args[0], hi+l0, lo+l0)
	case OConcat:
		lw := int(a.args[1].sort.W)
		if hi < lw {
			return c.Extract(a.args[1], hi, lo)
		}
		if lo >= lw {
			return c.Extract(a.args[0], hi-lw, lo-lw)
		}
		return c.Concat(c.Extract(a.args[0], hi-lw, 0), c.Extract(a.args[1], lw-1, lo))
	case OZext:
		iw := int(a.args[0].sort.W)
		if hi < iw {
			return c.Extract(a.args[0], hi, lo)
		}
		if lo >= iw {
			return c.BV(0, w)
		}
		return c.Zext(c.Extract(a.args[0], iw-1, lo), w)
	case OSext:
		iw := int(a.args[0].sort.W)
		if hi < iw {
			return c.Extract(a.args[0], hi, lo)
		}
		return c.Sext(c.Extract(a.args[0], iw-1, min(lo, iw-1)), w)
	case OBvAnd, OBvOr, OBvXor:
		x, y := c.Extract(a.args[0], hi, lo), c.Extract(a.args[1], hi, lo)
		switch a.op {
		case OBvAnd:
			return c.BvAnd(x, y)
		case OBvOr:
			return c.BvOr(x, y)
		default:
			return c.BvXor(x, y)
		}
	case OLin:
		if lo == 0 {
			m := map[*Term]uint64{}
			for i, x := range a.args {
				m[c.Extract(x, hi, 0)] += a.coef[i]
			}
			// constants may appear after extraction
			m2 := map[*Term]uint64{}
			k := a.val
			for x, q := range m {
				k += c.addScaled(m2, x, q)
			}
			return c.mkLin(w, m2, k)
		}
	case OIte:
		if isConst(a.args[1]) || isConst(a.args[2]) {
			return c.Ite(a.args[0], c.Extract(a.args[1], hi, lo), c.Extract(a.args[2], hi, lo))
		}
	}
	return c.mk(&Term{op: OExtract, sort: BVS(w), args: []*Term{a}, val: uint64(hi)<<8 | uint64(lo)})
}
func (c *Ctx) Zext(a *Term, w int) *Term {
	if int(a.sort.W) == w {
		return a
	}
	if isConst(a) {
		return c.BV(a.val, w)
	}
	if a.op == OZext {
		return c.Zext(a.args[0], w)
	}
	return c.mk(&Term{op: OZext, sort: BVS(w), args: []*Term{a}})
}
func (c *Ctx) Sext(a *Term, w int) *Term {
	if int(a.sort.W) == w {
		return a
	}
	if isConst(a) {
		return c.BV(signext(a.val, int(a.sort.W)), w)
	}
	if a.op == OSext {
		return c.Sext(a.args[0], w)
	}
	if a.op == OZext {
		return c.Zext(a.args[0], w)
	}
	return c.mk(&Term{op: OSext, sort: BVS(w), args: []*Term{a}})
}

// interval of a term as unsigned / signed, cheap.
func (c *Ctx) umax(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OZext:
		return c.umax(t.args[0])
	case OIte:
		return max(c.umax(t.args[1]), c.umax(t.args[2]))
	case OBvAnd:
		return min(c.umax(t.args[0]), c.umax(t.args[1]))
	}
	return mask(int(t.sort.W))
}
func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if isConst(a) && isConst(b) {
		return c.Bool(a.val < b.val)
	}
	if isConst(b) {
		if b.val == 0 {
			return c.False
		}
		if c.umax(a) < b.val {
			return c.True
		}
		if b.val == 1 {
			return c.Eq(a, c.BV(0, int(a.sort.W)))
		}
	}
	if isConst(a) && a.val >= c.umax(b) {
		return c.False
	}
	if isConst(a) && a.val == 0 {
		return c.Neq(b, a)
	}
	if isConst(a) && narrowable(b) {
		return c.Ule(c.BV(a.val+1, int(a.sort.W)), b)
	}
	if isConst(b) && narrowable(a) {
		return c.Not(c.Ule(b, a))
	}
	if isConst(b) && a.op == OConcat {
		if k := a.args[1].sort.W; b.val&mask(int(k)) == 0 {
			return c.Ult(a.args[0], c.BV(b.val>>k, int(a.sort.W)-int(k)))
		}
	}
	return c.mk(&Term{op: OUlt, sort: BoolS, args: []*Term{a, b}})
}
func (c *Ctx) Ule(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if isConst(a) && isConst(b) {
		return c.Bool(a.val <= b.val)
	}
	if isConst(b) && c.umax(a) <= b.val {
		return c.True
	}
	if isConst(a) {
		if a.val == 0 {
			return c.True
		}
		if a.val > c.umax(b) {
			return c.False
		}
		if a.val == 1 {
			return c.Neq(b, c.BV(0, int(a.sort.W)))
		}
	}
	if isConst(b) && b.val == 0 {
		return c.Eq(a, b)
	}
	if isConst(a) && narrowable(b) {
		x := b.args[0]
		w := int(x.sort.W)
		switch b.op {
		case OZext:
			return c.Ule(c.BV(a.val, w), x)
		case OExtract:
			return c.Ule(c.BV(a.val<<uint(w-int(b.sort.W)), w), x)
		case OSext:
			half := uint64(1) << uint(w-1)
			switch {
			case a.val <= half:
				return c.Ule(c.BV(a.val, w), x)
			case a.val > mask(int(b.sort.W))-half:
				return c.Ule(c.BV(a.val&mask(w), w), x)
			}
			return c.Ule(c.BV(half, w), x)
		case OBvXor:
			return c.Ule(x, c.BV(^a.val&mask(w), w))
		}
	}
	if isConst(b) && narrowable(a) {
		return c.Not(c.Ule(c.BV(b.val+1, int(b.sort.W)), a))
	}
	if isConst(a) && b.op == OConcat {
		if k := b.args[1].sort.W; a.val&mask(int(k)) == 0 {
			return c.Ule(c.BV(a.val>>k, int(b.sort.W)-int(k)), b.args[0])
		}
	}
	return c.mk(&Term{op: OUle, sort: BoolS, args: []*Term{a, b}})
}

// narrowable: a comparison of t with a constant is one of its operand.
func narrowable(t *Term) bool {
	switch t.op {
	case OZext, OSext:
		return true
	case OExtract:
		x := t.args[0]
		return int(t.val>>8) == int(x.sort.W)-1
	case OBvXor:
		return isConst(t.args[1]) && t.args[1].val == mask(int(t.sort.W))
	}
	return false
}

// narrowSigned compares a sign-extended term with a constant at its own width;
// r is 0 if the constant is in range, else the sign of its distance.
func narrowSigned(k, t *Term) (r int, v uint64) {
	w := uint(t.args[0].sort.W)
	half := int64(1) << (w - 1)
	switch s := k.sval(); {
	case s < -half:
		return -1, 0
	case s >= half:
		return 1, 0
	default:
		return 0, uint64(s) & mask(int(w))
	}
}
func (c *Ctx) nonneg(t *Term) bool {
	w := int(t.sort.W)
	return c.umax(t) <= mask(w)>>1
}

// negative: the sign bit of t.
func (c *Ctx) negative(t *Term) *Term {
	for t.op == OSext {
		t = t.args[0]
	}
	if t.op == OConcat {
		t = c.pieces(t)[0]
	}
	if t.op == OConcat || t.op == OZext || isConst(t) || t.sort.W == 8 || t.op == OExtract && t.sort.W <= 8 {
		n := int(t.sort.W)
		return c.Ule(c.BV(1<<uint(n-1), n), t)
	}
	return nil
}

// orBit: a term that is x with one bit set.
type orBit struct {
	x   *Term
	bit uint64
}

// orLe is x|bit <= k, as a condition on x.
func (c *Ctx) orLe(t, k *Term) *Term {
	o, ok := c.orb[t]
	if !ok || k.sval() < 0 || k.val > 1<<12 {
		return nil
	}
	r := c.Slt(o.x, c.BV(0, 32))
	for i := uint64(0); i <= k.val; i++ {
		if i|o.bit > k.val {
			continue
		}
		j := i
		for (j+1)|o.bit <= k.val {
			j++
		}
		r = c.Or(r, c.And(c.Sle(c.BV(i, 32), o.x), c.Sle(o.x, c.BV(j, 32))))
		i = j
	}
	return r
}
func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if len(c.orb) > 0 {
		if isConst(b) && b.sval() > 0 {
			if r := c.orLe(a, c.BV(b.val-1, 32)); r != nil {
				return r
			}
		}
		if isConst(a) {
			if r := c.orLe(b, a); r != nil {
				return c.Not(r)
			}
		}
	}
	if isConst(b) && b.val == 1<<(b.sort.W-1) {
		return c.False
	}
	if isConst(b) && b.val == 0 && (a.op == OSext || a.op == OConcat) {
		if r := c.negative(a); r != nil {
			return r
		}
	}
	if isConst(a) && isConst(b) {
		return c.Bool(a.sval() < b.sval())
	}
	if isConst(a) && b.op == OSext {
		r, v := narrowSigned(a, b)
		if r != 0 {
			return c.Bool(r < 0)
		}
		return c.Slt(c.BV(v, int(b.args[0].sort.W)), b.args[0])
	}
	if isConst(b) && a.op == OSext {
		r, v := narrowSigned(b, a)
		if r != 0 {
			return c.Bool(r > 0)
		}
		return c.Slt(a.args[0], c.BV(v, int(a.args[0].sort.W)))
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ult(a, b)
	}
	if isConst(b) && b.sval() <= 0 && c.nonneg(a) {
		return c.False
	}
	if isConst(a) && a.sval() < 0 && c.nonneg(b) {
		return c.True
	}
	return c.mk(&Term{op: OSlt, sort: BoolS, args: []*Term{a, b}})
}
func (c *Ctx) Sle(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if len(c.orb) > 0 {
		if isConst(b) {
			if r := c.orLe(a, b); r != nil {
				return r
			}
		}
		if isConst(a) && a.sval() > 0 {
			if r := c.orLe(b, c.BV(a.val-1, 32)); r != nil {
				return c.Not(r)
			}
		}
	}
	if isConst(a) && a.val == 1<<(a.sort.W-1) {
		return c.True
	}
	if isConst(a) && a.val == 0 && (b.op == OSext || b.op == OConcat) {
		if r := c.negative(b); r != nil {
			return c.Not(r)
		}
	}
	if isConst(a) && isConst(b) {
		return c.Bool(a.sval() <= b.sval())
	}
	if isConst(a) && b.op == OSext {
		r, v := narrowSigned(a, b)
		if r != 0 {
			return c.Bool(r < 0)
		}
		return c.Sle(c.BV(v, int(b.args[0].sort.W)), b.args[0])
	}
	if isConst(b) && a.op == OSext {
		r, v := narrowSigned(b, a)
		if r != 0 {
			return c.Bool(r > 0)
		}
		return c.Sle(a.args[0], c.BV(v, int(a.args[0].sort.W)))
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ule(a, b)
	}
	if isConst(a) && a.sval() <= 0 && c.nonneg(b) {
		return c.True
	}
	if isConst(b) && b.sval() < 0 && c.nonneg(a) {
		return c.False
	}
	return c.mk(&Term{op: OSle, sort: BoolS, args: []*Term{a, b}})
}
func (c *Ctx) Select(a, i *Term) *Term {
	for a.op == OStore {
		e := c.Eq(a.args[1], i)
		if e.isTrue() {
			return a.args[2]
		}
		if !e.isFalse() {
			break
		}
		a = a.args[0]
	}
	return c.mk(&Term{op: OSelect, sort: a.sort.Elem(), args: []*Term{a, i}})
}
func (c *Ctx) Store(a, i, v *Term) *Term {
	return c.mk(&Term{op: OStore, sort: a.sort, args: []*Term{a, i, v}})
}

// subst rebuilds t with variables replaced.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	na := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		na[i] = c.Subst(a, m, memo)
		ch = ch || na[i] != a
	}
	r := t
	if ch {
		r = c.rebuild(t, na)
	}
	memo[t] = r
	return r
}
func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case ONot:
		return c.Not(a[0])
	case OAnd:
		return c.And(a...)
	case OOr:
		return c.Or(a...)
	case OIte:
		return c.Ite(a[0], a[1], a[2])
	case OEq:
		return c.Eq(a[0], a[1])
	case OLin:
		m := map[*Term]uint64{}
		k := t.val
		for i, x := range a {
			k += c.addScaled(m, x, t.coef[i])
		}
		return c.mkLin(int(t.sort.W), m, k)
	case OMul:
		return c.Mul(a[0], a[1])
	case OUDiv:
		return c.UDiv(a[0], a[1])
	case OURem:
		return c.URem(a[0], a[1])
	case OSDiv:
		return c.SDiv(a[0], a[1])
	case OSRem:
		return c.SRem(a[0], a[1])
	case OBvAnd:
		return c.BvAnd(a[0], a[1])
	case OBvOr:
		return c.BvOr(a[0], a[1])
	case OBvXor:
		return c.BvXor(a[0], a[1])
	case OShl:
		return c.Shl(a[0], a[1])
	case OLShr:
		return c.LShr(a[0], a[1])
	case OAShr:
		return c.AShr(a[0], a[1])
	case OUlt:
		return c.Ult(a[0], a[1])
	case OUle:
		return c.Ule(a[0], a[1])
	case OSlt:
		return c.Slt(a[0], a[1])
	case OSle:
		return c.Sle(a[0], a[1])
	case OConcat:
		return c.Concat(a[0], a[1])
	case OExtract:
		return c.Extract(a[0], int(t.val>>8), int(t.val&255))
	case OZext:
		return c.Zext(a[0], int(t.sort.W))
	case OSext:
		return c.Sext(a[0], int(t.sort.W))
	case OSelect:
		return c.Select(a[0], a[1])
	case OStore:
		return c.Store(a[0], a[1], a[2])
	case OUF:
		return c.UF(t.name, t.sort, a...)
	}
	panic("rebuild")
}
