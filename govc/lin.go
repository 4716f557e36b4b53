package main

// An in-process decision procedure for the queries that dominate symbolic
// execution: conjunctions of linear (in)equalities over machine integers that
// provably do not wrap, with a little propositional structure.  "Unsat" means
// the rational relaxation of a consequence of the query is infeasible; "sat" is
// only answered with a concrete assignment that has been evaluated against
// every formula.  Everything else goes to the SMT solvers.

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
)

// ---- rationals with an int64 fast path ----

type rat struct {
	n, d int64
	b    *big.Rat
}

func ri(n int64) rat { return rat{n: n, d: 1} }
func (a rat) big() *big.Rat {
	if a.b != nil {
		return a.b
	}
	return big.NewRat(a.n, a.d)
}
func rnorm(b *big.Rat) rat {
	if b.Num().IsInt64() && b.Denom().IsInt64() {
		return rat{n: b.Num().Int64(), d: b.Denom().Int64()}
	}
	return rat{b: b}
}
func (a rat) add(c rat) rat {
	if a.b == nil && c.b == nil && a.d == 1 && c.d == 1 {
		s := a.n + c.n
		if (s > a.n) == (c.n > 0) {
			return rat{n: s, d: 1}
		}
	}
	return rnorm(new(big.Rat).Add(a.big(), c.big()))
}
func (a rat) neg() rat {
	if a.b == nil && a.n != -1<<63 {
		return rat{n: -a.n, d: a.d}
	}
	return rnorm(new(big.Rat).Neg(a.big()))
}
func (a rat) sub(c rat) rat { return a.add(c.neg()) }
func abs64(x int64) uint64 {
	if x < 0 {
		return uint64(-x)
	}
	return uint64(x)
}
func (a rat) mul(c rat) rat {
	if a.b == nil && c.b == nil && a.d == 1 && c.d == 1 {
		hi, lo := bits.Mul64(abs64(a.n), abs64(c.n))
		if hi == 0 && lo < 1<<63 {
			return rat{n: a.n * c.n, d: 1}
		}
	}
	return rnorm(new(big.Rat).Mul(a.big(), c.big()))
}
func (a rat) inv() rat {
	if a.b == nil && a.d == 1 && (a.n == 1 || a.n == -1) {
		return a
	}
	return rnorm(new(big.Rat).Inv(a.big()))
}
func (a rat) sign() int {
	if a.b != nil {
		return a.b.Sign()
	}
	switch {
	case a.n > 0:
		return 1
	case a.n < 0:
		return -1
	}
	return 0
}
func (a rat) cmp(c rat) int {
	if a.b == nil && c.b == nil && a.d == c.d {
		switch {
		case a.n < c.n:
			return -1
		case a.n > c.n:
			return 1
		}
		return 0
	}
	return a.big().Cmp(c.big())
}
func (a rat) isInt() bool {
	if a.b != nil {
		return a.b.IsInt()
	}
	return a.d == 1
}
func (a rat) floor() rat {
	if a.isInt() {
		return a
	}
	b := a.big()
	q := new(big.Int).Div(b.Num(), b.Denom()) // Euclidean = floor for positive denominators
	return rnorm(new(big.Rat).SetInt(q))
}
func (a rat) u64() uint64 {
	if a.b == nil {
		return uint64(a.floor().n)
	}
	b := a.floor().big()
	m := new(big.Int).And(b.Num(), new(big.Int).SetUint64(^uint64(0)))
	return m.Uint64()
}

func pow2(w int) rat { return rnorm(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(w)))) }

var pw [66]rat

func init() {
	for i := range pw {
		pw[i] = pow2(i)
	}
}

// ---- simplex ----

type sx struct {
	n      int // variables (structural and slack)
	lo, hi []rat
	hasLo  []bool
	hasHi  []bool
	beta   []rat
	rows   map[int]map[int]rat // basic -> coefficients over nonbasic
	slack  map[string]int
}

func newSx() *sx { return &sx{rows: map[int]map[int]rat{}, slack: map[string]int{}} }
func (s *sx) clone() *sx {
	t := &sx{n: s.n, lo: append([]rat{}, s.lo...), hi: append([]rat{}, s.hi...), hasLo: append([]bool{}, s.hasLo...), hasHi: append([]bool{}, s.hasHi...),
		beta: append([]rat{}, s.beta...), rows: make(map[int]map[int]rat, len(s.rows)), slack: make(map[string]int, len(s.slack))}
	for k, r := range s.rows {
		m := make(map[int]rat, len(r))
		for j, c := range r {
			m[j] = c
		}
		t.rows[k] = m
	}
	for k, v := range s.slack {
		t.slack[k] = v
	}
	return t
}
func (s *sx) newVar() int {
	s.n++
	s.lo = append(s.lo, ri(0))
	s.hi = append(s.hi, ri(0))
	s.hasLo = append(s.hasLo, false)
	s.hasHi = append(s.hasHi, false)
	s.beta = append(s.beta, ri(0))
	return s.n - 1
}

// lexpr is an integer linear expression.
type lexpr struct {
	c map[int]rat
	k rat
}

func (e *lexpr) addTo(o *lexpr, f rat) {
	for v, c := range o.c {
		x := e.c[v]
		if x.d == 0 && x.b == nil {
			x = ri(0)
		}
		x = x.add(c.mul(f))
		if x.sign() == 0 {
			delete(e.c, v)
		} else {
			e.c[v] = x
		}
	}
	e.k = e.k.add(o.k.mul(f))
}
func lconst(k rat) *lexpr { return &lexpr{c: map[int]rat{}, k: k} }
func (e *lexpr) sub(o *lexpr) *lexpr {
	r := lconst(ri(0))
	r.addTo(e, ri(1))
	r.addTo(o, ri(-1))
	return r
}

func (s *sx) setHi(v int, k rat) bool {
	k = k.floor()
	if s.hasHi[v] && s.hi[v].cmp(k) <= 0 {
		return true
	}
	if s.hasLo[v] && k.cmp(s.lo[v]) < 0 {
		return false
	}
	s.hi[v], s.hasHi[v] = k, true
	if _, basic := s.rows[v]; !basic && s.beta[v].cmp(k) > 0 {
		s.update(v, k)
	}
	return true
}
func (s *sx) setLo(v int, k rat) bool {
	k = k.neg().floor().neg() // ceil
	if s.hasLo[v] && s.lo[v].cmp(k) >= 0 {
		return true
	}
	if s.hasHi[v] && k.cmp(s.hi[v]) > 0 {
		return false
	}
	s.lo[v], s.hasLo[v] = k, true
	if _, basic := s.rows[v]; !basic && s.beta[v].cmp(k) < 0 {
		s.update(v, k)
	}
	return true
}
func (s *sx) update(j int, v rat) {
	d := v.sub(s.beta[j])
	for b, r := range s.rows {
		if c, ok := r[j]; ok {
			s.beta[b] = s.beta[b].add(c.mul(d))
		}
	}
	s.beta[j] = v
}

// le asserts e <= 0.
func (s *sx) le(e *lexpr) bool {
	if len(e.c) == 0 {
		return e.k.sign() <= 0
	}
	// divide by the gcd of the coefficients
	var ks []int
	for v := range e.c {
		ks = append(ks, v)
	}
	sort.Ints(ks)
	g := new(big.Int)
	allInt := true
	for _, v := range ks {
		c := e.c[v]
		if !c.isInt() {
			allInt = false
			break
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(c.big().Num()))
	}
	f := ri(1)
	if allInt && g.Sign() > 0 && !(g.IsInt64() && g.Int64() == 1) {
		f = rnorm(new(big.Rat).SetFrac(big.NewInt(1), g))
	}
	rhs := e.k.mul(f).neg().floor()
	if !allInt {
		rhs = e.k.mul(f).neg()
	}
	if len(ks) == 1 {
		c := e.c[ks[0]].mul(f)
		// c is +-1
		if c.sign() > 0 {
			return s.setHi(ks[0], rhs.mul(c.inv()))
		}
		return s.setLo(ks[0], rhs.mul(c.inv()))
	}
	// orientation: first coefficient positive
	neg := e.c[ks[0]].sign() < 0
	key := ""
	norm := make(map[int]rat, len(ks))
	for _, v := range ks {
		c := e.c[v].mul(f)
		if neg {
			c = c.neg()
		}
		norm[v] = c
		key += strconv.Itoa(v) + "*" + c.big().RatString() + ";"
	}
	sl, ok := s.slack[key]
	if !ok {
		sl = s.newVar()
		s.slack[key] = sl
		row := map[int]rat{}
		val := ri(0)
		for v, c := range norm {
			val = val.add(c.mul(s.beta[v]))
			if r, basic := s.rows[v]; basic {
				for j, rc := range r {
					addCoef(row, j, rc.mul(c))
				}
			} else {
				addCoef(row, v, c)
			}
		}
		s.rows[sl] = row
		s.beta[sl] = val
	}
	if neg {
		return s.setLo(sl, rhs.neg())
	}
	return s.setHi(sl, rhs)
}

func addCoef(m map[int]rat, j int, c rat) {
	if x, ok := m[j]; ok {
		x = x.add(c)
		if x.sign() == 0 {
			delete(m, j)
		} else {
			m[j] = x
		}
		return
	}
	if c.sign() != 0 {
		m[j] = c
	}
}

func (s *sx) pivot(b, j int) {
	r := s.rows[b]
	a := r[j]
	delete(s.rows, b)
	nr := make(map[int]rat, len(r))
	ia := a.inv()
	for v, c := range r {
		if v != j {
			nr[v] = c.mul(ia).neg()
		}
	}
	nr[b] = ia
	for k, row := range s.rows {
		c, ok := row[j]
		if !ok {
			continue
		}
		delete(row, j)
		for v, x := range nr {
			addCoef(row, v, x.mul(c))
		}
		s.rows[k] = row
	}
	s.rows[j] = nr
}

// check: 1 feasible, -1 infeasible, 0 gave up.
func (s *sx) check() int {
	for it := 0; it < 400; it++ {
		// smallest violating basic variable (Bland)
		b := -1
		low := false
		for v := range s.rows {
			if b >= 0 && v > b {
				continue
			}
			if s.hasLo[v] && s.beta[v].cmp(s.lo[v]) < 0 {
				b, low = v, true
			} else if s.hasHi[v] && s.beta[v].cmp(s.hi[v]) > 0 {
				b, low = v, false
			}
		}
		if b < 0 {
			return 1
		}
		r := s.rows[b]
		j := -1
		for v, c := range r {
			if j >= 0 && v > j {
				continue
			}
			up := c.sign() > 0 == low // must v increase?
			if up && (!s.hasHi[v] || s.beta[v].cmp(s.hi[v]) < 0) || !up && (!s.hasLo[v] || s.beta[v].cmp(s.lo[v]) > 0) {
				j = v
			}
		}
		if j < 0 {
			return -1
		}
		target := s.hi[b]
		if low {
			target = s.lo[b]
		}
		theta := target.sub(s.beta[b]).mul(r[j].inv())
		s.beta[b] = target
		nb := s.beta[j].add(theta)
		for k, row := range s.rows {
			if k == b {
				continue
			}
			if c, ok := row[j]; ok {
				s.beta[k] = s.beta[k].add(c.mul(theta))
			}
		}
		s.beta[j] = nb
		s.pivot(b, j)
	}
	return 0
}

// ---- the search ----

type miniCfg struct {
	c     *Ctx
	nodes int
	orig  []*Term
	sents map[*Term]bool
	found *Model

	repairs  int
	why      *Term
	smallMem map[*Term][]*Term
}

type mini struct {
	cfg    *miniCfg
	s      *sx
	vars   map[*Term]int
	vlist  []*Term
	lit    map[*Term]bool // boolean atoms
	uf     map[*Term]*Term
	une    [][2]*Term
	ors    []*Term
	defer_ []*Term // atoms waiting for bounds
	neqs   [][2]*Term
	ites   []*Term
	iteOn  map[*Term]bool
	todo   []*Term
	given  bool // something was left out: cannot be used to answer sat without evaluation (always evaluated anyway)
}

func (m *mini) clone() *mini {
	n := &mini{cfg: m.cfg, s: m.s.clone(), vars: make(map[*Term]int, len(m.vars)), lit: make(map[*Term]bool, len(m.lit)), uf: make(map[*Term]*Term, len(m.uf)), iteOn: make(map[*Term]bool, len(m.iteOn))}
	for k, v := range m.vars {
		n.vars[k] = v
	}
	n.vlist = append([]*Term{}, m.vlist...)
	for k, v := range m.lit {
		n.lit[k] = v
	}
	for k, v := range m.uf {
		n.uf[k] = v
	}
	for k, v := range m.iteOn {
		n.iteOn[k] = v
	}
	n.une = append([][2]*Term{}, m.une...)
	n.ors = append([]*Term{}, m.ors...)
	n.defer_ = append([]*Term{}, m.defer_...)
	n.neqs = append([][2]*Term{}, m.neqs...)
	n.ites = append([]*Term{}, m.ites...)
	n.todo = append([]*Term{}, m.todo...)
	return n
}

func (m *mini) varOf(t *Term, lo, hi rat) *lexpr {
	v, ok := m.vars[t]
	if !ok {
		v = m.s.newVar()
		m.vars[t] = v
		m.vlist = append(m.vlist, t)
		m.s.setLo(v, lo)
		m.s.setHi(v, hi)
	}
	return &lexpr{c: map[int]rat{v: ri(1)}, k: ri(0)}
}

// repRange: the representation range of a term of width w.
func repRange(w int) (rat, rat) {
	if w == 64 {
		return pw[63].neg(), pw[63].sub(ri(1))
	}
	return ri(0), pw[w].sub(ri(1))
}

// expr: an integer expression congruent to t modulo 2^w.
func (m *mini) expr(t *Term) *lexpr {
	w := int(t.sort.W)
	lo, hi := repRange(w)
	switch t.op {
	case OConst:
		if w == 64 {
			return lconst(ri(int64(t.val)))
		}
		return lconst(ri(int64(t.val)))
	case OLin:
		k := ri(int64(signext(t.val, w)))
		e := lconst(k)
		for i, a := range t.args {
			e.addTo(m.expr(a), ri(int64(signext(t.coef[i], w))))
		}
		return e
	case OBvXor:
		if k := t.args[1]; isConst(k) && k.val == mask(w) {
			e := lconst(ri(-1))
			e.addTo(m.expr(t.args[0]), ri(-1))
			return e
		}
	case OZext:
		a := t.args[0]
		aw := int(a.sort.W)
		e := m.expr(a)
		if m.inRange(e, ri(0), pw[aw].sub(ri(1)), false) {
			return e
		}
		return m.varOf(t, ri(0), pw[aw].sub(ri(1)))
	case OSext:
		a := t.args[0]
		aw := int(a.sort.W)
		e := m.expr(a)
		if m.inRange(e, ri(0), pw[aw-1].sub(ri(1)), false) {
			return e
		}
		if w == 64 {
			v := m.varOf(t, pw[aw-1].neg(), pw[aw-1].sub(ri(1)))
			if aw < 64 && !m.iteOn[t] && m.inRange(e, ri(0), pw[aw].sub(ri(1)), false) {
				// one of the two readings of the sign bit
				m.iteOn[t] = true
				c := m.cfg.c
				z, half := c.Zext(a, 64), c.BV(1<<uint(aw-1), aw)
				m.ors = append(m.ors, c.mk(&Term{op: OOr, sort: BoolS, args: []*Term{
					c.And(c.Ult(a, half), c.rawEq(t, z)),
					c.And(c.Ule(half, a), c.rawEq(c.Sub(z, t), c.BV(1<<uint(aw), 64)))}}))
			}
			return v
		}
	case OConcat:
		if w < 64 && !m.iteOn[t] {
			m.iteOn[t] = true
			v := m.varOf(t, lo, hi)
			k := int(t.args[1].sort.W)
			top := m.expr(t.args[0])
			if m.inRange(top, ri(0), pw[w-k].sub(ri(1)), false) {
				// 2^k*top <= t < 2^k*top + 2^k
				d := lconst(ri(0))
				d.addTo(top, pw[k])
				d.addTo(v, ri(-1))
				m.s.le(d)
				e := lconst(ri(1).sub(pw[k]))
				e.addTo(v, ri(1))
				e.addTo(top, pw[k].neg())
				m.s.le(e)
			}
			return v
		}
	case OIte:
		if !m.iteOn[t] {
			m.iteOn[t] = true
			m.ites = append(m.ites, t)
		}
	case OBvAnd:
		for _, a := range t.args {
			if isConst(a) && signext(a.val, w)>>63 == 0 {
				return m.varOf(t, ri(0), ri(int64(a.val)))
			}
		}
	case OLShr:
		if k := t.args[1]; isConst(k) && k.val > 0 && int(k.val) < w {
			return m.varOf(t, ri(0), pw[w-int(k.val)].sub(ri(1)))
		}
	}
	return m.varOf(t, lo, hi)
}

// bounds by interval arithmetic; ok=false when unbounded.
func (m *mini) interval(e *lexpr) (lo, hi rat) {
	lo, hi = e.k, e.k
	for v, c := range e.c {
		l, h := m.s.lo[v], m.s.hi[v]
		if c.sign() > 0 {
			lo, hi = lo.add(l.mul(c)), hi.add(h.mul(c))
		} else {
			lo, hi = lo.add(h.mul(c)), hi.add(l.mul(c))
		}
	}
	return
}

func (m *mini) inRange(e *lexpr, lo, hi rat, lp bool) bool {
	a, b := m.interval(e)
	okL, okH := a.cmp(lo) >= 0, b.cmp(hi) <= 0
	if okL && okH {
		return true
	}
	if !lp {
		return false
	}
	if !okL {
		// e < lo impossible?   e - lo + 1 <= 0
		x := lconst(ri(1).sub(lo))
		x.addTo(e, ri(1))
		if !m.impossible(x) {
			return false
		}
	}
	if !okH {
		x := lconst(hi.add(ri(1)))
		x.addTo(e, ri(-1))
		if !m.impossible(x) {
			return false
		}
	}
	return true
}

func (m *mini) impossible(e *lexpr) bool {
	s := m.s.clone()
	return !s.le(e) || s.check() < 0
}

func (m *mini) find(t *Term) *Term {
	for m.uf[t] != nil {
		t = m.uf[t]
	}
	return t
}

// assert adds a literal; false on contradiction.
func (m *mini) assert(t *Term) bool {
	m.todo = append(m.todo, t)
	return m.flush()
}

func (m *mini) flush() bool {
	for len(m.todo) > 0 {
		t := m.todo[0]
		m.todo = m.todo[1:]
		if !m.lit1(t) {
			return false
		}
	}
	return true
}

func (m *mini) lit1(t *Term) bool {
	c := m.cfg.c
	switch t.op {
	case OConst:
		return t.val == 1
	case OAnd:
		m.todo = append(m.todo, t.args...)
		return true
	case OOr:
		m.ors = append(m.ors, t)
		return true
	case OSlt, OSle, OUlt, OUle:
		m.defer_ = append(m.defer_, t)
		return true
	case OEq:
		a, b := t.args[0], t.args[1]
		switch a.sort.K {
		case SBV:
			m.defer_ = append(m.defer_, t)
			return true
		case SU:
			x, y := m.find(a), m.find(b)
			if x != y {
				if m.cfg.sents[x] && m.cfg.sents[y] {
					return false
				}
				if m.cfg.sents[x] {
					x, y = y, x
				}
				m.uf[x] = y
			}
			for _, p := range m.une {
				if m.find(p[0]) == m.find(p[1]) {
					return false
				}
			}
			return m.setLit(t, true)
		case SBool:
			if v, ok := m.lit[a]; ok {
				if v {
					m.todo = append(m.todo, b)
				} else {
					m.todo = append(m.todo, c.Not(b))
				}
				return true
			}
			m.ors = append(m.ors, c.mk(&Term{op: OOr, sort: BoolS, args: []*Term{c.And(a, b), c.And(c.Not(a), c.Not(b))}}))
			return true
		}
		return m.setLit(t, true)
	case ONot:
		x := t.args[0]
		switch x.op {
		case OEq:
			a, b := x.args[0], x.args[1]
			switch a.sort.K {
			case SBV:
				m.neqs = append(m.neqs, [2]*Term{a, b})
				return true
			case SU:
				m.une = append(m.une, [2]*Term{a, b})
				if m.find(a) == m.find(b) {
					return false
				}
				return m.setLit(x, false)
			case SBool:
				m.ors = append(m.ors, c.mk(&Term{op: OOr, sort: BoolS, args: []*Term{c.And(a, c.Not(b)), c.And(c.Not(a), b)}}))
				return true
			}
		case OAnd:
			var as []*Term
			for _, a := range x.args {
				as = append(as, c.Not(a))
			}
			m.ors = append(m.ors, c.mk(&Term{op: OOr, sort: BoolS, args: as}))
			return true
		case OOr:
			for _, a := range x.args {
				m.todo = append(m.todo, c.Not(a))
			}
			return true
		case OIte:
			m.ors = append(m.ors, c.mk(&Term{op: OOr, sort: BoolS, args: []*Term{c.And(x.args[0], c.Not(x.args[1])), c.And(c.Not(x.args[0]), c.Not(x.args[2]))}}))
			return true
		}
		return m.setLit(x, false)
	case OIte:
		m.ors = append(m.ors, c.mk(&Term{op: OOr, sort: BoolS, args: []*Term{c.And(t.args[0], t.args[1]), c.And(c.Not(t.args[0]), t.args[2])}}))
		return true
	}
	return m.setLit(t, true)
}

func (m *mini) setLit(t *Term, v bool) bool {
	if o, ok := m.lit[t]; ok {
		return o == v
	}
	m.lit[t] = v
	return true
}

// atom tries to hand an arithmetic atom to the simplex.
// result: 1 done, 0 not yet, -1 contradiction
func (m *mini) atom(t *Term) int {
	a, b := t.args[0], t.args[1]
	w := int(a.sort.W)
	ea, eb := m.expr(a), m.expr(b)
	lo, hi := repRange(w)
	le := func(x, y *lexpr, strict bool) int {
		d := x.sub(y)
		if strict {
			d.k = d.k.add(ri(1))
		}
		if !m.s.le(d) {
			return -1
		}
		return 1
	}
	switch t.op {
	case OEq:
		d := ea.sub(eb)
		if !m.inRange(d, pw[w].sub(ri(1)).neg(), pw[w].sub(ri(1)), true) {
			return 0
		}
		n := lconst(ri(0)).sub(d)
		if !m.s.le(d) || !m.s.le(n) {
			return -1
		}
		return 1
	case OSlt, OSle:
		if w != 64 {
			ea, eb = m.signed(a, ea), m.signed(b, eb)
			if ea == nil || eb == nil {
				return 0
			}
			return le(ea, eb, t.op == OSlt)
		}
		if !m.inRange(ea, lo, hi, true) || !m.inRange(eb, lo, hi, true) {
			return 0
		}
		return le(ea, eb, t.op == OSlt)
	case OUlt, OUle:
		if !m.inRange(ea, lo, hi, true) || !m.inRange(eb, lo, hi, true) {
			return 0
		}
		if w < 64 {
			return le(ea, eb, t.op == OUlt)
		}
		if m.inRange(eb, ri(0), hi, true) {
			if r := le(lconst(ri(0)), ea, false); r < 0 {
				return r
			}
			return le(ea, eb, t.op == OUlt)
		}
		// the larger side may be negative (a huge unsigned value)
		if m.inRange(ea, ri(0), hi, true) {
			return 0
		}
		return 0
	}
	return 0
}

// signed is the signed reading of a narrow term, once its sign is known.
func (m *mini) signed(t *Term, e *lexpr) *lexpr {
	w := int(t.sort.W)
	c := m.cfg.c
	lp := t.op != OVar
	if m.inRange(e, ri(0), pw[w-1].sub(ri(1)), lp) {
		return e
	}
	if m.inRange(e, pw[w-1], pw[w].sub(ri(1)), lp) {
		n := lconst(pw[w].neg())
		n.addTo(e, ri(1))
		return n
	}
	if w == 32 && t.op == OVar && !m.iteOn[t] {
		m.iteOn[t] = true
		half := c.BV(1<<uint(w-1), w)
		m.ors = append(m.ors, c.mk(&Term{op: OOr, sort: BoolS, args: []*Term{c.Ult(t, half), c.Ule(half, t)}}))
	}
	return nil
}

func (m *mini) propagate() int {
	for {
		if !m.flush() {
			return -1
		}
		prog := false
		var rest []*Term
		for _, t := range m.defer_ {
			switch m.atom(t) {
			case -1:
				return -1
			case 1:
				prog = true
			default:
				rest = append(rest, t)
			}
		}
		m.defer_ = rest
		// clauses
		var ors []*Term
		for _, o := range m.ors {
			var left []*Term
			sat := false
			for _, d := range o.args {
				switch m.value(d) {
				case 1:
					sat = true
				case 0:
					left = append(left, d)
				}
			}
			if sat {
				continue
			}
			switch len(left) {
			case 0:
				return -1
			case 1:
				m.todo = append(m.todo, left[0])
				prog = true
			default:
				if len(left) != len(o.args) {
					o = m.cfg.c.mk(&Term{op: OOr, sort: BoolS, args: left})
				}
				ors = append(ors, o)
			}
		}
		m.ors = ors
		if !prog {
			break
		}
	}
	return 0
}

// value: 1 known true, -1 known false, 0 unknown (cheap checks only).
func (m *mini) value(t *Term) int {
	switch t.op {
	case OConst:
		if t.val == 1 {
			return 1
		}
		return -1
	case ONot:
		return -m.value(t.args[0])
	case OAnd:
		r := 1
		for _, a := range t.args {
			switch m.value(a) {
			case -1:
				return -1
			case 0:
				r = 0
			}
		}
		return r
	case OOr:
		r := -1
		for _, a := range t.args {
			switch m.value(a) {
			case 1:
				return 1
			case 0:
				r = 0
			}
		}
		return r
	case OEq:
		if t.args[0].sort.K == SU {
			x, y := m.find(t.args[0]), m.find(t.args[1])
			if x == y {
				return 1
			}
			if m.cfg.sents[x] && m.cfg.sents[y] {
				return -1
			}
			for _, p := range m.une {
				p0, p1 := m.find(p[0]), m.find(p[1])
				if p0 == x && p1 == y || p0 == y && p1 == x {
					return -1
				}
			}
			return 0
		}
	}
	if v, ok := m.lit[t]; ok {
		if v {
			return 1
		}
		return -1
	}
	return 0
}

func (m *mini) branch(alts ...[]*Term) SatRes {
	res := Unsat
	for i, a := range alts {
		n := m
		if i < len(alts)-1 {
			n = m.clone()
		}
		n.todo = append(n.todo, a...)
		switch n.solve() {
		case Sat:
			return Sat
		case Unknown:
			res = Unknown
		}
	}
	return res
}

func (m *mini) solve() SatRes {
	m.cfg.nodes++
	if m.cfg.nodes > linNodes {
		return Unknown
	}
	if m.propagate() < 0 {
		return Unsat
	}
	switch m.s.check() {
	case -1:
		return Unsat
	case 0:
		return Unknown
	}
	c := m.cfg.c
	// a chance to finish
	if md := m.model(); md != nil {
		m.cfg.found = md
		return Sat
	}
	switch m.lookahead() {
	case -1:
		return Unsat
	case 1:
		m.cfg.nodes--
		return m.solve()
	}
	for len(m.ites) > 0 {
		// the outermost one first
		k := 0
		for i, x := range m.ites {
			if x.id > m.ites[k].id {
				k = i
			}
		}
		t := m.ites[k]
		m.ites = append(append([]*Term{}, m.ites[:k]...), m.ites[k+1:]...)
		// a fresh equality: t is a variable in the simplex; its definition
		// under each outcome of the condition
		switch m.value(t.args[0]) {
		case 1:
			if !m.define(t, t.args[1]) {
				return Unsat
			}
			return m.solve()
		case -1:
			if !m.define(t, t.args[2]) {
				return Unsat
			}
			return m.solve()
		}
		n := m.clone()
		n.todo = append(n.todo, t.args[0])
		r1 := Unsat
		if n.define(t, t.args[1]) {
			r1 = n.solve()
		}
		if r1 == Sat {
			return Sat
		}
		m.todo = append(m.todo, c.Not(t.args[0]))
		r2 := Unsat
		if m.define(t, t.args[2]) {
			r2 = m.solve()
		}
		if r2 == Sat {
			return Sat
		}
		if r1 == Unsat && r2 == Unsat {
			return Unsat
		}
		return Unknown
	}
	// choose a split
	for i, p := range m.neqs {
		w := int(p[0].sort.W)
		d := m.expr(p[0]).sub(m.expr(p[1]))
		if !m.inRange(d, pw[w].sub(ri(1)).neg(), pw[w].sub(ri(1)), true) {
			continue
		}
		// violated by the current solution, or undecided
		m.neqs = append(append([][2]*Term{}, m.neqs[:i]...), m.neqs[i+1:]...)
		n := m.clone()
		x := lconst(ri(1))
		x.addTo(d, ri(1))
		r1 := Unsat
		if n.s.le(x) {
			r1 = n.solve()
		}
		if r1 == Sat {
			return Sat
		}
		y := lconst(ri(1))
		y.addTo(d, ri(-1))
		r2 := Unsat
		if m.s.le(y) {
			r2 = m.solve()
		}
		if r2 == Sat {
			return Sat
		}
		if r1 == Unsat && r2 == Unsat {
			return Unsat
		}
		return Unknown
	}
	if len(m.ors) > 0 {
		best := 0
		for i, o := range m.ors {
			if len(o.args) < len(m.ors[best].args) {
				best = i
			}
		}
		o := m.ors[best]
		m.ors = append(append([]*Term{}, m.ors[:best]...), m.ors[best+1:]...)
		var alts [][]*Term
		for i, d := range o.args {
			alt := []*Term{d}
			for _, e := range o.args[:i] {
				alt = append(alt, c.Not(e))
			}
			alts = append(alts, alt)
		}
		return m.branch(alts...)
	}
	// atoms that could not be translated: decide the sign of their sides
	for i, t := range m.defer_ {
		if t.op != OUlt && t.op != OUle || t.args[0].sort.W != 64 {
			continue
		}
		lo, hi := repRange(64)
		ea, eb := m.expr(t.args[0]), m.expr(t.args[1])
		if !m.inRange(ea, lo, hi, true) || !m.inRange(eb, lo, hi, true) {
			continue
		}
		rest := append(append([]*Term{}, m.defer_[:i]...), m.defer_[i+1:]...)
		n := m.clone()
		m.defer_ = rest
		// b >= 0
		neg := lconst(ri(0))
		neg.addTo(eb, ri(-1))
		r1 := Unsat
		if n.s.le(neg) {
			r1 = n.solve()
		}
		if r1 == Sat {
			return Sat
		}
		// b < 0: a >= 0, or a <= b
		pos := lconst(ri(1))
		pos.addTo(eb, ri(1))
		if !m.s.le(pos) {
			return r1
		}
		n = m.clone()
		an := lconst(ri(0))
		an.addTo(ea, ri(-1))
		r2 := Unsat
		if n.s.le(an) {
			r2 = n.solve()
		}
		if r2 == Sat {
			return Sat
		}
		d := ea.sub(eb)
		if t.op == OUlt {
			d.k = d.k.add(ri(1))
		}
		ap := lconst(ri(1))
		ap.addTo(ea, ri(1))
		r3 := Unsat
		if m.s.le(d) && m.s.le(ap) {
			r3 = m.solve()
		}
		if r3 == Sat {
			return Sat
		}
		if r1 == Unsat && r2 == Unsat && r3 == Unsat {
			return Unsat
		}
		return Unknown
	}
	// two applications of a function that agree on the arguments only
	if a, b, x, y := m.clash(); a != nil {
		return m.branch([]*Term{c.Ult(x, y)}, []*Term{c.Ult(y, x)}, []*Term{c.Eq(x, y), c.Eq(a, b)})
	}
	return Unknown
}

// clash finds two applications of a function whose arguments are equal in the
// current solution and whose values are not; x and y are the one pair of
// arguments that is not the same term.
func (m *mini) clash() (a, b, x, y *Term) {
	md := m.read()
	by := map[string][]*Term{}
	var all []*Term
	for t := range m.vars {
		all = append(all, t)
	}
	for t := range m.lit {
		all = append(all, t)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].id < all[j].id })
	for _, t := range all {
		if t.op != OUF {
			continue
		}
		vals := make([]uint64, len(t.args))
		for i, a := range t.args {
			vals[i] = md.eval(a)
		}
		k := ufKey(t.name, vals)
	pairs:
		for _, p := range by[k] {
			if p == t || p.sort != t.sort || md.leaf[p] == md.leaf[t] {
				continue
			}
			x, y = nil, nil
			for i := range t.args {
				if p.args[i] == t.args[i] || t.args[i].sort.K == SU && m.find(p.args[i]) == m.find(t.args[i]) {
					continue
				}
				if x != nil || t.args[i].sort.K != SBV {
					continue pairs
				}
				x, y = p.args[i], t.args[i]
			}
			if x != nil {
				return p, t, x, y
			}
		}
		by[k] = append(by[k], t)
	}
	return nil, nil, nil, nil
}

// lookahead: disequalities and clauses with only one alternative left.
func (m *mini) lookahead() int {
	var neqs [][2]*Term
	res := 0
	for _, p := range m.neqs {
		w := int(p[0].sort.W)
		d := m.expr(p[0]).sub(m.expr(p[1]))
		if !m.inRange(d, pw[w].sub(ri(1)).neg(), pw[w].sub(ri(1)), true) {
			neqs = append(neqs, p)
			continue
		}
		if len(d.c) == 0 {
			if d.k.sign() == 0 {
				return -1
			}
			continue
		}
		lt, gt := lconst(ri(1)), lconst(ri(1))
		lt.addTo(d, ri(1))
		gt.addTo(d, ri(-1))
		a, b := m.impossible(lt), m.impossible(gt)
		switch {
		case a && b:
			return -1
		case a:
			if !m.s.le(gt) {
				return -1
			}
			res = 1
		case b:
			if !m.s.le(lt) {
				return -1
			}
			res = 1
		default:
			neqs = append(neqs, p)
		}
	}
	m.neqs = neqs
	if res == 1 {
		return 1
	}
	var ors []*Term
	for i, o := range m.ors {
		var left []*Term
		for _, d := range o.args {
			n := m.clone()
			n.ors, n.neqs, n.ites = nil, nil, nil
			n.todo = append(n.todo, d)
			if n.propagate() < 0 || n.s.check() < 0 {
				continue
			}
			left = append(left, d)
		}
		switch len(left) {
		case 0:
			return -1
		case 1:
			m.todo = append(m.todo, left[0])
			res = 1
		default:
			if len(left) < len(o.args) {
				o = m.cfg.c.mk(&Term{op: OOr, sort: BoolS, args: left})
			}
			ors = append(ors, o)
		}
		if res == 1 {
			ors = append(ors, m.ors[i+1:]...)
			break
		}
	}
	m.ors = ors
	return res
}

// define asserts that the variable standing for ite t equals x.
func (m *mini) define(t, x *Term) bool {
	w := int(t.sort.W)
	lo, hi := repRange(w)
	ev := m.expr(t)
	ex := m.expr(x)
	if !m.inRange(ex, lo, hi, true) {
		return true // nothing learnt (weaker, still sound)
	}
	d := ev.sub(ex)
	n := lconst(ri(0)).sub(d)
	return m.s.le(d) && m.s.le(n)
}

// ---- models ----

// Model assigns values to leaves; everything else is computed.
type Model struct {
	leaf map[*Term]uint64
	uf   map[string]uint64
	memo map[*Term]uint64
	bad  bool // met a term it cannot evaluate

	// a variation of base: only the terms in anc differ
	base *Model
	anc  map[*Term]bool
}

func (md *Model) leafOf(t *Term) (uint64, bool) {
	v, ok := md.leaf[t]
	if !ok && md.base != nil {
		v, ok = md.base.leaf[t]
	}
	return v, ok
}

func (md *Model) distinct(us []*Term) bool {
	if len(us) < 2 {
		return true
	}
	seen := map[uint64]bool{}
	for _, t := range us {
		v := md.eval(t)
		if seen[v] {
			return false
		}
		seen[v] = true
	}
	return true
}

func newModel() *Model { return &Model{leaf: map[*Term]uint64{}, uf: map[string]uint64{}} }

func ufKey(name string, vals []uint64) string {
	b := append([]byte(name), '|')
	for _, v := range vals {
		b = strconv.AppendUint(b, v, 16)
		b = append(b, ',')
	}
	return string(b)
}

func (md *Model) eval(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if md.base != nil && !md.anc[t] {
		return md.base.eval(t)
	}
	if md.memo == nil {
		md.memo = map[*Term]uint64{}
	}
	if v, ok := md.memo[t]; ok {
		return v
	}
	v := md.eval1(t)
	md.memo[t] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (md *Model) eval1(t *Term) uint64 {
	w := int(t.sort.W)
	mk := mask(w)
	if t.sort.K == SArr && t.op != OVar {
		md.bad = true
	}
	switch t.op {
	case OVar:
		if v, ok := md.leafOf(t); ok {
			return v
		}
		if t.sort.K == SU || t.sort.K == SArr {
			return 1<<40 + uint64(t.id)
		}
		return 0
	case OStore:
		md.bad = true
		return 1<<40 + uint64(t.id)
	case OUF, OSelect:
		vals := make([]uint64, len(t.args))
		for i, a := range t.args {
			vals[i] = md.eval(a)
		}
		k := ufKey(t.name, vals)
		if t.op != OUF {
			k = opNames[t.op] + k
		}
		if v, ok := md.uf[k]; ok {
			return v
		}
		v, ok := md.leafOf(t)
		if !ok && t.sort.K == SU {
			v = 1<<40 + uint64(t.id)
		}
		md.uf[k] = v
		return v
	}
	switch t.op {
	case OAnd:
		for _, x := range t.args {
			if md.eval(x) == 0 {
				return 0
			}
		}
		return 1
	case OOr:
		for _, x := range t.args {
			if md.eval(x) == 1 {
				return 1
			}
		}
		return 0
	case OIte:
		if md.eval(t.args[0]) == 1 {
			return md.eval(t.args[1])
		}
		return md.eval(t.args[2])
	}
	a := make([]uint64, len(t.args))
	for i, x := range t.args {
		a[i] = md.eval(x)
	}
	aw := 0
	if len(t.args) > 0 {
		aw = int(t.args[0].sort.W)
	}
	switch t.op {
	case ONot:
		return 1 - a[0]
	case OAnd:
		for _, x := range a {
			if x == 0 {
				return 0
			}
		}
		return 1
	case OOr:
		for _, x := range a {
			if x != 0 {
				return 1
			}
		}
		return 0
	case OIte:
		if a[0] != 0 {
			return a[1]
		}
		return a[2]
	case OEq:
		return b2u(a[0] == a[1])
	case OLin:
		r := t.val
		for i := range a {
			r += t.coef[i] * a[i]
		}
		return r & mk
	case OMul:
		r := uint64(1)
		for _, x := range a {
			r *= x
		}
		return r & mk
	case OUDiv:
		if a[1] == 0 {
			return mk
		}
		return a[0] / a[1]
	case OURem:
		if a[1] == 0 {
			return a[0]
		}
		return a[0] % a[1]
	case OSDiv:
		x, y := int64(signext(a[0], w)), int64(signext(a[1], w))
		if y == 0 {
			if x >= 0 {
				return mk
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & mk
		}
		return uint64(x/y) & mk
	case OSRem:
		x, y := int64(signext(a[0], w)), int64(signext(a[1], w))
		if y == 0 {
			return a[0]
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mk
	case OBvAnd:
		r := mk
		for _, x := range a {
			r &= x
		}
		return r
	case OBvOr:
		r := uint64(0)
		for _, x := range a {
			r |= x
		}
		return r
	case OBvXor:
		r := uint64(0)
		for _, x := range a {
			r ^= x
		}
		return r
	case OShl:
		if a[1] >= uint64(w) {
			return 0
		}
		return a[0] << a[1] & mk
	case OLShr:
		if a[1] >= uint64(w) {
			return 0
		}
		return a[0] >> a[1]
	case OAShr:
		s := a[1]
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		return uint64(int64(signext(a[0], w))>>s) & mk
	case OUlt:
		return b2u(a[0] < a[1])
	case OUle:
		return b2u(a[0] <= a[1])
	case OSlt:
		return b2u(int64(signext(a[0], aw)) < int64(signext(a[1], aw)))
	case OSle:
		return b2u(int64(signext(a[0], aw)) <= int64(signext(a[1], aw)))
	case OConcat:
		r := uint64(0)
		for i, x := range t.args {
			r = r<<uint(x.sort.W) | a[i]
		}
		return r
	case OExtract:
		return a[0] >> (t.val & 255) & mk
	case OZext:
		return a[0]
	case OSext:
		return signext(a[0], aw) & mk
	}
	panic("eval: op " + opNames[t.op])
}

func (md *Model) all(l []*Term) bool {
	for _, f := range l {
		if md.eval(f) != 1 {
			return false
		}
	}
	return true
}

// read is the assignment read off the simplex.
func (m *mini) read() *Model {
	md := newModel()
	for t, v := range m.vars {
		if t.op == OVar || t.op == OUF || t.op == OSelect {
			md.leaf[t] = m.s.beta[v].u64() & mask(int(t.sort.W))
		}
	}
	for t, v := range m.vars {
		if t.op == OConcat {
			x := m.s.beta[v].u64()
			n := int(t.sort.W)
			for _, p := range m.cfg.c.pieces(t) {
				n -= int(p.sort.W)
				if p.op == OVar || p.op == OUF || p.op == OSelect {
					md.leaf[p] = x >> uint(n) & mask(int(p.sort.W))
				}
			}
		}
	}
	for t, v := range m.lit {
		if t.op == OVar || t.op == OUF {
			md.leaf[t] = b2u(v)
		}
	}
	us := map[*Term]bool{}
	for t := range m.uf {
		us[t] = true
	}
	for t := range us {
		if t.op == OVar || t.op == OUF {
			md.leaf[t] = 1<<40 + uint64(m.find(t).id)
		}
	}
	return md
}

// model: that assignment, if it really satisfies the query.
func (m *mini) model() *Model {
	md := m.read()
	if md.all(m.cfg.orig) || len(m.ors) == 0 && len(m.neqs) == 0 && m.cfg.repair(md) {
		return md
	}
	for _, f := range m.cfg.orig {
		if md.eval(f) != 1 && len(m.cfg.small(f)) == 0 {
			return nil
		}
	}
	if m.cfg.repair(md) {
		return md
	}
	return nil
}

// small leaves (width at most 8, and booleans) below a formula.
func (cfg *miniCfg) small(f *Term) []*Term {
	if l, ok := cfg.smallMem[f]; ok {
		return l
	}
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || len(out) > 12 {
			return
		}
		seen[t] = true
		if (t.op == OVar || t.op == OUF || t.op == OSelect) && (t.sort.K == SBV && t.sort.W <= 8 || t.sort.K == SBool) {
			out = append(out, t)
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(f)
	if cfg.smallMem == nil {
		cfg.smallMem = map[*Term][]*Term{}
	}
	cfg.smallMem[f] = out
	return out
}

// above is the set of the terms below fs that contain x.
func above(x *Term, fs []*Term) map[*Term]bool {
	memo := map[*Term]bool{x: true}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if r, ok := memo[t]; ok {
			return r
		}
		r := false
		for _, a := range t.args {
			r = walk(a) || r
		}
		memo[t] = r
		return r
	}
	for _, f := range fs {
		walk(f)
	}
	return memo
}

// repair changes the values of bytes and flags until everything holds.
func (cfg *miniCfg) repair(md *Model) bool {
	if cfg.repairs > 6 {
		return false
	}
	cfg.repairs++
	touched := map[*Term]bool{}
	for round := 0; round < 40; round++ {
		var bad *Term
		for _, f := range cfg.orig {
			if md.eval(f) != 1 {
				bad = f
				break
			}
		}
		if bad == nil {
			return !md.bad
		}
		fixed := false
	leaves:
		for _, x := range cfg.small(bad) {
			if touched[x] && round > 20 {
				continue
			}
			var dep []*Term
			for _, f := range cfg.orig {
				if f == bad {
					continue
				}
				for _, y := range cfg.small(f) {
					if y == x {
						if md.eval(f) == 1 {
							dep = append(dep, f)
						}
						break
					}
				}
			}
			n := uint64(256)
			if x.sort.K == SBool {
				n = 2
			} else {
				n = 1 << uint(x.sort.W)
			}
			old := md.leaf[x]
			anc := above(x, append(dep[:len(dep):len(dep)], bad))
			for k := uint64(1); k < n; k++ {
				v := (old + k) & (n - 1)
				t := newModel()
				t.base, t.anc = md, anc
				t.leaf[x] = v
				if t.eval(bad) != 1 || !t.all(dep) || t.eval(x) != v {
					if k == 1 && t.eval(x) != v {
						continue leaves
					}
					continue
				}
				md.leaf[x] = v
				md.memo, md.uf = nil, map[string]uint64{}
				touched[x] = true
				fixed = true
				break leaves
			}
		}
		if !fixed {
			cfg.why = bad
			return false
		}
	}
	return false
}

// miniSolve decides a conjunction, or gives up.
func (s *Solver) miniSolve(l []*Term) (SatRes, *Model) {
	cfg := &miniCfg{c: s.c, orig: l, sents: map[*Term]bool{}}
	for _, t := range s.sents {
		cfg.sents[t] = true
	}
	m := &mini{cfg: cfg, s: newSx(), vars: map[*Term]int{}, lit: map[*Term]bool{}, uf: map[*Term]*Term{}, iteOn: map[*Term]bool{}}
	m.todo = append(m.todo, l...)
	r := m.solve()
	if s.Dbg != nil && r == Unknown {
		fmt.Fprintf(s.Dbg, "lin: nodes %d repairs %d why %.300v\n", cfg.nodes, cfg.repairs, cfg.why)
	}
	return r, cfg.found
}

var linNodes = 120
