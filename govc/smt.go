package main

// SMT back end: persistent solver processes fed SMT-LIB; every distinct term
// is introduced once by define-fun.  Queries are cached per term context.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type SatRes int

const (
	Unknown SatRes = iota
	Sat
	Unsat
)

func (r SatRes) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type proc struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	defined map[int]bool
	ufs     map[string]bool
	nq      int
}

type SolverStats struct {
	Queries, CacheHits, Fallbacks int64
	Time, MiniTime                time.Duration
	ByBackend                     map[string]int64
}

type Solver struct {
	c      *Ctx
	p      *proc
	cache  map[string]SatRes
	axioms []*Term
	Stats  SolverStats
	sents  []*Term // pairwise distinct U constants
	Dbg    io.Writer

	models []*Model // recent satisfying assignments
	XCheck bool     // confirm every in-process "unsat" with an SMT solver
}

var totalQueries int64

func NewSolver(c *Ctx) *Solver {
	return &Solver{c: c, cache: map[string]SatRes{}, Stats: SolverStats{ByBackend: map[string]int64{}}}
}

func z3Path(name string) string {
	for _, d := range []string{"/usr/local/bin/", "/usr/bin/", "/opt/veriftools/bin/"} {
		if _, err := os.Stat(d + name); err == nil {
			return d + name
		}
	}
	return name
}

func (s *Solver) start() {
	cmd := exec.Command(z3Path("z3"), "-in", "-smt2")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	s.p = &proc{cmd: cmd, in: in, out: bufio.NewReader(out), defined: map[int]bool{}, ufs: map[string]bool{}}
	fmt.Fprintln(in, "(set-option :print-success false)(set-option :timeout 4000)(declare-sort U 0)")
}

func (s *Solver) Close() {
	if s.p != nil {
		s.p.in.Close()
		s.p.cmd.Process.Kill()
		s.p.cmd.Wait()
		s.p = nil
	}
}

func quote(n string) string { return "|" + n + "|" }

// emitDefs writes declarations/definitions for t (and everything below).
func emitDefs(w *strings.Builder, t *Term, defined map[int]bool, ufs map[string]bool) {
	if defined[t.id] {
		return
	}
	defined[t.id] = true
	for _, a := range t.args {
		emitDefs(w, a, defined, ufs)
	}
	switch t.op {
	case OConst:
		return
	case OVar:
		k := quote(t.name)
		if !ufs[k] {
			ufs[k] = true
			fmt.Fprintf(w, "(declare-const %s %s)\n", k, t.sort)
		}
		return
	case OUF:
		k := quote(t.name)
		if !ufs[k] {
			ufs[k] = true
			fmt.Fprintf(w, "(declare-fun %s (", k)
			for _, a := range t.args {
				fmt.Fprintf(w, "%s ", a.sort)
			}
			fmt.Fprintf(w, ") %s)\n", t.sort)
		}
	}
	fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", t.id, t.sort, body(t))
}

func ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.sort.K == SBool {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.sort.W)
	case OVar:
		return quote(t.name)
	}
	return fmt.Sprintf("t%d", t.id)
}

func body(t *Term) string {
	var sb strings.Builder
	switch t.op {
	case OLin:
		w := int(t.sort.W)
		var parts []string
		for i, a := range t.args {
			switch {
			case t.coef[i] == 1:
				parts = append(parts, ref(a))
			case t.coef[i] == mask(w):
				parts = append(parts, "(bvneg "+ref(a)+")")
			default:
				parts = append(parts, fmt.Sprintf("(bvmul (_ bv%d %d) %s)", t.coef[i], w, ref(a)))
			}
		}
		if t.val != 0 {
			parts = append(parts, fmt.Sprintf("(_ bv%d %d)", t.val, w))
		}
		r := parts[0]
		for _, p := range parts[1:] {
			r = "(bvadd " + r + " " + p + ")"
		}
		return r
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&255, ref(t.args[0]))
	case OZext, OSext:
		return fmt.Sprintf("((_ %s %d) %s)", opNames[t.op], int(t.sort.W)-int(t.args[0].sort.W), ref(t.args[0]))
	case OUF:
		sb.WriteString("(" + quote(t.name))
	default:
		sb.WriteString("(" + opNames[t.op])
	}
	for _, a := range t.args {
		sb.WriteString(" " + ref(a))
	}
	sb.WriteString(")")
	return sb.String()
}

// relevant collects the subset of pc connected to goal through shared
// variables (cone of influence), so that unrelated facts do not slow queries.
func cone(pc []*Term, goal []*Term, vars func(*Term) []*Term) []*Term {
	seen := map[*Term]bool{}
	for _, g := range goal {
		for _, v := range vars(g) {
			seen[v] = true
		}
	}
	used := make([]bool, len(pc))
	for {
		ch := false
		for i, p := range pc {
			if used[i] {
				continue
			}
			vs := vars(p)
			hit := len(vs) == 0
			for _, v := range vs {
				if seen[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for _, v := range vs {
					seen[v] = true
				}
			}
		}
		if !ch {
			break
		}
	}
	var out []*Term
	for i, p := range pc {
		if used[i] {
			out = append(out, p)
		}
	}
	return out
}

// Check decides satisfiability of the conjunction.
func (s *Solver) Check(fs []*Term, wantFallback bool) SatRes {
	// normalise
	m := map[*Term]bool{}
	var l []*Term
	for _, f := range fs {
		if f.isFalse() {
			return Unsat
		}
		if f.isTrue() || m[f] {
			continue
		}
		if m[s.c.Not(f)] {
			return Unsat
		}
		m[f] = true
		l = append(l, f)
	}
	if len(l) == 0 {
		return Sat
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	var kb strings.Builder
	for _, f := range l {
		fmt.Fprintf(&kb, "%x,", f.id)
	}
	key := kb.String()
	if r, ok := s.cache[key]; ok && (r != Unknown || !wantFallback) {
		s.Stats.CacheHits++
		return r
	}
	t0 := time.Now()
	s.Stats.Queries++
	atomic.AddInt64(&totalQueries, 1)
	r := s.decide(l, fs[len(fs)-1], wantFallback)
	d := time.Since(t0)
	s.Stats.Time += d
	if s.Dbg != nil && d > 500*time.Millisecond {
		fmt.Fprintf(s.Dbg, "slow query %v %v (%d conj)\n", d, r, len(l))
		if os.Getenv("GOVC_DUMP") != "" {
			os.WriteFile(fmt.Sprintf("/tmp/slow-%d.smt2", s.Stats.Queries), []byte(s.script(l)), 0o644)
		}
	}
	s.cache[key] = r
	return r
}

func (s *Solver) keep(md *Model) {
	if len(s.models) >= 24 {
		s.models = append(s.models[:0], s.models[8:]...)
	}
	s.models = append(s.models, md)
}

// bitty reports whether a formula depends on the bits of something.
func bitty(t *Term, concat bool) bool {
	n := 0
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if n++; n > 300 {
			return true
		}
		switch t.op {
		case OBvOr, OBvXor, OBvAnd:
			return true
		case OConcat:
			if concat {
				return true
			}
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// subQuery: the most recent formula with those about the same bytes often
// suffices.
func (s *Solver) subQuery(l []*Term, g *Term) bool {
	if len(l) <= 3 || !bitty(g, true) {
		return false
	}
	cfg := &miniCfg{}
	mine := map[*Term]bool{}
	for _, x := range cfg.small(g) {
		mine[x] = true
	}
	if len(mine) == 0 {
		return false
	}
	var sub []*Term
	for _, f := range l {
		hit := f == g
		for _, x := range cfg.small(f) {
			hit = hit || mine[x]
		}
		if hit {
			sub = append(sub, f)
		}
	}
	if len(sub) < len(l) && s.queryT(sub, 60) == Unsat {
		s.Stats.ByBackend["z3-4.8.12"]++
		return true
	}
	return false
}

func (s *Solver) decide(l []*Term, g *Term, wantFallback bool) SatRes {
	for i := len(s.models) - 1; i >= 0; i-- {
		if md := s.models[i]; md.all(l) && !md.bad && md.distinct(s.sents) {
			s.Stats.ByBackend["model-reuse"]++
			return Sat
		}
	}
	subTried := false
	if bitty(g, false) {
		subTried = true
		if s.subQuery(l, g) {
			return Unsat
		}
	}
	t0 := time.Now()
	mr, md := s.miniSolve(l)
	s.Stats.MiniTime += time.Since(t0)
	switch {
	case mr == Sat && md.distinct(s.sents):
		s.keep(md)
		s.Stats.ByBackend["govc-lin"]++
		return Sat
	case mr == Unsat:
		if s.XCheck {
			if x := s.query(l); x == Sat {
				panic("solver disagreement: govc-lin says unsat, z3 sat\n" + s.script(l))
			}
		}
		s.Stats.ByBackend["govc-lin"]++
		return Unsat
	}
	if !subTried && s.subQuery(l, g) {
		return Unsat
	}
	t1 := time.Now()
	r := s.query(l)
	if s.Dbg != nil {
		fmt.Fprintf(s.Dbg, "z3 %v %v: %.300v\n", time.Since(t1), r, l[len(l)-1])
	}
	if r == Unknown && wantFallback {
		s.Stats.Fallbacks++
		return s.oneshot(l)
	}
	s.Stats.ByBackend["z3-4.8.12"]++
	return r
}

func (s *Solver) distinctAx() string {
	if len(s.sents) < 2 {
		return ""
	}
	var sb strings.Builder
	sb.WriteString("(distinct")
	for _, t := range s.sents {
		sb.WriteString(" " + ref(t))
	}
	sb.WriteString(")")
	return sb.String()
}

func (s *Solver) query(l []*Term) SatRes { return s.queryT(l, 4000) }

func (s *Solver) queryT(l []*Term, ms int) SatRes {
	if s.p == nil || s.p.nq > 20000 {
		s.Close()
		s.start()
	}
	p := s.p
	p.nq++
	var sb strings.Builder
	for _, t := range s.sents {
		emitDefs(&sb, t, p.defined, p.ufs)
	}
	for _, f := range l {
		emitDefs(&sb, f, p.defined, p.ufs)
	}
	fmt.Fprintf(&sb, "(set-option :timeout %d)\n", ms)
	sb.WriteString("(push)\n")
	if d := s.distinctAx(); d != "" {
		sb.WriteString("(assert " + d + ")\n")
	}
	for _, f := range l {
		sb.WriteString("(assert " + ref(f) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(p.in, sb.String()); err != nil {
		s.Close()
		return Unknown
	}
	line, err := p.out.ReadString('\n')
	if err != nil {
		s.Close()
		return Unknown
	}
	line = strings.TrimSpace(line)
	if line == "sat" {
		s.readModel(l)
	}
	if s.p != nil {
		io.WriteString(p.in, "(pop)\n")
	}
	switch line {
	case "sat":
		return Sat
	case "unsat":
		return Unsat
	case "unknown", "timeout":
		return Unknown
	}
	if strings.HasPrefix(line, "(error") {
		panic("solver: " + line)
	}
	return Unknown
}

func (s *Solver) script(l []*Term) string {
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n(declare-sort U 0)\n")
	def, ufs := map[int]bool{}, map[string]bool{}
	for _, t := range s.sents {
		emitDefs(&sb, t, def, ufs)
	}
	for _, f := range l {
		emitDefs(&sb, f, def, ufs)
	}
	if d := s.distinctAx(); d != "" {
		sb.WriteString("(assert " + d + ")\n")
	}
	for _, f := range l {
		sb.WriteString("(assert " + ref(f) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

func runSolver(bin string, args []string, script string, timeout time.Duration) SatRes {
	cmd := exec.Command(bin, args...)
	cmd.Stdin = strings.NewReader(script)
	done := make(chan SatRes, 1)
	go func() {
		out, _ := cmd.Output()
		t := strings.TrimSpace(string(out))
		switch {
		case strings.HasPrefix(t, "unsat"):
			done <- Unsat
		case strings.HasPrefix(t, "sat"):
			done <- Sat
		default:
			done <- Unknown
		}
	}()
	select {
	case r := <-done:
		return r
	case <-time.After(timeout):
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
		return Unknown
	}
}

var fallbackTimeout = 20 * time.Second

func (s *Solver) oneshot(l []*Term) SatRes {
	sc := s.script(l)
	type res struct {
		r SatRes
		b string
	}
	ch := make(chan res, 3)
	sec := int(fallbackTimeout.Seconds())
	go func() {
		ch <- res{runSolver(z3Path("z3-new"), []string{"-in", fmt.Sprintf("-T:%d", sec)}, sc, fallbackTimeout+time.Second), "z3-5.3.2"}
	}()
	go func() {
		ch <- res{runSolver(z3Path("cvc5"), []string{fmt.Sprintf("--tlimit=%d", sec*1000)}, sc, fallbackTimeout+time.Second), "cvc5-1.1.2"}
	}()
	go func() {
		ch <- res{runSolver(z3Path("z3"), []string{"-in", fmt.Sprintf("-T:%d", sec)}, sc, fallbackTimeout+time.Second), "z3-4.8.12"}
	}()
	for i := 0; i < 3; i++ {
		r := <-ch
		if r.r != Unknown {
			s.Stats.ByBackend[r.b]++
			return r.r
		}
	}
	return Unknown
}

// Model returns values for the given terms under the assertions (best effort).
func (s *Solver) Model(l []*Term, want []*Term) map[string]string {
	var sb strings.Builder
	sb.WriteString("(declare-sort U 0)\n")
	def, ufs := map[int]bool{}, map[string]bool{}
	for _, t := range s.sents {
		emitDefs(&sb, t, def, ufs)
	}
	for _, f := range append(append([]*Term{}, l...), want...) {
		emitDefs(&sb, f, def, ufs)
	}
	if d := s.distinctAx(); d != "" {
		sb.WriteString("(assert " + d + ")\n")
	}
	for _, f := range l {
		sb.WriteString("(assert " + ref(f) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	for _, w := range want {
		sb.WriteString("(get-value (" + ref(w) + "))\n")
	}
	cmd := exec.Command(z3Path("z3"), "-in", "-T:10")
	cmd.Stdin = strings.NewReader(sb.String())
	out, _ := cmd.Output()
	lines := strings.Split(strings.TrimSpace(string(out)), "\n")
	res := map[string]string{}
	if len(lines) == 0 || lines[0] != "sat" {
		return nil
	}
	for i, w := range want {
		if i+1 < len(lines) {
			v := strings.TrimSpace(lines[i+1])
			v = strings.TrimPrefix(v, "((")
			v = strings.TrimSuffix(v, "))")
			v = strings.TrimPrefix(v, ref(w)+" ")
			res[w.String()] = v
		}
	}
	return res
}

// readModel asks the solver for the values of all leaves of the query.
func (s *Solver) readModel(l []*Term) {
	seen := map[*Term]bool{}
	var leaves []*Term
	ok := true
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OStore || t.sort.K == SArr && t.op != OVar {
			ok = false
		}
		for _, a := range t.args {
			walk(a)
		}
		if (t.op == OVar || t.op == OUF || t.op == OSelect) && t.sort.K != SArr {
			leaves = append(leaves, t)
		}
	}
	for _, t := range s.sents {
		walk(t)
	}
	for _, t := range l {
		walk(t)
	}
	if !ok || len(leaves) == 0 || len(leaves) > 4000 {
		return
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, t := range leaves {
		sb.WriteString(" " + ref(t))
	}
	sb.WriteString("))\n")
	if _, err := io.WriteString(s.p.in, sb.String()); err != nil {
		s.Close()
		return
	}
	text, err := readSexp(s.p.out)
	if err != nil {
		s.Close()
		return
	}
	toks := sexpTokens(text)
	// ( ( name val ) ( name val ) ... ) where val is an atom
	md := newModel()
	uval := map[string]uint64{}
	i := 1
	for _, t := range leaves {
		if i+3 >= len(toks)+0 || toks[i] != "(" {
			return
		}
		if toks[i+3] != ")" {
			return
		}
		v := toks[i+2]
		var n uint64
		switch {
		case v == "true":
			n = 1
		case v == "false":
		case strings.HasPrefix(v, "#x"):
			n, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			n, err = strconv.ParseUint(v[2:], 2, 64)
		default:
			u, ok := uval[v]
			if !ok {
				u = 1<<41 + uint64(len(uval))
				uval[v] = u
			}
			n = u
		}
		if err != nil {
			return
		}
		md.leaf[t] = n
		i += 4
	}
	if md.all(l) && !md.bad && md.distinct(s.sents) {
		s.keep(md)
	} else if s.Dbg != nil {
		fmt.Fprintln(s.Dbg, "note: solver model not reproduced")
	}
}

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth, bar := 0, false
	for {
		b, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		switch {
		case b == '|':
			bar = !bar
		case bar:
		case b == '(':
			depth++
		case b == ')':
			depth--
			if depth == 0 {
				r.ReadString('\n')
				return sb.String(), nil
			}
		}
	}
}

func sexpTokens(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		switch b := s[i]; {
		case b == '(' || b == ')':
			out = append(out, s[i:i+1])
			i++
		case b == ' ' || b == '\n' || b == '\t' || b == '\r':
			i++
		case b == '|':
			j := i + 1
			for j < len(s) && s[j] != '|' {
				j++
			}
			out = append(out, s[i:min(j+1, len(s))])
			i = j + 1
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}
