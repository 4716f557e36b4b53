package main

// Path merging: a call of a function that neither writes memory nor loops is
// explored completely, and the paths that return values of the same shape are
// joined into one state whose result is a conditional term.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type mergeSig struct{ states []*State }

// mergeable: no effects, no loops, and enough branches to be worth it.
func (w *World) mergeable(fn *ssa.Function, atLeast int) bool {
	w.mu.Lock()
	r, ok := w.merge[fn]
	w.mu.Unlock()
	if ok {
		return r >= atLeast
	}
	r = w.mergeIfs(fn, 0)
	w.mu.Lock()
	w.merge[fn] = r
	w.mu.Unlock()
	return r >= atLeast
}

// mergeIfs counts the branches, or is negative if the function has effects.
func (w *World) mergeIfs(fn *ssa.Function, depth int) int {
	if fn.Blocks == nil {
		w.build(fn)
	}
	if fn.Blocks == nil || depth > 3 || fn.Recover != nil || fn.Signature.Results().Len() == 0 {
		return -1000
	}
	n := 0
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return -1000
			}
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.If:
				n++
			case *ssa.Phi, *ssa.Jump, *ssa.Return, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface,
				*ssa.ChangeInterface, *ssa.Extract, *ssa.Field, *ssa.FieldAddr, *ssa.Index, *ssa.IndexAddr, *ssa.DebugRef:
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return -1000
				}
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					continue
				}
				f := in.Call.StaticCallee()
				if f != nil && strings.HasPrefix(fnName(f), "unicode.Is") && models[fnName(f)] != nil {
					n++
					continue
				}
				if f == nil || models[fnName(f)] != nil || !isOurs(fnPkgPath(f)) {
					return -1000
				}
				k := w.mergeIfs(f, depth+1)
				if k < 0 {
					return -1000
				}
				n += k
			default:
				return -1000
			}
		}
	}
	return n
}

// callMerged explores a call completely and joins its paths.
func (ex *Exec) callMerged(st *State, f *ssa.Function, args []Val, in *ssa.Call) {
	base := st.clone()
	depth := len(st.thread().frames)
	work := st.clone()
	ex.push(work, f, args, nil, in)
	cur := st.cur
	out := ex.runAll([]*State{work}, func(s *State) bool {
		return s.cur == cur && len(s.th[cur].frames) <= depth
	})
	ex.st = st
	type group struct {
		states []*State
		key    string
	}
	groups := map[string]*group{}
	var order []string
	n := len(base.pc)
	for _, s := range out {
		k, ok := shape(s.top().env[in])
		if !ok || len(s.th[cur].frames) != depth || len(s.pc) < n {
			panic(mergeSig{out})
		}
		g := groups[k]
		if g == nil {
			g = &group{key: k}
			groups[k] = g
			order = append(order, k)
		}
		g.states = append(g.states, s)
	}
	sort.Strings(order)
	var res []*State
	for _, k := range order {
		g := groups[k]
		if len(g.states) == 1 {
			res = append(res, g.states[0])
			continue
		}
		in0 := map[*State]bool{}
		for _, s := range g.states {
			in0[s] = true
		}
		nleaf := len(leaves(g.states[0].top().env[in], nil))
		vals := make([]*Term, nleaf)
		cond, ok := ex.mergeTree(out, n, in0, in, vals)
		if !ok {
			panic(mergeSig{out})
		}
		m := base.clone()
		for _, s := range g.states {
			m.fresh = max(m.fresh, s.fresh)
			m.nextObj = max(m.nextObj, s.nextObj)
		}
		if cond.op == OAnd {
			for _, a := range cond.args {
				m.assume(a)
			}
		} else {
			m.assume(cond)
		}
		i := 0
		m.th[cur].top().set(in, relabel(g.states[0].top().env[in], vals, &i))
		m.th[cur].top().ip++
		res = append(res, m)
	}
	panic(mergeSig{res})
}

// mergeTree follows the tree of case distinctions below position n.
func (ex *Exec) mergeTree(all []*State, n int, in map[*State]bool, at ssa.Value, vals []*Term) (*Term, bool) {
	c := ex.c
	any, every := false, true
	for _, s := range all {
		if in[s] {
			any = true
		} else {
			every = false
		}
	}
	if !any {
		return c.False, true
	}
	if len(all) == 1 {
		copy(vals, leaves(all[0].top().env[at], nil))
		cond := c.True
		for _, t := range all[0].pc[n:] {
			cond = c.And(cond, t)
		}
		return cond, true
	}
	for _, s := range all {
		if len(s.pc) <= n {
			return nil, false
		}
	}
	_ = every
	t := all[0].pc[n]
	var a, b []*State
	var other *Term
	for _, s := range all {
		if s.pc[n] == t {
			a = append(a, s)
		} else {
			b = append(b, s)
			if other == nil {
				other = s.pc[n]
			} else if other != s.pc[n] {
				return nil, false
			}
		}
	}
	if len(b) == 0 {
		r, ok := ex.mergeTree(a, n+1, in, at, vals)
		if !ok {
			return nil, false
		}
		return c.And(t, r), true
	}
	if other != c.Not(t) {
		return nil, false
	}
	va, vb := make([]*Term, len(vals)), make([]*Term, len(vals))
	ra, ok1 := ex.mergeTree(a, n+1, in, at, va)
	rb, ok2 := ex.mergeTree(b, n+1, in, at, vb)
	if !ok1 || !ok2 {
		return nil, false
	}
	for i := range vals {
		switch {
		case ra.isFalse():
			vals[i] = vb[i]
		case rb.isFalse():
			vals[i] = va[i]
		default:
			vals[i] = c.Ite(t, va[i], vb[i])
		}
	}
	switch {
	case ra == rb:
		return ra, true
	case ra.isTrue():
		return c.Or(t, rb), true
	case rb.isTrue():
		return c.Or(other, ra), true
	}
	return c.Or(c.And(t, ra), c.And(other, rb)), true
}

// shape describes a value up to its non-boolean terms.
func shape(v Val) (string, bool) {
	switch v := v.(type) {
	case nil:
		return "-", true
	case *Term:
		if v.sort.K == SBool && isConst(v) {
			return v.String(), true
		}
		return "t" + sortTag(v.sort), true
	case TupV:
		r := "("
		for _, x := range v {
			s, ok := shape(x)
			if !ok {
				return "", false
			}
			r += s + ","
		}
		return r + ")", true
	case *StructV:
		r := "{"
		for _, x := range v.F {
			s, ok := shape(x)
			if !ok {
				return "", false
			}
			r += s + ","
		}
		return r + "}", true
	case IfaceV:
		if v.T == nil {
			return "nil", true
		}
		s, ok := shape(v.V)
		return "!" + types.TypeString(v.T, nil) + s, ok
	case StrV:
		r := fmt.Sprintf("s%d", len(v.S))
		for _, ch := range v.S {
			if ch.F != nil {
				r += fmt.Sprintf("F%d,%d,%d;", ch.F.Id.id, ch.Lo.id, ch.N.id)
			} else if t, ok := ch.U.(*Term); ok && isConst(t) {
				r += fmt.Sprintf("%x;", t.val)
			} else {
				return "", false
			}
		}
		return r, true
	}
	return "", false
}

func leaves(v Val, out []*Term) []*Term {
	switch v := v.(type) {
	case *Term:
		if v.sort.K == SBool && isConst(v) {
			return out
		}
		return append(out, v)
	case TupV:
		for _, x := range v {
			out = leaves(x, out)
		}
	case *StructV:
		for _, x := range v.F {
			out = leaves(x, out)
		}
	case IfaceV:
		if v.T != nil {
			out = leaves(v.V, out)
		}
	}
	return out
}

func relabel(v Val, vals []*Term, i *int) Val {
	switch v := v.(type) {
	case *Term:
		if v.sort.K == SBool && isConst(v) {
			return v
		}
		*i++
		return vals[*i-1]
	case TupV:
		out := make(TupV, len(v))
		for k, x := range v {
			out[k] = relabel(x, vals, i)
		}
		return out
	case *StructV:
		out := &StructV{F: make([]Val, len(v.F))}
		for k, x := range v.F {
			out.F[k] = relabel(x, vals, i)
		}
		return out
	case IfaceV:
		if v.T != nil {
			return IfaceV{v.T, relabel(v.V, vals, i)}
		}
	}
	return v
}
