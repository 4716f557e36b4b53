package marshal

import (
	"reflect"

	"vspec/gv"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
)

// given is a value given to Marshal or Unmarshal: nothing, a pointer, or a
// value that is no pointer.
func given(dir string) (x any, m *mon, ptr bool) {
	t := &ftype{kind: reflect.Pointer}
	if gv.Bool() {
		t.kind = reflect.Kind(gv.Int())
		gv.Assume(t.kind != reflect.Pointer && t.kind != reflect.Invalid)
	}
	m = value(t, dir)
	m.depth = 0
	sub := t // the type (un)marshaled
	if t.kind == reflect.Pointer {
		sub = &ftype{kind: reflect.Kind(gv.Int())}
		t.elem = sub
	}
	sub.wire = thriftwire.Type(gv.Byte())
	sub.arsh = m.whole(sub)
	m.self.to = &cell{m: m, t: sub, role: pointee}
	if gv.Bool() {
		return nil, m, false
	}
	return &gval{m.self}, m, t.kind == reflect.Pointer
}

// whole is the contract of the arshaler of what is given.
func (m *mon) whole(t *ftype) *thrift.VerifArshaler {
	target := func(c *cell, depth int) {
		gv.Ensure("C16", "nesting is bounded: the depth starts in bounds", 0 <= depth && depth <= thrift.VerifDepth)
		m.op("the value", m.at == start)
		if m.t.kind == reflect.Pointer {
			gv.Ensure("", "what the pointer points to is (un)marshaled", c == m.self.to)
		} else {
			gv.Ensure("", "a copy of the value is marshaled", c.role == scratch && c.has == copied && c.t == m.t)
		}
		m.at = done
	}
	return thrift.VerifNew(t.wire,
		func(w thriftwire.Writer, v reflect.Value, depth int) error {
			target(of(v), depth)
			gv.Ensure("C14", "the value goes to the writer given", w.(wr).m == m)
			return m.nested()
		},
		func(r thriftwire.Reader, v reflect.Value, depth int, wt thriftwire.Type) error {
			target(of(v), depth)
			gv.Ensure("C15", "the value comes from the reader given", r.(rd).m == m && wt == t.wire)
			return m.nested()
		})
}

// checkEntry checks the result for what was given.
func (m *mon) checkEntry(err error, refused bool) {
	switch {
	case refused:
		gv.Reach("refused")
		gv.Ensure("C16", "what cannot be (un)marshaled is refused", err != nil && thrift.VerifSemantic(err) && thrift.VerifAction(err) == m.dir)
		gv.Ensure("C16", "nothing is done with what is refused", m.ops == 0)
	case m.failed:
		gv.Reach("failure")
		gv.Ensure("C16", "the error is returned", err != nil && gv.SameError(err, m.err))
	default:
		gv.Reach("done")
		gv.Ensure("C16", "no error without a failure", err == nil)
		gv.Ensure("", "the value is (un)marshaled", m.at == done)
	}
}

// HMarshal verifies Marshal, given the contract of arshalers.
//
//gv:harness marshal/Marshal props=C14,C16 default=C14
//gv:symbolic
func HMarshal() {
	x, m, ptr := given("marshal")
	err := thrift.Marshal(wr{m}, x)
	m.checkEntry(err, x == nil || ptr && m.self.null)
}

// HUnmarshal verifies Unmarshal, given the contract of arshalers.
//
//gv:harness marshal/Unmarshal props=C15,C16 default=C15
//gv:symbolic
func HUnmarshal() {
	x, m, ptr := given("unmarshal")
	err := thrift.Unmarshal(rd{m}, x)
	m.checkEntry(err, !ptr || m.self.null)
}
