package marshal

import (
	"reflect"

	"vspec/gv"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
)

// level is the precondition on the depth a nested value is given.
func (m *mon) level(depth int) {
	deeper := depth > m.depth
	if m.t.kind == reflect.Pointer {
		deeper = depth >= m.depth // a pointer is no level of its own
	}
	gv.Ensure("C16", "nesting is bounded: a nested value is a level deeper", deeper && depth <= thrift.VerifDepth)
}

// arshaler is the contract of the arshaler of nested values of type t.
func (m *mon) arshaler(t *ftype) *thrift.VerifArshaler {
	return thrift.VerifNew(t.wire,
		func(w thriftwire.Writer, v reflect.Value, depth int) error {
			c := of(v)
			gv.Ensure("C14", "nested values go to the same writer", w.(wr).m == m)
			m.op("a nested value", true)
			m.level(depth)
			switch m.at {
			case inField:
				gv.Ensure("C14", "a field's value is written", c.role == field && c.idx == m.fld)
				m.at = endField
			case inMap:
				gv.Ensure("C14", "no more entries than announced", m.i < m.n)
				gv.Ensure("C14", "the entry is that iterated over", c.has == token && m.iter == m.i)
				if !m.isVal {
					gv.Ensure("C14", "a key is followed by its value", c.tok == 2*m.i && t == m.t.key)
					m.isVal = true
				} else {
					gv.Ensure("C14", "a value follows its key", c.tok == 2*m.i+1 && t == m.t.elem)
					m.isVal = false
					m.i++
				}
			case inSet, inList:
				gv.Ensure("C14", "no more elements than announced", m.i < m.n)
				gv.Ensure("C14", "the elements are written in order", c.role == elem && c.idx == m.i)
				m.i++
			case start:
				gv.Ensure("C14", "only a pointer is written as what it points to", m.t.kind == reflect.Pointer && t == m.t.elem)
				if m.self.null {
					gv.Ensure("C14", "a nil pointer is written as the zero value", c.role == scratch && c.has == zero)
				} else {
					gv.Ensure("C14", "what the pointer points to is written", c == m.self.to)
				}
				m.at = done
			default:
				gv.Ensure("C14", "a nested value only where there is one", false)
			}
			return m.nested()
		},
		func(r thriftwire.Reader, v reflect.Value, depth int, wt thriftwire.Type) error {
			c := of(v)
			gv.Ensure("C15", "nested values come from the same reader", r.(rd).m == m)
			m.op("a nested value", true)
			m.level(depth)
			switch m.at {
			case inField:
				gv.Ensure("C15", "a field is read into the Go field of its id", m.known && c.role == field && c.idx == m.fld)
				gv.Ensure("C15", "a field is read as the type in its header", wt == m.fieldWire)
				m.at = endField
			case inMap:
				gv.Ensure("C15", "no more entries than announced", m.i < m.want)
				if !m.isVal {
					gv.Ensure("C15", "a key is read as the type in the header", wt == m.key && t == m.t.key)
					gv.Ensure("C15", "a key is read into a zero variable", c.role == scratch && c.has == zero)
					c.has, c.tok = token, 2*m.i
					m.isVal = true
				} else {
					gv.Ensure("C15", "a value is read as the type in the header", wt == m.val && t == m.t.elem)
					gv.Ensure("C15", "a value is read into a zero variable or that with the value before",
						c.role == scratch && (c.has == zero || c.has == present && c.tok == 2*m.i))
					c.has, c.tok = token, 2*m.i+1
					m.isVal = false
					m.i++
				}
			case inSet, inList:
				gv.Ensure("C15", "no more elements than announced", m.i < m.want)
				gv.Ensure("C15", "the elements are read in order", c.role == elem && c.idx == m.i)
				gv.Ensure("C15", "an element is read as the type in the header", wt == m.val)
				gv.Ensure("C15", "an element is read into a zero variable", m.zeroed == m.i || m.clean)
				m.i++
			case start:
				gv.Ensure("C15", "only a pointer is read as what it points to", m.t.kind == reflect.Pointer && t == m.t.elem && wt == m.val)
				gv.Ensure("C15", "the pointee is read", !m.self.null && c == m.self.to)
				m.at = done
			default:
				gv.Ensure("C15", "a nested value only where there is one", false)
			}
			return m.nested()
		})
}

// fieldAt gives the fields of a struct, which are looked at in order.
func (m *mon) fieldAt(i int) *thrift.VerifField {
	gv.Ensure("C14", "the fields are looked at in order", i == m.cur || i == m.cur+1)
	if i == m.cur+1 {
		gv.Ensure("C14", "every field was written or may be omitted", !m.must && !m.bad && m.at != inField)
		m.cur++
		m.fld, m.fldID, m.fldName = gv.Int(), gv.Int16(), gv.String()
		gv.Assume(0 <= m.fld && m.fld < m.n)
		m.fldReq, m.tested, m.plain, m.isZero = gv.Bool(), gv.Bool(), gv.Bool(), gv.Bool()
		m.fldWire = thriftwire.Type(gv.Byte())
		written := m.fldReq || m.tested && !m.isZero || !m.tested && !m.plain
		m.must = written && m.fldWire != thriftwire.Stop
		m.bad = written && m.fldWire == thriftwire.Stop
		m.sawBad = m.sawBad || m.fldWire == thriftwire.Stop
	}
	return m.field()
}

func (m *mon) field() *thrift.VerifField {
	var test func(reflect.Value) bool
	if m.tested {
		test = m.test
	}
	t := m.fldType
	t.wire = m.fldWire
	return thrift.VerifMakeField([]int{m.fld}, t, m.arshaler(t), test, m.fldID, m.fldName, m.fldReq)
}

func (m *mon) test(v reflect.Value) bool {
	c := of(v)
	gv.Ensure("C14", "the value tested for zero is the field's", c.role == field && c.idx == m.fld)
	return m.isZero
}

// fieldByID gives the field with an id.
func (m *mon) fieldByID(id int16) (*thrift.VerifField, bool) {
	gv.Ensure("C15", "the field looked up is that of the id in the header", id == m.fldID)
	if !m.known {
		return nil, false
	}
	return m.field(), true
}
