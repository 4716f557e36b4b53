// Package skip proves Skip: each activation of the recursive function performs
// the reads of one value, where the values nested in it are those read by its
// recursive calls, which are held to the same contract.
package skip

import (
	"io"

	"vspec/gv"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

// What the reader is asked for next.
const (
	start = iota
	inStruct
	inField  // a field's value
	endField // after a field's value
	endStruct
	inMap
	inSet
	inList
	done
)

// mon is an arbitrary reader that checks the operations performed on it
// against those that make up one value.
type mon struct {
	typ      thriftwire.Type // of the value
	depth    int             // levels left
	at       int
	field    thriftwire.Type
	key, val thriftwire.Type
	n, i     int  // entries announced and read
	isVal    bool // a map's key was read, its value is next
	failed   bool
	err      error
	ops      int
	nested   error // returned by a recursive call
}

// op is an operation that is allowed where ok holds.
func (m *mon) op(name string, ok bool) {
	gv.Ensure("C12", "nothing is read after a failure: "+name, !m.failed)
	gv.Ensure("C12", "the operations are those of one value, in order: "+name, ok)
	m.ops++
}

// end is what the reader answers.
func (m *mon) end() error {
	if gv.Bool() {
		m.failed = true
		m.err = gv.Error()
	}
	return m.err
}

// scalar reads a value that is one operation.
func (m *mon) scalar(name string, t thriftwire.Type) error {
	m.op(name, m.at == start && m.typ == t)
	m.at = done
	return m.end()
}

func (m *mon) ReadMessageBegin() (thriftwire.MessageHeader, error) {
	m.op("ReadMessageBegin", false)
	return thriftwire.MessageHeader{}, nil
}
func (m *mon) ReadMessageEnd() error { m.op("ReadMessageEnd", false); return nil }
func (m *mon) ReadStructBegin() (thriftwire.StructHeader, error) {
	m.op("ReadStructBegin", m.at == start && m.typ == thriftwire.Struct)
	m.at = inStruct
	return thriftwire.StructHeader{Name: gv.String()}, m.end()
}
func (m *mon) ReadFieldBegin() (thriftwire.FieldHeader, error) {
	m.op("ReadFieldBegin", m.at == inStruct)
	h := thriftwire.FieldHeader{ID: gv.Int16(), Type: thriftwire.Type(gv.Byte())}
	m.field = h.Type
	m.at = inField
	if h.Type == thriftwire.Stop {
		m.at = endStruct
	}
	return h, m.end()
}
func (m *mon) ReadFieldEnd() error {
	m.op("ReadFieldEnd", m.at == endField)
	m.at = inStruct
	return m.end()
}
func (m *mon) ReadStructEnd() error {
	m.op("ReadStructEnd", m.at == endStruct)
	m.at = done
	return m.end()
}
func (m *mon) ReadMapBegin() (thriftwire.MapHeader, error) {
	m.op("ReadMapBegin", m.at == start && m.typ == thriftwire.Map)
	m.at = inMap
	m.key, m.val = thriftwire.Type(gv.Byte()), thriftwire.Type(gv.Byte())
	m.n = gv.Int()
	return thriftwire.MapHeader{Key: m.key, Value: m.val, Size: m.n}, m.end()
}
func (m *mon) ReadMapEnd() error {
	m.op("ReadMapEnd", m.at == inMap && m.i >= m.n && !m.isVal)
	m.at = done
	return m.end()
}
func (m *mon) ReadSetBegin() (thriftwire.SetHeader, error) {
	m.op("ReadSetBegin", m.at == start && m.typ == thriftwire.Set)
	m.at = inSet
	m.val, m.n = thriftwire.Type(gv.Byte()), gv.Int()
	return thriftwire.SetHeader{Element: m.val, Size: m.n}, m.end()
}
func (m *mon) ReadSetEnd() error {
	m.op("ReadSetEnd", m.at == inSet && m.i >= m.n)
	m.at = done
	return m.end()
}
func (m *mon) ReadListBegin() (thriftwire.ListHeader, error) {
	m.op("ReadListBegin", m.at == start && m.typ == thriftwire.List)
	m.at = inList
	m.val, m.n = thriftwire.Type(gv.Byte()), gv.Int()
	return thriftwire.ListHeader{Element: m.val, Size: m.n}, m.end()
}
func (m *mon) ReadListEnd() error {
	m.op("ReadListEnd", m.at == inList && m.i >= m.n)
	m.at = done
	return m.end()
}
func (m *mon) ReadBool() (bool, error) { return gv.Bool(), m.scalar("ReadBool", thriftwire.Bool) }
func (m *mon) ReadByte() (byte, error) { return gv.Byte(), m.scalar("ReadByte", thriftwire.Byte) }
func (m *mon) ReadDouble() (float64, error) {
	return gv.Float64(), m.scalar("ReadDouble", thriftwire.Double)
}
func (m *mon) ReadI16() (int16, error) { return gv.Int16(), m.scalar("ReadI16", thriftwire.I16) }
func (m *mon) ReadI32() (int32, error) { return gv.Int32(), m.scalar("ReadI32", thriftwire.I32) }
func (m *mon) ReadI64() (int64, error) { return gv.Int64(), m.scalar("ReadI64", thriftwire.I64) }
func (m *mon) ReadString() (string, error) {
	return gv.String(), m.scalar("ReadString", thriftwire.String)
}
func (m *mon) ReadBytes(b []byte) ([]byte, error) {
	return append(b, gv.Bytes()...), m.scalar("ReadBytes", thriftwire.String)
}
func (m *mon) ReadUUID(u *[16]byte) error {
	*u = gv.UUID()
	return m.scalar("ReadUUID", thriftwire.UUID)
}
func (m *mon) SkipString() error { return m.scalar("SkipString", thriftwire.String) }
func (m *mon) SkipUUID() error   { return m.scalar("SkipUUID", thriftwire.UUID) }
func (m *mon) Reset(io.Reader)   { m.op("Reset", false) }

// value is a nested value passed over by a recursive call.
func (m *mon) value(t thriftwire.Type, depth int) error {
	m.op("a nested value", true)
	gv.Ensure("C12", "nesting is bounded: a nested value has fewer levels left", depth < m.depth)
	switch m.at {
	case inField:
		gv.Ensure("C12", "a field's value is of the type in its header", t == m.field)
		m.at = endField
	case inMap:
		gv.Ensure("C12", "no more entries than announced", m.i < m.n)
		if !m.isVal {
			gv.Ensure("C12", "a key is of the type in the map's header", t == m.key)
			m.isVal = true
		} else {
			gv.Ensure("C12", "a value is of the type in the map's header", t == m.val)
			m.isVal = false
			m.i++
		}
	case inSet, inList:
		gv.Ensure("C12", "no more elements than announced", m.i < m.n)
		gv.Ensure("C12", "an element is of the type in the header", t == m.val)
		m.i++
	default:
		gv.Ensure("C12", "a nested value only where there is one", false)
	}
	// the nested value may fail, also if it is of a type that does not exist
	return m.end()
}

// Callee is the contract of a recursive call.
//
//gv:contract github.com/itstarsun/go-thrift/encoding/thriftwire.skip
func Callee(r thriftwire.Reader, t thriftwire.Type, depth int) error {
	return r.(*mon).value(t, depth)
}

func exists(t thriftwire.Type) bool {
	switch t {
	case thriftwire.Bool, thriftwire.Byte, thriftwire.Double, thriftwire.I16, thriftwire.I32, thriftwire.I64, thriftwire.String,
		thriftwire.Struct, thriftwire.Map, thriftwire.Set, thriftwire.List, thriftwire.UUID:
		return true
	}
	return false
}

// HValue verifies one activation of skip, for every type, depth and reader.
//
//gv:harness skip/Value props=C12 default=C12
//gv:symbolic
//gv:real github.com/itstarsun/go-thrift/encoding/thriftwire.skip
func HValue() {
	m := &mon{typ: thriftwire.Type(gv.Byte()), depth: gv.Int()}
	err := thriftwire.VerifSkip(m, m.typ, m.depth)
	switch {
	case m.failed:
		gv.Reach("failure")
		gv.Ensure("C12", "the error of the failed operation is returned", err != nil && gv.SameError(err, m.err))
	case m.depth <= 0:
		gv.Reach("too deep")
		gv.Ensure("C12", "no level left is an error, and nothing is read", err != nil && m.ops == 0)
	case !exists(m.typ):
		gv.Reach("unknown type")
		gv.Ensure("C12", "a type that does not exist is an error, and nothing is read", err != nil && m.ops == 0)
	default:
		gv.Reach("value")
		gv.Ensure("C12", "no error without a failure", err == nil)
		gv.Ensure("C12", "the value is read to its end", m.at == done)
	}
}

// HSkip verifies Skip, given the contract of the recursive function.
//
//gv:harness skip/Skip props=C12 default=C12
//gv:symbolic
//gv:real github.com/itstarsun/go-thrift/encoding/thriftwire.Skip
func HSkip() {
	// the caller of skip is in the place of a struct field of type t
	t := thriftwire.Type(gv.Byte())
	m := &mon{at: inField, field: t, depth: thriftwire.VerifDepth + 1}
	err := thriftwire.Skip(m, t)
	gv.Ensure("C12", "one value is passed over", m.at == endField && m.ops == 1)
	gv.Ensure("C12", "the result is that of the value", m.failed == (err != nil))
	gv.Ensure("C12", "an error is returned as it is", !m.failed || gv.SameError(err, m.err))
	gv.Reach("skipped")
}
