package marshal

import (
	"io"
	"math"
	"reflect"

	"vspec/gv"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
)

// What the reader or writer is asked for next.
const (
	start = iota
	inStruct
	inField  // a field's value
	endField // after a field's value
	endStruct
	inMap
	inSet
	inList
	done
)

// mon checks the operations performed on a reader or writer against those that
// make up the value being (un)marshaled.
type mon struct {
	t     *ftype
	depth int
	wire  thriftwire.Type // of the value
	self  *cell

	// the value, before or after
	b      bool
	n64    int64
	f      float64
	s      string
	bytes  []byte
	uuid   [16]byte
	n      int // length, or number of Go fields
	cap    int
	stores int // how often the value was written to

	// what is decoded
	db   bool
	d64  int64
	df   float64
	ds   string
	dby  []byte
	duu  [16]byte
	key  thriftwire.Type // as in the header read
	val  thriftwire.Type
	want int // entries announced

	// state
	at     int
	i      int // entries (un)marshaled
	isVal  bool
	iter   int
	added  int
	zeroed int  // the element last zeroed
	clean  bool // element i and those after it are zero
	ops    int
	failed bool
	own    bool // the operation that failed is one on the reader or writer
	err    error
	dir    string

	// structs
	malformed bool
	nf        int // fields
	cur       int // the field looked at
	fld       int // its Go field
	fldType   *ftype
	fldID     int16
	fldName   string
	fldWire   thriftwire.Type
	fldReq    bool
	tested    bool // its type has a zero test
	plain     bool // it is the zero value
	isZero    bool // its type's zero test holds
	must      bool // it has to be written, and was not
	bad       bool // it has to be written, but cannot
	sawBad    bool
	known     bool
	fieldWire thriftwire.Type // in the header read
}

// op is an operation that is allowed where ok holds.
func (m *mon) op(name string, ok bool) {
	gv.Ensure("C16", "nothing is read or written after a failure: "+name, !m.failed)
	gv.Ensure("", "the operations are those of the value, in order: "+name, ok)
	m.ops++
}

// end is how an operation on the reader or writer ends.
func (m *mon) end() error {
	if gv.Bool() {
		m.failed, m.own = true, true
		m.err = gv.Error()
	}
	return m.err
}

// nested is how the (un)marshalling of a nested value ends.
func (m *mon) nested() error {
	err := m.end()
	m.own = false
	return err
}

// result checks what is returned, where refused tells whether the value cannot
// be (un)marshaled at all.
func (m *mon) result(err error, refused, complete bool) {
	switch {
	case m.failed:
		gv.Reach("failure")
		gv.Ensure("C16", "the error of the failed operation is returned", err != nil && gv.SameError(err, m.err))
		if m.own {
			gv.Ensure("C16", "the error of a failed operation is attributed", m.attributed(err))
		}
	case refused:
		gv.Ensure("C16", "what cannot be (un)marshaled is refused", err != nil)
		gv.Ensure("C16", "a refusal is attributed", m.attributed(err))
	case err != nil:
		gv.Ensure("C16", "no error without a failure", false)
	default:
		gv.Reach("complete")
		gv.Ensure("", "the value is complete", m.at == done && complete)
	}
}

func (m *mon) attributed(err error) bool {
	if err == nil || !thrift.VerifSemantic(err) {
		return false
	}
	e := err.(*thrift.SemanticError)
	return thrift.VerifAction(err) == m.dir && e.GoType == reflect.Type(m.t)
}

// wireOf is the wire type the error tells.
func wireOf(err error) thriftwire.Type { return err.(*thrift.SemanticError).ThriftType }

// ---- writer ----

type wr struct{ m *mon }

func (w wr) Reset(io.Writer) { w.m.op("Reset", false) }
func (w wr) WriteMessageBegin(thriftwire.MessageHeader) error {
	w.m.op("WriteMessageBegin", false)
	return nil
}
func (w wr) WriteMessageEnd() error { w.m.op("WriteMessageEnd", false); return nil }
func (w wr) Flush() error           { w.m.op("Flush", false); return nil }

func (m *mon) scalar(name string, t thriftwire.Type, same bool) error {
	m.op(name, m.at == start && m.wire == t)
	gv.Ensure("C14", "the value itself is written: "+name, same)
	m.at = done
	return m.end()
}

func (w wr) WriteBool(x bool) error { return w.m.scalar("WriteBool", thriftwire.Bool, x == w.m.b) }
func (w wr) WriteByte(x byte) error {
	return w.m.scalar("WriteByte", thriftwire.Byte, x == byte(w.m.n64))
}
func (w wr) WriteI16(x int16) error {
	return w.m.scalar("WriteI16", thriftwire.I16, x == int16(w.m.n64))
}
func (w wr) WriteI32(x int32) error {
	return w.m.scalar("WriteI32", thriftwire.I32, x == int32(w.m.n64))
}
func (w wr) WriteI64(x int64) error { return w.m.scalar("WriteI64", thriftwire.I64, x == w.m.n64) }
func (w wr) WriteDouble(x float64) error {
	return w.m.scalar("WriteDouble", thriftwire.Double, math.Float64bits(x) == math.Float64bits(w.m.f))
}
func (w wr) WriteString(x string) error {
	return w.m.scalar("WriteString", thriftwire.String, w.m.t.kind == reflect.String && x == w.m.s || w.m.t.kind == reflect.Slice && x == string(w.m.bytes))
}
func (w wr) WriteBytes(x []byte) error {
	return w.m.scalar("WriteBytes", thriftwire.String, w.m.t.kind == reflect.String && string(x) == w.m.s || w.m.t.kind == reflect.Slice && gv.EqBytes(x, w.m.bytes))
}
func (w wr) WriteUUID(x *[16]byte) error {
	return w.m.scalar("WriteUUID", thriftwire.UUID, *x == w.m.uuid)
}

func (w wr) WriteStructBegin(h thriftwire.StructHeader) error {
	m := w.m
	m.op("WriteStructBegin", m.at == start && m.wire == thriftwire.Struct)
	gv.Ensure("C14", "a struct is named as its type", h.Name == m.t.name)
	m.at = inStruct
	return m.end()
}
func (w wr) WriteFieldBegin(h thriftwire.FieldHeader) error {
	m := w.m
	m.op("WriteFieldBegin", m.at == inStruct)
	gv.Ensure("C14", "exactly the fields are written that are required or not zero", m.must)
	gv.Ensure("C14", "a field is written with its id", h.ID == m.fldID)
	gv.Ensure("C14", "a field is written with its name", h.Name == m.fldName)
	gv.Ensure("C14", "a field is written with its wire type", h.Type == m.fldWire)
	m.must = false
	m.at = inField
	return m.end()
}
func (w wr) WriteFieldEnd() error {
	w.m.op("WriteFieldEnd", w.m.at == endField)
	w.m.at = inStruct
	return w.m.end()
}
func (w wr) WriteStructEnd() error {
	m := w.m
	m.op("WriteStructEnd", m.at == inStruct)
	gv.Ensure("C14", "every field was written or may be omitted", !m.must && !m.bad && m.cur+1 == m.nf)
	m.at = done
	return m.end()
}
func (w wr) WriteMapBegin(h thriftwire.MapHeader) error {
	m := w.m
	m.op("WriteMapBegin", m.at == start && m.wire == thriftwire.Map)
	gv.Ensure("C14", "a map's header tells its types and size", h.Key == m.t.key.wire && h.Value == m.t.elem.wire && h.Size == m.n)
	m.at = inMap
	return m.end()
}
func (w wr) WriteMapEnd() error {
	w.m.op("WriteMapEnd", w.m.at == inMap && w.m.i == w.m.n && !w.m.isVal)
	w.m.at = done
	return w.m.end()
}
func (w wr) WriteSetBegin(h thriftwire.SetHeader) error {
	m := w.m
	m.op("WriteSetBegin", m.at == start && m.wire == thriftwire.Set)
	gv.Ensure("C14", "a set's header tells its type and size", h.Element == m.t.elem.wire && h.Size == m.n)
	m.at = inSet
	return m.end()
}
func (w wr) WriteSetEnd() error {
	w.m.op("WriteSetEnd", w.m.at == inSet && w.m.i == w.m.n)
	w.m.at = done
	return w.m.end()
}
func (w wr) WriteListBegin(h thriftwire.ListHeader) error {
	m := w.m
	m.op("WriteListBegin", m.at == start && m.wire == thriftwire.List)
	gv.Ensure("C14", "a list's header tells its type and size", h.Element == m.t.elem.wire && h.Size == m.n)
	m.at = inList
	return m.end()
}
func (w wr) WriteListEnd() error {
	w.m.op("WriteListEnd", w.m.at == inList && w.m.i == w.m.n)
	w.m.at = done
	return w.m.end()
}

// ---- reader ----

type rd struct{ m *mon }

func (r rd) Reset(io.Reader) { r.m.op("Reset", false) }
func (r rd) ReadMessageBegin() (thriftwire.MessageHeader, error) {
	r.m.op("ReadMessageBegin", false)
	return thriftwire.MessageHeader{}, nil
}
func (r rd) ReadMessageEnd() error { r.m.op("ReadMessageEnd", false); return nil }

func (m *mon) read(name string, t thriftwire.Type) error {
	m.op(name, m.at == start && m.wire == t)
	m.at = done
	return m.end()
}

func (r rd) ReadBool() (bool, error) { return r.m.db, r.m.read("ReadBool", thriftwire.Bool) }
func (r rd) ReadByte() (byte, error) { return byte(r.m.d64), r.m.read("ReadByte", thriftwire.Byte) }
func (r rd) ReadDouble() (float64, error) {
	return r.m.df, r.m.read("ReadDouble", thriftwire.Double)
}
func (r rd) ReadI16() (int16, error) { return int16(r.m.d64), r.m.read("ReadI16", thriftwire.I16) }
func (r rd) ReadI32() (int32, error) { return int32(r.m.d64), r.m.read("ReadI32", thriftwire.I32) }
func (r rd) ReadI64() (int64, error) { return r.m.d64, r.m.read("ReadI64", thriftwire.I64) }
func (r rd) ReadString() (string, error) {
	return r.m.ds, r.m.read("ReadString", thriftwire.String)
}
func (r rd) ReadBytes(b []byte) ([]byte, error) {
	gv.Ensure("C15", "bytes are not appended to what was there", len(b) == 0)
	return r.m.dby, r.m.read("ReadBytes", thriftwire.String)
}
func (r rd) ReadUUID(u *[16]byte) error {
	*u = r.m.duu
	return r.m.read("ReadUUID", thriftwire.UUID)
}
func (r rd) SkipString() error { r.m.op("SkipString", false); return nil }
func (r rd) SkipUUID() error   { r.m.op("SkipUUID", false); return nil }

func (r rd) ReadStructBegin() (thriftwire.StructHeader, error) {
	m := r.m
	m.op("ReadStructBegin", m.at == start && m.wire == thriftwire.Struct)
	m.at = inStruct
	return thriftwire.StructHeader{Name: gv.String()}, m.end()
}
func (r rd) ReadFieldBegin() (thriftwire.FieldHeader, error) {
	m := r.m
	m.op("ReadFieldBegin", m.at == inStruct)
	h := thriftwire.FieldHeader{Name: gv.String(), ID: gv.Int16(), Type: thriftwire.Type(gv.Byte())}
	m.fieldWire, m.fldID = h.Type, h.ID
	m.known, m.fld, m.fldWire = gv.Bool(), gv.Int(), thriftwire.Type(gv.Byte())
	gv.Assume(0 <= m.fld && m.fld < m.n)
	m.at = inField
	if h.Type == thriftwire.Stop {
		m.at = endStruct
	}
	return h, m.end()
}
func (r rd) ReadFieldEnd() error {
	r.m.op("ReadFieldEnd", r.m.at == endField)
	r.m.at = inStruct
	return r.m.end()
}
func (r rd) ReadStructEnd() error {
	r.m.op("ReadStructEnd", r.m.at == endStruct)
	r.m.at = done
	return r.m.end()
}
func (r rd) ReadMapBegin() (thriftwire.MapHeader, error) {
	m := r.m
	m.op("ReadMapBegin", m.at == start && m.wire == thriftwire.Map)
	m.at = inMap
	return thriftwire.MapHeader{Key: m.key, Value: m.val, Size: m.want}, m.end()
}
func (r rd) ReadMapEnd() error {
	m := r.m
	m.op("ReadMapEnd", m.at == inMap && m.i >= m.want && !m.isVal)
	m.at = done
	return m.end()
}
func (r rd) ReadSetBegin() (thriftwire.SetHeader, error) {
	m := r.m
	m.op("ReadSetBegin", m.at == start && m.wire == thriftwire.Set)
	m.at = inSet
	return thriftwire.SetHeader{Element: m.val, Size: m.want}, m.end()
}
func (r rd) ReadSetEnd() error {
	m := r.m
	m.op("ReadSetEnd", m.at == inSet && m.i >= m.want)
	m.at = done
	return m.end()
}
func (r rd) ReadListBegin() (thriftwire.ListHeader, error) {
	m := r.m
	m.op("ReadListBegin", m.at == start && m.wire == thriftwire.List)
	m.at = inList
	return thriftwire.ListHeader{Element: m.val, Size: m.want}, m.end()
}
func (r rd) ReadListEnd() error {
	m := r.m
	m.op("ReadListEnd", m.at == inList && m.i >= m.want)
	m.at = done
	return m.end()
}
