package marshal

import (
	"math"
	"reflect"

	"vspec/gv"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
)

// value is an arbitrary value of type t, with an arbitrary reader or writer.
func value(t *ftype, dir string) *mon {
	thrift.VerifTypes(setMark, listMark, bytesMark, uuidMark)
	t.name = gv.String()
	m := &mon{
		t: t, dir: dir, depth: gv.Int(), zeroed: -1, cur: -1,
		b: gv.Bool(), n64: gv.Int64(), f: gv.Float64(), s: gv.String(), bytes: gv.Bytes(), uuid: gv.UUID(),
		db: gv.Bool(), d64: gv.Int64(), df: gv.Float64(), ds: gv.String(), dby: gv.Bytes(), duu: gv.UUID(),
		n: gv.Size(), cap: gv.Size(), want: gv.Int(), nf: gv.Size(),
		key: thriftwire.Type(gv.Byte()), val: thriftwire.Type(gv.Byte()),
	}
	gv.Assume(0 <= m.depth && m.depth <= thrift.VerifDepth && m.n <= m.cap)
	m.self = &cell{m: m, t: t, role: root, null: gv.Bool()}
	return m
}

func (m *mon) marshal(f *thrift.VerifArshaler) error {
	return thrift.VerifMarshal(f, wr{m}, gv.Wrap(m.self), m.depth)
}

func (m *mon) unmarshal(f *thrift.VerifArshaler, wt thriftwire.Type) error {
	return thrift.VerifUnmarshal(f, rd{m}, gv.Wrap(m.self), m.depth, wt)
}

// scalars are the kinds with a single operation.
func scalars() (*ftype, thriftwire.Type) {
	switch gv.Choose(14) {
	case 0:
		return &ftype{kind: reflect.Bool}, thriftwire.Bool
	case 1:
		return &ftype{kind: reflect.Float32}, thriftwire.Double
	case 2:
		return &ftype{kind: reflect.Float64}, thriftwire.Double
	case 3:
		return &ftype{kind: reflect.Int8}, thriftwire.Byte
	case 4:
		return &ftype{kind: reflect.Int16}, thriftwire.I16
	case 5:
		return &ftype{kind: reflect.Int32}, thriftwire.I32
	case 6:
		return &ftype{kind: reflect.Int64}, thriftwire.I64
	case 7:
		return &ftype{kind: reflect.Uint8}, thriftwire.Byte
	case 8:
		return &ftype{kind: reflect.Uint16}, thriftwire.I16
	case 9:
		return &ftype{kind: reflect.Uint32}, thriftwire.I32
	case 10:
		return &ftype{kind: reflect.Uint64}, thriftwire.I64
	case 11:
		return &ftype{kind: reflect.String}, thriftwire.String
	case 12:
		return &ftype{kind: reflect.Slice, bytes: true}, thriftwire.String
	default:
		uuidMark.kind = reflect.Array
		return uuidMark, thriftwire.UUID
	}
}

// HScalarMarshal: a scalar is written by the operation of its type.
//
//gv:harness marshal/ScalarMarshal props=C14,C16 default=C14
//gv:symbolic
//gv:real github.com/itstarsun/go-thrift/thrift.makeDefaultArshaler
func HScalarMarshal() {
	t, w := scalars()
	m := value(t, "marshal")
	m.wire = w
	f := thrift.VerifMake(t)
	gv.Ensure("C14", "a Go type has its wire type", thrift.VerifWire(f) == w)
	err := m.marshal(f)
	m.result(err, false, true)
	gv.Ensure("C16", "the error tells the Thrift type", !m.failed || wireOf(err) == w)
}

// HScalarUnmarshal: a scalar is read by the operation of its type.
//
//gv:harness marshal/ScalarUnmarshal props=C15,C16 default=C15
//gv:symbolic
//gv:real github.com/itstarsun/go-thrift/thrift.makeDefaultArshaler
func HScalarUnmarshal() {
	t, w := scalars()
	m := value(t, "unmarshal")
	m.wire = w
	wt := thriftwire.Type(gv.Byte())
	err := m.unmarshal(thrift.VerifMake(t), wt)
	m.result(err, wt != w, true)
	if wt != w {
		gv.Reach("refused")
		gv.Ensure("C15", "where the wire type does not match nothing is read or stored", m.ops == 0 && m.stores == 0)
		gv.Ensure("C16", "the error tells the Thrift type", wireOf(err) == wt)
		return
	}
	gv.Ensure("C16", "the error tells the Thrift type", !m.failed || wireOf(err) == w)
	if m.failed {
		return
	}
	switch t.kind {
	case reflect.Bool:
		gv.Ensure("C15", "the bool read is stored", m.b == m.db)
	case reflect.Float32, reflect.Float64:
		gv.Ensure("C15", "the double read is stored", math.Float64bits(m.f) == math.Float64bits(m.df))
	case reflect.Int8, reflect.Uint8:
		gv.Ensure("C15", "the byte read is stored", byte(m.n64) == byte(m.d64))
	case reflect.Int16, reflect.Uint16:
		gv.Ensure("C15", "the i16 read is stored", int16(m.n64) == int16(m.d64))
	case reflect.Int32, reflect.Uint32:
		gv.Ensure("C15", "the i32 read is stored", int32(m.n64) == int32(m.d64))
	case reflect.Int64, reflect.Uint64:
		gv.Ensure("C15", "the i64 read is stored", m.n64 == m.d64)
	case reflect.String:
		gv.Ensure("C15", "the string read is stored", m.s == m.ds)
	case reflect.Slice:
		gv.Ensure("C15", "the bytes read are stored", gv.EqBytes(m.bytes, m.dby))
	case reflect.Array:
		gv.Ensure("C15", "the UUID read is stored", m.uuid == m.duu)
	}
}

// elemOf is the type of nested values.
func (m *mon) elemOf() *ftype {
	t := &ftype{kind: reflect.Kind(gv.Int()), wire: thriftwire.Type(gv.Byte())}
	t.arsh = m.arshaler(t)
	return t
}

// slices are the kinds of slices that are sets or lists.
func slices() (*ftype, thriftwire.Type) {
	t := &ftype{kind: reflect.Slice, set: gv.Bool(), list: gv.Bool(), bytes: gv.Bool()}
	gv.Assume(t.set || t.list || !t.bytes)
	if t.set {
		return t, thriftwire.Set
	}
	return t, thriftwire.List
}

// HListMarshal: a list or set is written as a header and each element.
//
//gv:harness marshal/ListMarshal props=C14,C16 default=C14
//gv:symbolic
//gv:real github.com/itstarsun/go-thrift/thrift.makeDefaultArshaler
func HListMarshal() {
	t, w := slices()
	m := value(t, "marshal")
	m.wire, t.elem = w, m.elemOf()
	f := thrift.VerifMake(t)
	gv.Ensure("C14", "a Go type has its wire type", thrift.VerifWire(f) == w)
	err := m.marshal(f)
	refused := t.elem.wire == thriftwire.Stop || m.depth == thrift.VerifDepth
	m.result(err, refused, m.i == m.n)
	if refused {
		gv.Reach("refused")
		gv.Ensure("C14", "nothing is written of what is refused", m.ops == 0)
	}
	gv.Ensure("C16", "the error tells the Thrift type", !refused && !m.own || wireOf(err) == w)
}

// HListUnmarshal: a list or set is read as a header and each element.
//
//gv:harness marshal/ListUnmarshal props=C15,C16 default=C15
//gv:symbolic
//gv:real github.com/itstarsun/go-thrift/thrift.makeDefaultArshaler
func HListUnmarshal() {
	t, w := slices()
	m := value(t, "unmarshal")
	m.wire, t.elem = w, m.elemOf()
	wt := thriftwire.Type(gv.Byte())
	err := m.unmarshal(thrift.VerifMake(t), wt)
	refused := wt != w || m.depth == thrift.VerifDepth
	m.result(err, refused, m.i == max(m.want, 0) && m.n == m.i)
	if refused {
		gv.Reach("refused")
		gv.Ensure("C15", "where the wire type does not match nothing is read or stored", m.ops == 0 && m.stores == 0)
		gv.Ensure("C16", "the error tells the Thrift type", wireOf(err) == wt)
	}
	gv.Ensure("C16", "the error tells the Thrift type", !m.own || wireOf(err) == w)
}

// maps are the map types.
func maps() *ftype {
	return &ftype{kind: reflect.Map}
}

// HMapMarshal: a map is written as a header and each key with its value.
//
//gv:harness marshal/MapMarshal props=C14,C16 default=C14
//gv:symbolic
//gv:real github.com/itstarsun/go-thrift/thrift.makeDefaultArshaler
func HMapMarshal() {
	t := maps()
	m := value(t, "marshal")
	m.wire, t.key, t.elem = thriftwire.Map, m.elemOf(), m.elemOf()
	f := thrift.VerifMake(t)
	gv.Ensure("C14", "a Go type has its wire type", thrift.VerifWire(f) == thriftwire.Map)
	err := m.marshal(f)
	refused := t.key.wire == thriftwire.Stop || t.elem.wire == thriftwire.Stop || m.depth == thrift.VerifDepth
	m.result(err, refused, m.i == m.n)
	if refused {
		gv.Reach("refused")
		gv.Ensure("C14", "nothing is written of what is refused", m.ops == 0)
	}
	gv.Ensure("C16", "the error tells the Thrift type", !refused && !m.own || wireOf(err) == thriftwire.Map)
}

// HMapUnmarshal: a map is read as a header and each key with its value.
//
//gv:harness marshal/MapUnmarshal props=C15,C16 default=C15
//gv:symbolic
//gv:real github.com/itstarsun/go-thrift/thrift.makeDefaultArshaler
func HMapUnmarshal() {
	t := maps()
	m := value(t, "unmarshal")
	m.wire, t.key, t.elem = thriftwire.Map, m.elemOf(), m.elemOf()
	wt := thriftwire.Type(gv.Byte())
	err := m.unmarshal(thrift.VerifMake(t), wt)
	refused := wt != thriftwire.Map || m.depth == thrift.VerifDepth
	m.result(err, refused, m.i == max(m.want, 0) && m.added == m.i)
	if refused {
		gv.Reach("refused")
		gv.Ensure("C15", "where the wire type does not match nothing is read or stored", m.ops == 0 && m.stores == 0)
		gv.Ensure("C16", "the error tells the Thrift type", wireOf(err) == wt)
	}
	gv.Ensure("C16", "the error tells the Thrift type", !m.own || wireOf(err) == thriftwire.Map)
}

// pointers are the pointer types.
func pointers(dir string) (*ftype, *mon) {
	t := &ftype{kind: reflect.Pointer, cycle: gv.Bool()}
	m := value(t, dir)
	t.elem = m.elemOf()
	m.self.to = &cell{m: m, t: t.elem, role: pointee}
	return t, m
}

// HPointerMarshal: a pointer is written as what it points to.
//
//gv:harness marshal/PointerMarshal props=C14,C16 default=C14
//gv:symbolic
//gv:real github.com/itstarsun/go-thrift/thrift.makeDefaultArshaler
func HPointerMarshal() {
	t, m := pointers("marshal")
	f := thrift.VerifMake(t)
	gv.Ensure("C14", "a Go type has its wire type", t.cycle || thrift.VerifWire(f) == t.elem.wire)
	err := m.marshal(f)
	m.result(err, t.cycle, true)
	if t.cycle {
		gv.Reach("refused")
		gv.Ensure("C14", "nothing is written of what is refused", m.ops == 0)
		gv.Ensure("C14", "what cannot be written has no wire type", thrift.VerifWire(f) == thriftwire.Stop)
	}
}

// HPointerUnmarshal: a pointer is read as what it points to.
//
//gv:harness marshal/PointerUnmarshal props=C15,C16 default=C15
//gv:symbolic
//gv:real github.com/itstarsun/go-thrift/thrift.makeDefaultArshaler
func HPointerUnmarshal() {
	t, m := pointers("unmarshal")
	err := m.unmarshal(thrift.VerifMake(t), m.val)
	m.result(err, t.cycle, true)
	if t.cycle {
		gv.Reach("refused")
		gv.Ensure("C15", "nothing is read of what is refused", m.ops == 0 && m.stores == 0)
	}
}

// structs are the struct types, of which at least one value exists.
func structs(dir string) (*ftype, *mon) {
	t := &ftype{kind: reflect.Struct}
	m := value(t, dir)
	m.wire, m.malformed = thriftwire.Struct, gv.Bool()
	m.fldType = m.elemOf()
	gv.Assume(m.nf <= m.n)
	if m.malformed {
		m.err = gv.Error()
	}
	describing = m
	return t, m
}

// HStructMarshal: a struct is written as those of its fields that are required
// or not zero.
//
//gv:harness marshal/StructMarshal props=C14,C16 default=C14
//gv:symbolic
//gv:real github.com/itstarsun/go-thrift/thrift.makeDefaultArshaler
func HStructMarshal() {
	t, m := structs("marshal")
	f := thrift.VerifMake(t)
	gv.Ensure("C14", "a Go type has its wire type", thrift.VerifWire(f) == thriftwire.Struct)
	err := m.marshal(f)
	refused := m.malformed || m.depth == thrift.VerifDepth
	if refused {
		gv.Reach("refused")
		gv.Ensure("C14", "nothing is written of what is refused", m.ops == 0)
		gv.Ensure("C16", "the reason is returned", !m.malformed || gv.SameError(err, m.err))
	}
	if m.sawBad && err != nil && !m.failed {
		gv.Reach("unsupported field")
		gv.Ensure("C16", "the error tells the field's type", thrift.VerifSemantic(err) && thrift.VerifAction(err) == "marshal" && err.(*thrift.SemanticError).GoType == reflect.Type(m.fldType))
		return
	}
	m.result(err, refused, !m.bad && !m.must)
	gv.Ensure("C16", "the error tells the Thrift type", !m.own || wireOf(err) == thriftwire.Struct)
}

// HStructUnmarshal: a struct is read as its fields, known and unknown.
//
//gv:harness marshal/StructUnmarshal props=C15,C16 default=C15
//gv:symbolic
//gv:real github.com/itstarsun/go-thrift/thrift.makeDefaultArshaler
func HStructUnmarshal() {
	t, m := structs("unmarshal")
	wt := thriftwire.Type(gv.Byte())
	err := m.unmarshal(thrift.VerifMake(t), wt)
	refused := m.malformed || wt != thriftwire.Struct || m.depth == thrift.VerifDepth
	m.result(err, refused, true)
	if refused {
		gv.Reach("refused")
		gv.Ensure("C15", "nothing is read of what is refused", m.ops == 0)
		gv.Ensure("C16", "the reason is returned", !m.malformed || gv.SameError(err, m.err))
	}
	gv.Ensure("C16", "the error tells the Thrift type", !m.own || wireOf(err) == thriftwire.Struct)
}

// HMalformed: every refusal of a malformed struct has an error of its own,
// which a later call leaves alone.
//
//gv:harness marshal/Malformed props=C16 default=C16
//gv:symbolic
//gv:real github.com/itstarsun/go-thrift/thrift.makeDefaultArshaler
func HMalformed() {
	t, m := structs("marshal")
	gv.Assume(m.malformed)
	f := thrift.VerifMake(t)
	refuse := func(write bool) error {
		if write {
			return m.marshal(f)
		}
		return m.unmarshal(f, thriftwire.Struct)
	}
	action := func(write bool) string {
		if write {
			return "marshal"
		}
		return "unmarshal"
	}
	a, b := gv.Bool(), gv.Bool()
	first, second := refuse(a), refuse(b)
	gv.Ensure("C16", "a malformed struct is refused again", first != nil && second != nil && m.ops == 0)
	gv.Ensure("C16", "the error tells what was being done", thrift.VerifAction(first) == action(a) && thrift.VerifAction(second) == action(b))
	gv.Ensure("C16", "the reason is returned", gv.SameError(first, m.err) && gv.SameError(second, m.err))
	gv.Ensure("C16", "the error tells the Go type", first.(*thrift.SemanticError).GoType == reflect.Type(t) && second.(*thrift.SemanticError).GoType == reflect.Type(t))
}

// HInvalid: values of other kinds are refused.
//
//gv:harness marshal/Invalid props=C14,C15,C16 default=C16
//gv:symbolic
//gv:real github.com/itstarsun/go-thrift/thrift.makeDefaultArshaler
func HInvalid() {
	t := &ftype{kind: reflect.Kind(gv.Int())}
	switch t.kind {
	case reflect.Bool, reflect.Float32, reflect.Float64, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.String, reflect.Slice, reflect.Map, reflect.Struct, reflect.Pointer:
		return
	}
	m := value(t, "marshal")
	f := thrift.VerifMake(t)
	gv.Ensure("C14", "what cannot be written has no wire type", thrift.VerifWire(f) == thriftwire.Stop)
	if gv.Bool() {
		gv.Ensure("C16", "what cannot be marshaled is refused", m.attributed(m.marshal(f)))
		gv.Ensure("C14", "nothing is written of what is refused", m.ops == 0)
		gv.Reach("not marshaled")
	} else {
		m.dir = "unmarshal"
		wt := thriftwire.Type(gv.Byte())
		err := m.unmarshal(f, wt)
		gv.Ensure("C16", "what cannot be unmarshaled is refused", m.attributed(err))
		gv.Ensure("C15", "nothing is read or stored of what is refused", m.ops == 0 && m.stores == 0)
		gv.Ensure("C16", "the error tells the Thrift type", wireOf(err) == wt)
		gv.Reach("not unmarshaled")
	}
}
