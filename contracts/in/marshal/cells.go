// Package marshal proves the (un)marshalling of each kind of Go type: an
// arbitrary value of an arbitrary type of that kind is (un)marshaled, where
// the values nested in it are (un)marshaled by arshalers that are held to the
// same contract.  Reflection is represented by contracts over ghost values.
package marshal

import (
	"reflect"

	"vspec/gv"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
)

// ftype is a Go type.
type ftype struct {
	reflect.Type
	kind      reflect.Kind
	name      string
	elem, key *ftype
	set, list bool // implements the marker
	bytes     bool // assignable to []byte
	arsh      *thrift.VerifArshaler
	wire      thriftwire.Type // Stop if not supported
	cycle     bool            // points to nothing but pointers
}

func (t *ftype) Kind() reflect.Kind { return t.kind }
func (t *ftype) Name() string       { return t.name }
func (t *ftype) String() string     { return t.name }
func (t *ftype) Elem() reflect.Type { return t.elem }
func (t *ftype) Key() reflect.Type  { return t.key }
func (t *ftype) Implements(u reflect.Type) bool {
	switch u {
	case setMark:
		return t.set
	case listMark:
		return t.list
	}
	return gv.Bool()
}
func (t *ftype) AssignableTo(u reflect.Type) bool {
	if u == bytesMark {
		return t.bytes
	}
	return gv.Bool()
}

var setMark, listMark, bytesMark, uuidMark = new(ftype), new(ftype), new(ftype), new(ftype)

// What a cell holds.
const (
	zero    = iota
	some    // something else
	token   // the key or value with number tok
	present // the value in the map before, for the key with number tok
	copied  // a copy of the root
)

// Which variable a cell is.
const (
	root    = iota
	elem    // element idx of the root
	field   // field idx of the root
	scratch // made by reflect.New
	entry   // an entry of a map, not a variable
	pointer // to the cell to
	pointee // of the root
)

// cell is a Go variable.
type cell struct {
	m    *mon
	t    *ftype
	role int
	idx  int
	has  int
	tok  int
	to   *cell // pointee
	null bool  // nil
}

func of(v reflect.Value) *cell {
	c, _ := gv.Unwrap(v).(*cell)
	gv.Ensure("C16", "no method of a zero reflect.Value is called", c != nil)
	return c
}

func (c *cell) isRoot() *mon {
	gv.Ensure("", "the value is that being (un)marshaled", c.role == root)
	return c.m
}

//gv:contract (reflect.Value).IsValid
func IsValid(v reflect.Value) bool {
	c, _ := gv.Unwrap(v).(*cell)
	return c != nil
}

//gv:contract (reflect.Value).Kind
func Kind(v reflect.Value) reflect.Kind {
	c, _ := gv.Unwrap(v).(*cell)
	if c == nil {
		return reflect.Invalid
	}
	return c.t.kind
}

//gv:contract (reflect.Value).Type
func Type(v reflect.Value) reflect.Type { return of(v).t }

//gv:contract (reflect.Value).Bool
func Bool(v reflect.Value) bool {
	m := of(v).isRoot()
	gv.Ensure("C16", "reflect does not panic: Bool", m.t.kind == reflect.Bool)
	return m.b
}

//gv:contract (reflect.Value).Int
func Int(v reflect.Value) int64 {
	m := of(v).isRoot()
	switch m.t.kind {
	case reflect.Int8:
		return int64(int8(m.n64))
	case reflect.Int16:
		return int64(int16(m.n64))
	case reflect.Int32:
		return int64(int32(m.n64))
	case reflect.Int64:
		return m.n64
	}
	gv.Ensure("C16", "reflect does not panic: Int", false)
	return 0
}

//gv:contract (reflect.Value).Uint
func Uint(v reflect.Value) uint64 {
	m := of(v).isRoot()
	switch m.t.kind {
	case reflect.Uint8:
		return uint64(uint8(m.n64))
	case reflect.Uint16:
		return uint64(uint16(m.n64))
	case reflect.Uint32:
		return uint64(uint32(m.n64))
	case reflect.Uint64:
		return uint64(m.n64)
	}
	gv.Ensure("C16", "reflect does not panic: Uint", false)
	return 0
}

//gv:contract (reflect.Value).Float
func Float(v reflect.Value) float64 {
	m := of(v).isRoot()
	gv.Ensure("C16", "reflect does not panic: Float", m.t.kind == reflect.Float32 || m.t.kind == reflect.Float64)
	return m.f
}

//gv:contract (reflect.Value).String
func String(v reflect.Value) string {
	m := of(v).isRoot()
	gv.Ensure("C14", "the string itself is taken", m.t.kind == reflect.String)
	return m.s
}

//gv:contract (reflect.Value).Bytes
func Bytes(v reflect.Value) []byte {
	m := of(v).isRoot()
	if m.t.kind == reflect.Array {
		return m.uuid[:]
	}
	gv.Ensure("C16", "reflect does not panic: Bytes", m.t.kind == reflect.Slice && m.t.bytes)
	return m.bytes
}

//gv:contract (reflect.Value).SetBool
func SetBool(v reflect.Value, x bool) {
	m := of(v).isRoot()
	gv.Ensure("C16", "reflect does not panic: SetBool", m.t.kind == reflect.Bool)
	m.b, m.stores = x, m.stores+1
}

//gv:contract (reflect.Value).SetInt
func SetInt(v reflect.Value, x int64) {
	m := of(v).isRoot()
	switch m.t.kind {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
	default:
		gv.Ensure("C16", "reflect does not panic: SetInt", false)
	}
	m.n64, m.stores = x, m.stores+1
}

//gv:contract (reflect.Value).SetUint
func SetUint(v reflect.Value, x uint64) {
	m := of(v).isRoot()
	switch m.t.kind {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
	default:
		gv.Ensure("C16", "reflect does not panic: SetUint", false)
	}
	m.n64, m.stores = int64(x), m.stores+1
}

//gv:contract (reflect.Value).SetFloat
func SetFloat(v reflect.Value, x float64) {
	m := of(v).isRoot()
	gv.Ensure("C16", "reflect does not panic: SetFloat", m.t.kind == reflect.Float32 || m.t.kind == reflect.Float64)
	m.f, m.stores = x, m.stores+1
}

//gv:contract (reflect.Value).SetString
func SetString(v reflect.Value, x string) {
	m := of(v).isRoot()
	gv.Ensure("C16", "reflect does not panic: SetString", m.t.kind == reflect.String)
	m.s, m.stores = x, m.stores+1
}

//gv:contract (reflect.Value).SetBytes
func SetBytes(v reflect.Value, x []byte) {
	m := of(v).isRoot()
	gv.Ensure("C16", "reflect does not panic: SetBytes", m.t.kind == reflect.Slice && m.t.bytes)
	m.bytes, m.stores = x, m.stores+1
}

// ---- slices ----

//gv:contract (reflect.Value).Len
func Len(v reflect.Value) int {
	m := of(v).isRoot()
	gv.Ensure("C16", "reflect does not panic: Len", m.t.kind == reflect.Slice || m.t.kind == reflect.Map)
	return m.n
}

//gv:contract (reflect.Value).Cap
func Cap(v reflect.Value) int {
	m := of(v).isRoot()
	gv.Ensure("C16", "reflect does not panic: Cap", m.t.kind == reflect.Slice)
	return m.cap
}

//gv:contract (reflect.Value).SetLen
func SetLen(v reflect.Value, n int) {
	m := of(v).isRoot()
	gv.Ensure("C16", "reflect does not panic: SetLen", m.t.kind == reflect.Slice && 0 <= n && n <= m.cap)
	m.n, m.stores = n, m.stores+1
}

// Grow leaves the new elements, and those between the length and the old
// capacity, zero if it has to make a new array.
//
//gv:contract (reflect.Value).Grow
func Grow(v reflect.Value, n int) {
	m := of(v).isRoot()
	gv.Ensure("C16", "reflect does not panic: Grow", m.t.kind == reflect.Slice && 0 <= n)
	m.stores++
	if n > m.cap-m.n {
		if m.n <= m.i {
			m.clean = true
		}
		k := gv.Size()
		gv.Assume(m.n+n <= k)
		m.cap = k
	}
}

//gv:contract (reflect.Value).Index
func Index(v reflect.Value, i int) reflect.Value {
	c := of(v)
	m := c.isRoot()
	gv.Ensure("C16", "reflect does not panic: Index", m.t.kind == reflect.Slice && 0 <= i && i < m.n)
	return gv.Wrap(&cell{m: m, t: m.t.elem, role: elem, idx: i})
}

//gv:contract (reflect.Value).SetZero
func SetZero(v reflect.Value) {
	c := of(v)
	switch c.role {
	case elem:
		c.m.zeroed = c.idx
	case scratch:
		c.has = zero
	default:
		gv.Ensure("", "only elements and scratch variables are zeroed", false)
	}
}

// ---- pointers and scratch variables ----

//gv:contract reflect.New
func New(t reflect.Type) reflect.Value {
	ft := t.(*ftype)
	c := &cell{t: ft, role: scratch, has: zero}
	return gv.Wrap(&cell{t: &ftype{kind: reflect.Pointer, elem: ft}, role: pointer, to: c})
}

//gv:contract (reflect.Value).Elem
func Elem(v reflect.Value) reflect.Value {
	c := of(v)
	gv.Ensure("", "only pointers are followed", c.t.kind == reflect.Pointer)
	if c.null {
		return reflect.Value{}
	}
	return gv.Wrap(c.to)
}

//gv:contract (reflect.Value).IsNil
func IsNil(v reflect.Value) bool {
	c := of(v)
	switch c.t.kind {
	case reflect.Pointer, reflect.Map, reflect.Slice:
		return c.null
	}
	gv.Ensure("C16", "reflect does not panic: IsNil", false)
	return false
}

//gv:contract (reflect.Value).IsZero
func IsZero(v reflect.Value) bool {
	c := of(v)
	gv.Ensure("C14", "the value tested for zero is the field's", c.role == field && c.idx == c.m.fld)
	return c.m.plain
}

//gv:contract (reflect.Value).Set
func Set(v, x reflect.Value) {
	c, d := of(v), of(x)
	switch {
	case c.role == scratch && d.role == entry:
		c.has, c.tok = d.has, d.tok
	case c.role == scratch && d.role == root:
		c.has = copied
	case c.role == root && c.t.kind == reflect.Pointer && d.role == pointer:
		gv.Ensure("C16", "reflect does not panic: Set", c.t.elem == d.t.elem)
		c.to, c.null = d.to, false
		c.m.stores++
	case c.role == root && c.t.kind == reflect.Map && d.role == scratch:
		gv.Ensure("C16", "reflect does not panic: Set", c.t == d.t)
		gv.Ensure("C15", "a map is only replaced when it is nil", c.null)
		c.null = d.null
		c.m.stores++
	default:
		gv.Ensure("", "only variables of the right kind are set", false)
	}
}

// ---- maps ----

//gv:contract reflect.MakeMap
func MakeMap(t reflect.Type) reflect.Value {
	return gv.Wrap(&cell{t: t.(*ftype), role: scratch, has: zero})
}

//gv:contract reflect.MakeMapWithSize
func MakeMapWithSize(t reflect.Type, n int) reflect.Value { return MakeMap(t) }

// iterating is the monitor of the map being iterated over.
var iterating *mon

//gv:contract (reflect.Value).MapRange
func MapRange(v reflect.Value) *reflect.MapIter {
	m := of(v).isRoot()
	gv.Ensure("C16", "reflect does not panic: MapRange", m.t.kind == reflect.Map)
	m.iter = -1
	iterating = m
	return new(reflect.MapIter)
}

//gv:contract (*reflect.MapIter).Next
func Next(*reflect.MapIter) bool {
	m := iterating
	m.iter++
	return m.iter < m.n
}

//gv:contract (reflect.Value).SetIterKey
func SetIterKey(v reflect.Value, it *reflect.MapIter) {
	c := of(v)
	gv.Ensure("C16", "reflect does not panic: SetIterKey", c.role == scratch && c.t == iterating.t.key && 0 <= iterating.iter && iterating.iter < iterating.n)
	c.has, c.tok = token, 2*iterating.iter
}

//gv:contract (reflect.Value).SetIterValue
func SetIterValue(v reflect.Value, it *reflect.MapIter) {
	c := of(v)
	gv.Ensure("C16", "reflect does not panic: SetIterValue", c.role == scratch && c.t == iterating.t.elem && 0 <= iterating.iter && iterating.iter < iterating.n)
	c.has, c.tok = token, 2*iterating.iter+1
}

//gv:contract (*reflect.MapIter).Key
func Key(it *reflect.MapIter) reflect.Value {
	return gv.Wrap(&cell{t: iterating.t.key, role: entry, has: token, tok: 2 * iterating.iter})
}

//gv:contract (*reflect.MapIter).Value
func Value(it *reflect.MapIter) reflect.Value {
	return gv.Wrap(&cell{t: iterating.t.elem, role: entry, has: token, tok: 2*iterating.iter + 1})
}

//gv:contract (reflect.Value).MapIndex
func MapIndex(v, key reflect.Value) reflect.Value {
	c, k := of(v), of(key)
	m := c.isRoot()
	gv.Ensure("C16", "reflect does not panic: MapIndex", m.t.kind == reflect.Map && k.t == m.t.key)
	gv.Ensure("C15", "a key is looked up as decoded", k.has == token && k.tok == 2*m.i)
	if gv.Bool() {
		return reflect.Value{}
	}
	return gv.Wrap(&cell{t: m.t.elem, role: entry, has: present, tok: 2 * m.i})
}

//gv:contract (reflect.Value).SetMapIndex
func SetMapIndex(v, key, val reflect.Value) {
	c, k, e := of(v), of(key), of(val)
	m := c.isRoot()
	gv.Ensure("C16", "reflect does not panic: SetMapIndex", !c.null && m.t.kind == reflect.Map && k.t == m.t.key && e.t == m.t.elem)
	m.stores++
	if m.failed {
		return // whether the value whose decoding failed is stored does not matter
	}
	gv.Ensure("C15", "an entry is stored with the key decoded for it", k.has == token && k.tok == 2*m.added)
	gv.Ensure("C15", "an entry is stored with the value decoded for it", e.has == token && e.tok == 2*m.added+1)
	m.added++
}

// ---- structs ----

//gv:contract (reflect.Value).Field
func Field(v reflect.Value, i int) reflect.Value {
	c := of(v)
	m := c.isRoot()
	gv.Ensure("C16", "reflect does not panic: Field", m.t.kind == reflect.Struct && 0 <= i && i < m.n)
	return gv.Wrap(&cell{m: m, t: m.fldType, role: field, idx: i})
}

//gv:contract (reflect.Value).NumField
func NumField(v reflect.Value) int { return of(v).isRoot().n }

// ---- what package thrift calls ----

//gv:contract github.com/itstarsun/go-thrift/thrift.lookupArshaler
func LookupArshaler(t reflect.Type) *thrift.VerifArshaler { return t.(*ftype).arsh }

//gv:contract github.com/itstarsun/go-thrift/thrift.isPointerCycle
func IsPointerCycle(t reflect.Type) bool { return t.(*ftype).cycle }

//gv:contract github.com/itstarsun/go-thrift/thrift.makeStructFields
func MakeStructFields(t reflect.Type) (thrift.VerifFields, *thrift.SemanticError) {
	m := describing
	if m.malformed {
		return thrift.VerifFields{}, &thrift.SemanticError{GoType: t, Err: m.err}
	}
	return thrift.VerifMakeFields(gv.Lazy(m.nf, m.fieldAt), gv.LazyMap(m.fieldByID)), nil
}

// describing is the monitor of the struct whose fields are asked for.
var describing *mon

//gv:contract github.com/itstarsun/go-thrift/encoding/thriftwire.Skip
func Skip(r thriftwire.Reader, t thriftwire.Type) error {
	m := r.(rd).m
	m.op("Skip", m.at == inField)
	gv.Ensure("C15", "only unknown fields are skipped", !m.known)
	gv.Ensure("C15", "a field is skipped as the type in its header", t == m.fieldWire)
	m.at = endField
	return m.nested()
}

// gval is a Go value given to Marshal or Unmarshal.
type gval struct{ c *cell }

//gv:contract reflect.ValueOf
func ValueOf(x any) reflect.Value {
	if x == nil {
		return reflect.Value{}
	}
	return gv.Wrap(x.(*gval).c)
}
