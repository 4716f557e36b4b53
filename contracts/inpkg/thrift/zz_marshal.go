package thrift

import (
	"reflect"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

// VerifArshaler gives the contracts access to arshalers.
type VerifArshaler = arshaler

// VerifDepth is the depth limit.
const VerifDepth = maxDepth

// VerifMake is makeDefaultArshaler.
func VerifMake(t reflect.Type) *arshaler { return makeDefaultArshaler(t) }

// VerifLookup is lookupArshaler.
func VerifLookup(t reflect.Type) *arshaler { return lookupArshaler(t) }

// VerifNew makes an arshaler that does what its contract says.
func VerifNew(
	wt thriftwire.Type,
	m func(w thriftwire.Writer, v reflect.Value, depth int) error,
	u func(r thriftwire.Reader, v reflect.Value, depth int, wt thriftwire.Type) error,
) *arshaler {
	return &arshaler{
		wireType: wt,
		marshal: func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
			return m(w, va.Value, mo.depth)
		},
		unmarshal: func(r thriftwire.Reader, va addressableValue, uo unmarshalOptions, wt thriftwire.Type) error {
			return u(r, va.Value, uo.depth, wt)
		},
	}
}

// VerifWire is the wire type of f.
func VerifWire(f *arshaler) thriftwire.Type { return f.wireType }

// VerifMarshal marshals v with f.
func VerifMarshal(f *arshaler, w thriftwire.Writer, v reflect.Value, depth int) error {
	return f.marshal(w, addressableValue{v}, marshalOptions{depth: depth})
}

// VerifUnmarshal unmarshals v with f.
func VerifUnmarshal(f *arshaler, r thriftwire.Reader, v reflect.Value, depth int, wt thriftwire.Type) error {
	return f.unmarshal(r, addressableValue{v}, unmarshalOptions{depth: depth}, wt)
}

// VerifTypes sets the types that makeDefaultArshaler compares with.
func VerifTypes(set, list, bytes, uuid reflect.Type) {
	setType, listType, bytesType, uuidType = set, list, bytes, uuid
}

// VerifFields and VerifField are the fields of a struct.
type (
	VerifFields = structFields
	VerifField  = structField
)

// VerifMakeFields makes the fields of a struct.
func VerifMakeFields(sorted []structField, byID map[int16]*structField) structFields {
	return structFields{sorted: sorted, byID: byID}
}

// VerifMakeField makes a field of a struct.
func VerifMakeField(index []int, t reflect.Type, f *arshaler, isZero func(reflect.Value) bool, id int16, name string, required bool) *structField {
	sf := &structField{index: index, typ: t, fncs: f}
	if isZero != nil {
		sf.isZero = func(va addressableValue) bool { return isZero(va.Value) }
	}
	sf.id, sf.name, sf.required = id, name, required
	return sf
}

// VerifAction is what err says was being done.
func VerifAction(err error) string { return err.(*SemanticError).action }

// VerifSemantic reports whether err is a SemanticError.
func VerifSemantic(err error) bool {
	_, ok := err.(*SemanticError)
	return ok
}
