package gomap

import (
	"fmt"
	"math/rand"
	"reflect"
	"strconv"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
)

// ---- declared types ----

type (
	namedBool   bool
	namedInt8   int8
	namedInt16  int16
	namedInt32  int32
	namedInt64  int64
	namedUint8  uint8
	namedUint16 uint16
	namedUint32 uint32
	namedUint64 uint64
	namedF32    float32
	namedF64    float64
	namedString string
	namedBytes  []byte
	namedList   []int32
	namedMap    map[string]int16
	namedUUID   [16]byte
	notSet      thrift.Set[int32]
	byteList    []namedUint8

	// zero tests of their own
	zeroVal struct {
		N int32 `thrift:"1"`
	}
	zeroPtr struct {
		N int32 `thrift:"1"`
	}
	zeroInt   int32
	zeroSlice []int16
	zeroMap   map[int16]bool
	zeroStr   string
	zeroIface interface{ IsZero() bool }

	// recursive types
	recPtr struct {
		V    int16   `thrift:"3"`
		Next *recPtr `thrift:"1"`
	}
	recTree struct {
		Kids []recTree `thrift:"2"`
		S    string    `thrift:"1"`
	}
	recList  []recList
	recMap   map[int32]recMap
	recSet   thrift.Set[recHolder]
	recPList []*recPList
	ptrCycle *ptrCycle
	pingPong *pongPing
	pongPing *pingPong

	recHolder struct {
		L thrift.Set[recHolder]   `thrift:"7"`
		M map[string]recHolder    `thrift:"-3"`
		P **recHolder             `thrift:"5"`
		I thrift.List[*recHolder] `thrift:"0,required"`
	}

	// declared structs
	unordered struct {
		C int64   `thrift:"300"`
		A bool    `thrift:"-32768"`
		B float64 `thrift:"32767,required"`
		D string  `thrift:"0"`
		E []byte  `thrift:"7,other"`
	}
	mixed struct {
		hidden  int
		Ignored chan int   `thrift:"-"`
		U       [16]byte   `thrift:"4"`
		Bytes   namedBytes `thrift:"2,required"`
		hidden2 int        `thrift:"-"`
		Ptr     **int32    `thrift:"3,required"`
		Opt     *string    `thrift:"1"`
	}
	onlyIgnored struct {
		A int `thrift:"-"`
	}
	empty    struct{}
	unusable struct {
		a int
	}
	badTag struct {
		A int32 `thrift:"x"`
	}
	noTag struct {
		A int32
	}
	badField struct {
		A int32    `thrift:"1"`
		B chan int `thrift:"2"`
		C int32    `thrift:"3"`
	}
	badHidden struct {
		A int32 `thrift:"1"`
		b int32 `thrift:"2"`
	}
	zeros struct {
		A zeroVal   `thrift:"1"`
		B zeroPtr   `thrift:"2"`
		C *zeroVal  `thrift:"3"`
		D *zeroPtr  `thrift:"4"`
		E zeroInt   `thrift:"5"`
		F zeroSlice `thrift:"6"`
		G zeroMap   `thrift:"7"`
		H zeroStr   `thrift:"8,required"`
		I *zeroInt  `thrift:"9"`
	}
	badIface struct {
		A int16     `thrift:"1"`
		Z zeroIface `thrift:"2"`
	}
	all struct {
		B   bool     `thrift:"1"`
		I8  int8     `thrift:"2"`
		I16 int16    `thrift:"3"`
		I32 int32    `thrift:"4"`
		I64 int64    `thrift:"5"`
		U8  uint8    `thrift:"6"`
		U16 uint16   `thrift:"7"`
		U32 uint32   `thrift:"8"`
		U64 uint64   `thrift:"9"`
		F32 float32  `thrift:"10"`
		F64 float64  `thrift:"11"`
		S   string   `thrift:"12"`
		By  []byte   `thrift:"13"`
		Id  [16]byte `thrift:"14"`
		P   *bool    `thrift:"15"`
	}
)

func (z zeroVal) IsZero() bool   { return z.N == 5 }
func (z *zeroPtr) IsZero() bool  { return z.N == 6 }
func (z zeroInt) IsZero() bool   { return z == 7 }
func (z zeroSlice) IsZero() bool { return len(z) == 1 }
func (z zeroMap) IsZero() bool   { return len(z) == 1 }
func (z *zeroStr) IsZero() bool  { return *z == "a" }

func rt[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

var scalars = []reflect.Type{rt[bool](), rt[int8](), rt[int16](), rt[int32](), rt[int64](), rt[uint8](), rt[uint16](), rt[uint32](), rt[uint64](),
	rt[float32](), rt[float64](), rt[string](), rt[[16]byte]()}

var declared = []reflect.Type{rt[namedBool](), rt[namedInt8](), rt[namedInt16](), rt[namedInt32](), rt[namedInt64](), rt[namedUint8](), rt[namedUint16](),
	rt[namedUint32](), rt[namedUint64](), rt[namedF32](), rt[namedF64](), rt[namedString](), rt[namedBytes](), rt[namedList](), rt[namedMap](),
	rt[notSet](), rt[byteList](), rt[zeroVal](), rt[zeroPtr](), rt[zeroInt](), rt[zeroSlice](), rt[zeroMap](), rt[zeroStr](),
	rt[recPtr](), rt[recTree](), rt[recList](), rt[recMap](), rt[recSet](), rt[recPList](), rt[recHolder](),
	rt[unordered](), rt[mixed](), rt[onlyIgnored](), rt[empty](), rt[zeros](), rt[zeros](), rt[all](), rt[all](), rt[[]byte](),
	rt[thrift.Set[int32]](), rt[thrift.Set[string]](), rt[thrift.Set[bool]](), rt[thrift.Set[float64]](), rt[thrift.Set[[]byte]](), rt[thrift.Set[uint8]](),
	rt[thrift.List[int64]](), rt[thrift.List[byte]](), rt[thrift.List[string]](), rt[thrift.Set[thrift.Set[int16]]](), rt[thrift.Set[thrift.List[uint32]]](),
	rt[thrift.List[all]](), rt[thrift.Set[all]](), rt[thrift.Set[*unordered]](), rt[thrift.List[map[string][]byte]](), rt[thrift.Set[[16]byte]](), rt[thrift.List[*zeros]]()}

// types that have no Thrift counterpart
var invalid = []reflect.Type{rt[chan int](), rt[func()](), rt[any](), rt[error](), rt[int](), rt[uint](), rt[uintptr](), rt[complex64](), rt[complex128](),
	rt[[15]byte](), rt[[16]int8](), rt[[3]int32](), rt[namedUUID](), rt[zeroIface](), rt[ptrCycle](), rt[pingPong](), rt[*ptrCycle](), rt[[0]byte](),
	rt[unusable](), rt[badTag](), rt[noTag](), rt[badField](), rt[badHidden](), rt[badIface](), rt[badIface]()}

// gtype is any type; bad ones only if wanted.
func gtype(r *rand.Rand, depth int, bad bool) reflect.Type {
	n := r.Intn(20)
	if depth <= 0 {
		n = r.Intn(9)
	}
	switch {
	case bad && n == 8:
		return invalid[r.Intn(len(invalid))]
	case n < 6:
		return scalars[r.Intn(len(scalars))]
	case n < 10:
		return declared[r.Intn(len(declared))]
	case n < 12:
		return reflect.SliceOf(gtype(r, depth-1, bad))
	case n < 14:
		k := gtype(r, depth-2, bad)
		if !hashable(k) {
			k = scalars[r.Intn(len(scalars))]
		}
		return reflect.MapOf(k, gtype(r, depth-1, bad))
	case n < 16:
		return reflect.PointerTo(gtype(r, depth-1, bad))
	}
	// a struct
	var fs []reflect.StructField
	ids := map[int16]bool{}
	for i, k := 0, r.Intn(6); i < k; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: gtype(r, depth-1, bad)}
		id := int16(r.Intn(12))
		if r.Intn(8) == 0 {
			id = int16(r.Uint32())
		}
		if ids[id] {
			continue
		}
		ids[id] = true
		tag := strconv.Itoa(int(id))
		switch r.Intn(10) {
		case 0, 1, 2:
			tag += ",required"
		case 3:
			tag = "-"
		case 4:
			tag += ",x,required,y"
		case 5:
			tag += ",x"
		}
		f.Tag = reflect.StructTag("thrift:" + strconv.Quote(tag))
		if r.Intn(20) == 0 {
			f.Name, f.PkgPath, f.Tag = fmt.Sprintf("f%d", i), "x", ""
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

func hashable(t reflect.Type) bool {
	if !t.Comparable() || t.Kind() == reflect.Interface {
		return false
	}
	return true
}

// fill stores any value in v.
func fill(r *rand.Rand, v reflect.Value, depth int) {
	if r.Intn(12) == 0 {
		return // zero
	}
	g := &gen{Rand: r, fail: -1}
	t := v.Type()
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n := g.word()
		if r.Intn(2) == 0 {
			n = int64(r.Intn(9))
		}
		v.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(g.word()))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(g.double())
	case reflect.String:
		v.SetString(g.str())
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(r, v.Index(i), depth-1)
		}
	case reflect.Slice:
		if depth <= 0 {
			return
		}
		n := []int{0, 1, 1, 2, 2, 3, 5}[r.Intn(7)]
		s := reflect.MakeSlice(t, n, n+[]int{0, 0, 1, 4}[r.Intn(4)])
		full := s.Slice(0, s.Cap())
		for i := 0; i < full.Len(); i++ {
			fill(r, full.Index(i), depth-1)
		}
		v.Set(s)
	case reflect.Map:
		if depth <= 0 {
			return
		}
		m := reflect.MakeMap(t)
		for n := []int{0, 1, 1, 2, 3}[r.Intn(5)]; n > 0; n-- {
			k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			fill(r, k, depth-1)
			fill(r, e, depth-1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Interface:
		if t == rt[zeroIface]() {
			vs := []zeroIface{nil, (*zeroVal)(nil), zeroVal{5}, zeroVal{5}, zeroVal{1}, &zeroPtr{6}, (*zeroInt)(nil)}
			if z := vs[r.Intn(len(vs))]; z != nil {
				v.Set(reflect.ValueOf(z))
			}
		}
	case reflect.Pointer:
		if depth <= 0 || r.Intn(5) == 0 {
			return
		}
		p := reflect.New(t.Elem())
		fill(r, p.Elem(), depth-1)
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).IsExported() {
				fill(r, v.Field(i), depth-1)
			}
		}
	}
}

// ---- the Thrift type of a Go type ----

// wireOf is the wire type of t, or 0 if t has none.
func wireOf(t reflect.Type) thriftwire.Type {
	for i := 0; t.Kind() == reflect.Pointer; i++ {
		if i > 50 {
			return 0
		}
		t = t.Elem()
	}
	switch t.Kind() {
	case reflect.Bool:
		return thriftwire.Bool
	case reflect.Int8, reflect.Uint8:
		return thriftwire.Byte
	case reflect.Int16, reflect.Uint16:
		return thriftwire.I16
	case reflect.Int32, reflect.Uint32:
		return thriftwire.I32
	case reflect.Int64, reflect.Uint64:
		return thriftwire.I64
	case reflect.Float32, reflect.Float64:
		return thriftwire.Double
	case reflect.String:
		return thriftwire.String
	case reflect.Struct:
		return thriftwire.Struct
	case reflect.Map:
		return thriftwire.Map
	case reflect.Array:
		if t == rt[[16]byte]() {
			return thriftwire.UUID
		}
	case reflect.Slice:
		switch generic(t) {
		case "Set":
			return thriftwire.Set
		case "List":
			return thriftwire.List
		}
		if t.Elem() == rt[byte]() {
			return thriftwire.String
		}
		return thriftwire.List
	}
	return 0
}

// generic is the name of the generic type of package thrift that t is an instance of.
func generic(t reflect.Type) string {
	if t.PkgPath() != rt[thrift.SemanticError]().PkgPath() {
		return ""
	}
	for i := 0; i < len(t.Name()); i++ {
		if t.Name()[i] == '[' {
			return t.Name()[:i]
		}
	}
	return ""
}

// isZero is the zero test of a value: that of its type, if it has one.
func isZero(v reflect.Value) bool {
	if z := rt[interface{ IsZero() bool }](); v.Type().Implements(z) {
		if v.Kind() == reflect.Interface && (v.IsNil() || v.Elem().Kind() == reflect.Pointer && v.Elem().IsNil()) {
			return true
		}
		if v.Kind() == reflect.Pointer && v.IsNil() {
			return true
		}
		return v.Interface().(interface{ IsZero() bool }).IsZero()
	} else if reflect.PointerTo(v.Type()).Implements(z) {
		return v.Addr().Interface().(interface{ IsZero() bool }).IsZero()
	}
	return v.IsZero()
}
