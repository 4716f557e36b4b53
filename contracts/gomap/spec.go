package gomap

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

// ---- struct declarations ----

type field struct {
	i        int
	id       int16
	name     string
	required bool
}

// parseTag specifies the field tag grammar; ok is false for a malformed tag.
func parseTag(tag string) (id int16, required, ok bool) {
	opts := ""
	num := tag
	if i := strings.IndexByte(tag, ','); i >= 0 {
		num, opts = tag[:i], tag[i:]
	}
	digits := num
	if digits != "" && (digits[0] == '+' || digits[0] == '-') {
		digits = digits[1:]
	}
	if digits == "" || strings.Trim(digits, "0123456789") != "" {
		return 0, false, false
	}
	n, err := strconv.Atoi(num)
	if err != nil || n < -1<<15 || n >= 1<<15 {
		return 0, false, false
	}
	if opts == "" {
		return int16(n), false, true
	}
	seen := map[string]bool{}
	for _, o := range strings.Split(opts[1:], ",") {
		for i, c := range o {
			if c != '_' && !unicode.IsLetter(c) && (i == 0 || !unicode.IsNumber(c)) {
				return 0, false, false
			}
		}
		if o == "" || seen[o] {
			return 0, false, false
		}
		seen[o] = true
		if o == "required" {
			required = true
		} else if strings.EqualFold(strings.ReplaceAll(o, "_", ""), "required") {
			return 0, false, false
		}
	}
	return int16(n), required, true
}

// fieldsOf lists the fields of a struct type by id; ok is false for a
// declaration that is malformed.
func fieldsOf(t reflect.Type) (fs []field, ok bool) {
	tagged := false
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		tag, has := sf.Tag.Lookup("thrift")
		tagged = tagged || has
		if tag == "-" {
			continue
		}
		if sf.PkgPath != "" {
			if has {
				return nil, false
			}
			continue
		}
		id, req, ok := parseTag(tag)
		if !ok {
			return nil, false
		}
		fs = append(fs, field{i, id, sf.Name, req})
	}
	if t.NumField() > 0 && !tagged && len(fs) == 0 {
		return nil, false
	}
	sort.SliceStable(fs, func(a, b int) bool { return fs[a].id < fs[b].id })
	return fs, true
}

// sameIDs tells whether two fields have one id (what happens is unspecified).
func sameIDs(fs []field) bool {
	for i := 1; i < len(fs); i++ {
		if fs[i].id == fs[i-1].id {
			return true
		}
	}
	return false
}

// ---- failures ----

// failure is the error that is due.
type failure struct {
	wire  thriftwire.Type
	typ   reflect.Type
	cause error // of the reader or writer, if it failed
	skip  bool  // while an unknown field was passed over
}

// ---- marshalling ----

type emitter struct {
	ops  []wop
	fail int
}

func (e *emitter) op(w thriftwire.Type, t reflect.Type, f string, a ...any) *failure {
	e.ops = append(e.ops, wop(fmt.Sprintf(f, a...)))
	if len(e.ops)-1 == e.fail {
		return &failure{wire: w, typ: t, cause: errInjected}
	}
	return nil
}

// marshal specifies the operations that write v, which is addressable.
func (e *emitter) marshal(v reflect.Value) *failure {
	t := v.Type()
	w := wireOf(t)
	if w == 0 {
		for t.Kind() == reflect.Pointer && t != t.Elem() && wireOf(t.Elem()) == 0 && !cyclic(t) {
			t = t.Elem()
		}
		return &failure{typ: t}
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return e.marshal(reflect.New(t.Elem()).Elem())
		}
		return e.marshal(v.Elem())
	case reflect.Bool:
		return e.op(w, t, "Bool %v", v.Bool())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return e.int(w, t, v.Int())
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return e.int(w, t, int64(v.Uint()))
	case reflect.Float32, reflect.Float64:
		return e.op(w, t, "Double %s", bits(v.Float()))
	case reflect.String:
		return e.op(w, t, "String %q", v.String())
	case reflect.Array:
		u := v.Interface().([16]byte)
		return e.op(w, t, "UUID %x", u[:])
	case reflect.Struct:
		fs, ok := fieldsOf(t)
		if !ok {
			return &failure{typ: t}
		}
		if f := e.op(w, t, "StructBegin %q", t.Name()); f != nil {
			return f
		}
		for _, sf := range fs {
			x := v.Field(sf.i)
			fw := wireOf(x.Type())
			if fw == 0 {
				return &failure{typ: x.Type()}
			}
			if !sf.required && isZero(x) {
				continue
			}
			if f := e.op(w, t, "FieldBegin %q %d %d", sf.name, fw, sf.id); f != nil {
				return f
			}
			if f := e.marshal(x); f != nil {
				return f
			}
			if f := e.op(w, t, "FieldEnd"); f != nil {
				return f
			}
		}
		return e.op(w, t, "StructEnd")
	case reflect.Map:
		kw, vw := wireOf(t.Key()), wireOf(t.Elem())
		if kw == 0 || vw == 0 {
			return &failure{wire: w, typ: t}
		}
		if f := e.op(w, t, "MapBegin %d %d %d", kw, vw, v.Len()); f != nil {
			return f
		}
		for it := v.MapRange(); it.Next(); {
			k, x := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			k.Set(it.Key())
			x.Set(it.Value())
			if f := e.marshal(k); f != nil {
				return f
			}
			if f := e.marshal(x); f != nil {
				return f
			}
		}
		return e.op(w, t, "MapEnd")
	}
	// slices
	switch w {
	case thriftwire.String:
		return e.op(w, t, "String %q", v.Bytes())
	}
	name := map[thriftwire.Type]string{thriftwire.Set: "Set", thriftwire.List: "List"}[w]
	ew := wireOf(t.Elem())
	if ew == 0 {
		return &failure{wire: w, typ: t}
	}
	if f := e.op(w, t, "%sBegin %d %d", name, ew, v.Len()); f != nil {
		return f
	}
	for i := 0; i < v.Len(); i++ {
		if f := e.marshal(v.Index(i)); f != nil {
			return f
		}
	}
	return e.op(w, t, "%sEnd", name)
}

func (e *emitter) int(w thriftwire.Type, t reflect.Type, n int64) *failure {
	switch w {
	case thriftwire.Byte:
		return e.op(w, t, "Byte %d", byte(n))
	case thriftwire.I16:
		return e.op(w, t, "I16 %d", int16(n))
	case thriftwire.I32:
		return e.op(w, t, "I32 %d", int32(n))
	}
	return e.op(w, t, "I64 %d", n)
}

// cyclic tells whether t is a pointer to nothing but pointers.
func cyclic(t reflect.Type) bool {
	for i := 0; i < 50; i++ {
		if t.Kind() != reflect.Pointer {
			return false
		}
		t = t.Elem()
	}
	return true
}

// canon reads one value off a list of operations and renders it so that the
// entries of a map are in no particular order; it fails if the list is not
// well formed.
func canon(ops []wop, i *int) (s string, ok bool) {
	if *i >= len(ops) {
		return "", false
	}
	op := string(ops[*i])
	*i++
	name, _, _ := strings.Cut(op, " ")
	is := func(p string) bool { return *i < len(ops) && strings.HasPrefix(string(ops[*i]), p) }
	list := func(end string) (out []string, ok bool) {
		for !is(end) {
			x, ok := canon(ops, i)
			if !ok {
				return nil, false
			}
			out = append(out, x)
		}
		*i++
		return out, true
	}
	switch name {
	case "Bool", "Byte", "I16", "I32", "I64", "Double", "String", "UUID":
		return op, true
	case "StructBegin":
		for !is("StructEnd") {
			if !is("FieldBegin") {
				return "", false
			}
			f := ops[*i]
			*i++
			x, ok := canon(ops, i)
			if !ok || !is("FieldEnd") {
				return "", false
			}
			*i++
			s += fmt.Sprintf("%s: %s; ", f, x)
		}
		*i++
		return op + " { " + s + "}", true
	case "SetBegin", "ListBegin":
		l, ok := list(name[:len(name)-len("Begin")] + "End")
		return op + " [" + strings.Join(l, ", ") + "]", ok
	case "MapBegin":
		l, ok := list("MapEnd")
		if !ok || len(l)%2 != 0 {
			return "", false
		}
		var e []string
		for k := 0; k < len(l); k += 2 {
			e = append(e, l[k]+" => "+l[k+1])
		}
		sort.Strings(e)
		return op + " {" + strings.Join(e, ", ") + "}", true
	}
	return "", false
}

// ---- unmarshalling ----

// unmarshal specifies the operations that read a value of wire type wt into
// v, and what they store.
func (g *gen) unmarshal(v reflect.Value, wt thriftwire.Type) *failure {
	t := v.Type()
	w := wireOf(t)
	if t.Kind() == reflect.Pointer && !cyclic(t) {
		if v.IsNil() {
			v.Set(reflect.New(t.Elem()))
		}
		return g.unmarshal(v.Elem(), wt)
	}
	if t.Kind() == reflect.Struct {
		if _, ok := fieldsOf(t); !ok {
			return &failure{typ: t}
		}
	}
	if w == 0 || wt != w {
		return &failure{wire: wt, typ: t}
	}
	g.depth++
	defer func() { g.depth-- }()
	op := func(name string, res any) *failure {
		if err := g.op(name, res); err != nil {
			return &failure{wire: w, typ: t, cause: err}
		}
		return nil
	}
	likely := func(w thriftwire.Type) thriftwire.Type {
		if w == 0 || g.Intn(25) == 0 {
			return g.wtype()
		}
		return w
	}
	switch w {
	case thriftwire.Bool:
		x := g.Intn(2) == 1
		if f := op("Bool", x); f != nil {
			return f
		}
		v.SetBool(x)
	case thriftwire.Byte:
		x := byte(g.word())
		if f := op("Byte", x); f != nil {
			return f
		}
		if v.Kind() == reflect.Int8 {
			v.SetInt(int64(int8(x)))
		} else {
			v.SetUint(uint64(x))
		}
	case thriftwire.I16:
		x := int16(g.word())
		if f := op("I16", x); f != nil {
			return f
		}
		if v.Kind() == reflect.Int16 {
			v.SetInt(int64(x))
		} else {
			v.SetUint(uint64(uint16(x)))
		}
	case thriftwire.I32:
		x := int32(g.word())
		if f := op("I32", x); f != nil {
			return f
		}
		if v.Kind() == reflect.Int32 {
			v.SetInt(int64(x))
		} else {
			v.SetUint(uint64(uint32(x)))
		}
	case thriftwire.I64:
		x := g.word()
		if f := op("I64", x); f != nil {
			return f
		}
		if v.Kind() == reflect.Int64 {
			v.SetInt(x)
		} else {
			v.SetUint(uint64(x))
		}
	case thriftwire.Double:
		x := g.double()
		if f := op("Double", x); f != nil {
			return f
		}
		v.SetFloat(x)
	case thriftwire.UUID:
		x := g.uuid()
		if f := op("UUID", x); f != nil {
			return f
		}
		v.Set(reflect.ValueOf(x))
	case thriftwire.String:
		x := g.str()
		if t.Kind() == reflect.String {
			if f := op("String", x); f != nil {
				return f
			}
			v.SetString(x)
		} else {
			if f := op("Bytes", x); f != nil {
				return f
			}
			v.SetBytes([]byte(x))
		}
	case thriftwire.Struct:
		fs, _ := fieldsOf(t)
		if f := op("StructBegin", thriftwire.StructHeader{Name: g.str()}); f != nil {
			return f
		}
		for {
			h := thriftwire.FieldHeader{ID: int16(g.word()), Name: g.str()}
			at := -1
			if len(fs) > 0 && g.Intn(4) != 0 {
				h.ID = fs[g.Intn(len(fs))].id
			}
			for _, f := range fs {
				if f.id == h.ID {
					at = f.i
				}
			}
			if g.depth < 30 && g.Intn(4) != 0 {
				h.Type = g.wtype()
				if at >= 0 {
					h.Type = likely(wireOf(v.Field(at).Type()))
				}
			}
			if f := op("FieldBegin", h); f != nil {
				return f
			}
			if h.Type == thriftwire.Stop {
				break
			}
			if at < 0 {
				unknown := false
				if err := g.skip(h.Type, &unknown); err != nil || unknown {
					return &failure{cause: err, skip: true}
				}
			} else if f := g.unmarshal(v.Field(at), h.Type); f != nil {
				return f
			}
			if f := op("FieldEnd", nil); f != nil {
				return f
			}
		}
		return op("StructEnd", nil)
	case thriftwire.Map:
		h := thriftwire.MapHeader{Key: likely(wireOf(t.Key())), Value: likely(wireOf(t.Elem())), Size: g.size()}
		if g.depth > 10 && h.Size > 2 {
			h.Size = 0
		}
		if f := op("MapBegin", h); f != nil {
			return f
		}
		for i := 0; i < h.Size; i++ {
			if v.IsNil() {
				v.Set(reflect.MakeMap(t))
			}
			k, x := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			if f := g.unmarshal(k, h.Key); f != nil {
				return f
			}
			if old := v.MapIndex(k); old.IsValid() {
				x.Set(old)
			}
			f := g.unmarshal(x, h.Value)
			if f != nil {
				return f
			}
			v.SetMapIndex(k, x)
		}
		return op("MapEnd", nil)
	case thriftwire.Set, thriftwire.List:
		name := map[thriftwire.Type]string{thriftwire.Set: "Set", thriftwire.List: "List"}[w]
		el, n := likely(wireOf(t.Elem())), g.size()
		if g.depth > 10 && n > 2 {
			n = 0
		}
		var h any = thriftwire.SetHeader{Element: el, Size: n}
		if w == thriftwire.List {
			h = thriftwire.ListHeader{Element: el, Size: n}
		}
		if f := op(name+"Begin", h); f != nil {
			return f
		}
		s := reflect.MakeSlice(t, 0, 0)
		for i := 0; i < n; i++ {
			x := reflect.New(t.Elem()).Elem()
			if f := g.unmarshal(x, el); f != nil {
				return f
			}
			s = reflect.Append(s, x)
		}
		v.Set(s)
		return op(name+"End", nil)
	}
	return nil
}

// dump renders a value; nil and empty containers are not told apart.
func dump(v reflect.Value) string {
	t := v.Type()
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		if cyclic(t) {
			return "cycle"
		}
		return "&" + dump(v.Elem())
	case reflect.Float32, reflect.Float64:
		return bits(v.Float())
	case reflect.Slice:
		var l []string
		for i := 0; i < v.Len(); i++ {
			l = append(l, dump(v.Index(i)))
		}
		return "[" + strings.Join(l, " ") + "]"
	case reflect.Map:
		var l []string
		for it := v.MapRange(); it.Next(); {
			l = append(l, dump(it.Key())+":"+dump(it.Value()))
		}
		sort.Strings(l)
		return "{" + strings.Join(l, " ") + "}"
	case reflect.Struct:
		var l []string
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				l = append(l, t.Field(i).Name+"="+dump(v.Field(i)))
			}
		}
		return "(" + strings.Join(l, " ") + ")"
	case reflect.Chan, reflect.Func, reflect.UnsafePointer, reflect.Interface:
		return fmt.Sprint(v.IsNil())
	case reflect.String:
		return strconv.Quote(v.String())
	}
	return fmt.Sprint(v.Interface())
}

var errNone = errors.New("none")
