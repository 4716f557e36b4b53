package gomap

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"vspec/gv"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
)

// checkErr states what is known of the error that is due.
func checkErr(props, action string, err error, f *failure) {
	if f == nil {
		if err != nil {
			gv.Note("error %v", err)
		}
		gv.Ensure(props, "no error without a failure", err == nil)
		return
	}
	gv.Ensure("C16", "every failure is reported", err != nil)
	gv.Note("error %v", err)
	if f.cause != nil {
		gv.Ensure("C16", "the original error can be unwrapped", errors.Is(err, f.cause))
	}
	if f.skip {
		return
	}
	var s *thrift.SemanticError
	gv.Ensure("C16", "the error is a SemanticError", errors.As(err, &s))
	gv.Note("Thrift type %d, Go type %v, want %d, %v", s.ThriftType, s.GoType, f.wire, f.typ)
	gv.Ensure("C16", "the error tells the Thrift type", s.ThriftType == f.wire)
	gv.Ensure("C16", "the error tells the Go type", s.GoType == f.typ)
	gv.Ensure("C16", "the error tells what was being done", strings.Contains(err.Error(), " "+action+" "))
	if f.typ != nil {
		gv.Ensure("C16", "the error names the Go type", strings.Contains(err.Error(), f.typ.String()))
	}
	if f.cause != nil {
		gv.Ensure("C16", "the error names the cause", strings.Contains(err.Error(), f.cause.Error()))
	}
}

// HMarshal compares the operations that Marshal performs with those specified.
//
//gv:harness gomap/Marshal props=C14,C16 default=C14
//gv:concrete
func HMarshal() { marshalOne(gtype(gv.Rand(), 3, false)) }

// HMarshalBad: types that cannot be represented.
//
//gv:harness gomap/MarshalBad props=C16,C17 default=C16
//gv:concrete
func HMarshalBad() { marshalOne(gtype(gv.Rand(), 3, true)) }

func marshalOne(t reflect.Type) {
	r := gv.Rand()
	gv.Note("type %v", t)
	seed := r.Int63()
	p, q := reflect.New(t), reflect.New(t)
	fill(rand.New(rand.NewSource(seed)), p.Elem(), 5)
	fill(rand.New(rand.NewSource(seed)), q.Elem(), 5)
	gv.Note("value %.1000s", dump(p.Elem()))
	e := &emitter{fail: -1}
	f := e.marshal(p.Elem())
	w := &recorder{fail: -1}
	if n := len(e.ops); n > 0 && r.Intn(2) == 0 && !entries(e.ops) {
		e = &emitter{fail: r.Intn(n)}
		w.fail = e.fail
		gv.Note("operation %d fails", e.fail)
		f = e.marshal(p.Elem())
	}
	var in any = p.Interface()
	if r.Intn(3) == 0 && t.Kind() != reflect.Pointer && t.Kind() != reflect.Interface {
		in = p.Elem().Interface()
	}
	err := thrift.Marshal(w, in)
	gv.Note("operations %.1000q", w.ops)
	gv.Ensure("C16", "nothing is written after a failure", !w.over)
	if f != nil && entries(e.ops) {
		// an entry of a map cannot be represented, but which comes first is unspecified
		var s *thrift.SemanticError
		gv.Ensure("C16", "a value that cannot be represented is refused", errors.As(err, &s))
		return
	}
	checkErr("C14,C16", "marshal", err, f)
	gv.Ensure("C14", "the value is not modified", dump(p.Elem()) == dump(q.Elem()))
	if f != nil {
		same := len(w.ops) == len(e.ops)
		for i := range w.ops {
			same = same && w.ops[i] == e.ops[i]
		}
		gv.Ensure("C14,C16", "the operations up to a failure are those of the value", same)
		return
	}
	var i, j int
	got, ok := canon(w.ops, &i)
	gv.Ensure("C14", "the operations are well formed and balanced", ok && i == len(w.ops))
	want, ok := canon(e.ops, &j)
	if !ok {
		panic("spec")
	}
	if got != want {
		gv.Note("got  %s\nwant %s", got, want)
	}
	gv.Ensure("C14", "the operations are those that the value prescribes", got == want)
}

// entries tells whether there is a map of which the order matters.
func entries(ops []wop) bool {
	for _, o := range ops {
		if strings.HasPrefix(string(o), "MapBegin") && !strings.HasSuffix(string(o), " 0") && !strings.HasSuffix(string(o), " 1") {
			return true
		}
	}
	return false
}

// HUnmarshal compares what Unmarshal reads and stores with what is specified.
//
//gv:harness gomap/Unmarshal props=C15,C16,C12 default=C15
//gv:concrete
func HUnmarshal() { unmarshalOne(gtype(gv.Rand(), 3, false)) }

// HUnmarshalBad: types that cannot be represented.
//
//gv:harness gomap/UnmarshalBad props=C16,C17 default=C16
//gv:concrete
func HUnmarshalBad() { unmarshalOne(gtype(gv.Rand(), 3, true)) }

func unmarshalOne(t reflect.Type) {
	r := gv.Rand()
	gv.Note("type %v", t)
	wt := wireOf(t)
	seed := r.Int63()
	p, q := reflect.New(t), reflect.New(t)
	if r.Intn(2) == 0 {
		fill(rand.New(rand.NewSource(seed)), p.Elem(), 5)
		fill(rand.New(rand.NewSource(seed)), q.Elem(), 5)
		gv.Note("into %.1000s", dump(p.Elem()))
	}
	g := &gen{Rand: r, s: &script{props: "C15"}, fail: -1}
	if r.Intn(3) == 0 {
		g.fail = r.Intn(1 + r.Intn(40))
	}
	f := g.unmarshal(q.Elem(), wt)
	for i, o := range g.s.ops {
		if i > 60 {
			break
		}
		gv.Note("%v", o)
	}
	if f != nil {
		g.s.props = "C15,C16" // nothing is read after the failure
	}
	err := thrift.Unmarshal(g.s, p.Interface())
	checkErr("C15,C16", "unmarshal", err, f)
	gv.Ensure("C15,C16", "the value is read whole", g.s.i == len(g.s.ops))
	if f == nil {
		got, want := dump(p.Elem()), dump(q.Elem())
		if got != want {
			gv.Note("got  %.2000s\nwant %.2000s", got, want)
		}
		gv.Ensure("C15", "the value stored is the value read", got == want)
	}
}

// HMismatch: a wire type that does not match is rejected at once.
//
//gv:harness gomap/Mismatch props=C15,C16 default=C15
//gv:concrete
func HMismatch() {
	r := gv.Rand()
	t := gtype(r, 2, false)
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	wt := thriftwire.Type(1 + r.Intn(20))
	if wt == wireOf(t) {
		wt = thriftwire.Type(30 + r.Intn(226))
	}
	st := reflect.StructOf([]reflect.StructField{{Name: "F", Type: t, Tag: `thrift:"1"`}})
	p, q := reflect.New(st), reflect.New(st)
	seed := r.Int63()
	fill(rand.New(rand.NewSource(seed)), p.Elem(), 4)
	fill(rand.New(rand.NewSource(seed)), q.Elem(), 4)
	gv.Note("type %v, wire type %d", t, wt)
	s := &script{props: "C15", ops: []rop{{name: "StructBegin"}, {name: "FieldBegin", res: thriftwire.FieldHeader{ID: 1, Type: wt}}}}
	err := thrift.Unmarshal(s, p.Interface())
	gv.Ensure("C15,C16", "a wire type that does not match is an error", err != nil)
	checkErr("C16", "unmarshal", err, (&gen{Rand: r, s: &script{}, fail: -1}).unmarshal(q.Elem().Field(0), wt))
	gv.Ensure("C15", "nothing is stored for a wire type that does not match", dump(p.Elem()) == dump(q.Elem()))
}

// HTargets: arguments that are no values.
//
//gv:harness gomap/Targets props=C16 default=C16
//gv:concrete
func HTargets() {
	r := gv.Rand()
	t := gtype(r, 2, true)
	var in any
	switch r.Intn(4) {
	case 0:
		gv.Note("nil")
	case 1:
		in = reflect.Zero(reflect.PointerTo(t)).Interface()
		gv.Note("nil of type %T", in)
	case 2:
		v := reflect.New(t).Elem()
		fill(r, v, 3)
		in = v.Interface()
		if i := reflect.ValueOf(in); i.Kind() == reflect.Pointer && !i.IsNil() {
			return
		}
		gv.Note("no pointer: %T", in)
		err := thrift.Unmarshal(&script{props: "C16"}, in)
		gv.Ensure("C16", "a target that is no pointer is refused", err != nil)
		target(err, in, "unmarshal")
		return
	case 3:
		// a value of a type that cannot be represented
		v := reflect.New(invalid[r.Intn(len(invalid))])
		in = v.Interface()
		gv.Note("pointer to %v", v.Elem().Type())
		w := &recorder{fail: -1}
		err := thrift.Marshal(w, in)
		gv.Ensure("C16", "a value that cannot be represented is refused", err != nil)
		var s *thrift.SemanticError
		gv.Ensure("C16", "a value that cannot be represented is refused with a SemanticError", errors.As(err, &s))
		gv.Ensure("C16", "the cause can be unwrapped", s.Err == nil || errors.Is(err, s.Err))
		told := func(err error, action string) {
			gv.Ensure("C16", "the error tells what was being done", strings.Contains(err.Error(), " "+action+" ") || strings.Contains(err.Error(), " "+action+":"))
		}
		told(err, "marshal")
		if t := v.Elem().Type(); t == rt[badIface]() || t == rt[badField]() {
			return // refused when it gets to the field
		}
		err2 := thrift.Unmarshal(&script{props: "C16"}, in)
		gv.Ensure("C16", "a target that cannot be represented is refused", err2 != nil)
		told(err2, "unmarshal")
		told(err, "marshal")
		err3 := thrift.Marshal(w, in)
		gv.Ensure("C16", "a value that cannot be represented is refused", err3 != nil)
		told(err3, "marshal")
		told(err2, "unmarshal")
		return
	}
	w := &recorder{fail: -1}
	err := thrift.Marshal(w, in)
	gv.Ensure("C16", "a nil value is refused", err != nil && len(w.ops) == 0)
	target(err, in, "marshal")
	err = thrift.Unmarshal(&script{props: "C16"}, in)
	gv.Ensure("C16", "a nil target is refused", err != nil)
	target(err, in, "unmarshal")
}

func target(err error, in any, action string) {
	var s *thrift.SemanticError
	gv.Ensure("C16", "a bad argument is refused with a SemanticError", errors.As(err, &s))
	gv.Ensure("C16", "the error tells what was being done", strings.Contains(err.Error(), " "+action+" ") || strings.Contains(err.Error(), " "+action+":"))
	if t := reflect.TypeOf(in); t != nil {
		if t.Kind() == reflect.Pointer {
			t = t.Elem()
		}
		gv.Ensure("C16", "the error tells the Go type", s.GoType == t)
	}
	_ = err.Error()
}

type chain struct {
	Next *chain `thrift:"1"`
	V    int32  `thrift:"2"`
}

// HDeep: neither cyclic values nor hostile readers exhaust the stack.
//
//gv:harness gomap/Deep props=C16,C12,C14 default=C16
//gv:concrete
func HDeep() {
	if gv.Choose(500) != 0 {
		// deep values within reason
		n := 1 + gv.Choose(60)
		var c *chain
		for i := 0; i < n; i++ {
			c = &chain{Next: c, V: int32(i)}
		}
		w := &recorder{fail: -1}
		gv.Note("%d levels", n)
		gv.Ensure("C14,C16", "a deep value is marshalled", thrift.Marshal(w, c) == nil)
		i := 0
		_, ok := canon(w.ops, &i)
		gv.Ensure("C14", "a deep value is written whole", ok && i == len(w.ops) && len(w.ops) == 2*n+2*(n-1)+3*(n-1))
		return
	}
	switch k := gv.Choose(8); k {
	case 0:
		c := &chain{}
		c.Next = c
		cyc(c)
	case 1:
		l := make(recList, 1)
		l[0] = l
		cyc(&l)
	case 2:
		m := recMap{}
		m[1] = m
		cyc(&m)
	case 3:
		l := make(recPList, 1)
		l[0] = &l
		cyc(&l)
	case 4, 5, 6:
		// a reader that never ends
		gv.Note("hostile reader %d", k)
		n := 0
		s := &script{props: "C16"}
		s.extra = func(name string) (any, error) {
			if n++; n > 40_000_000 {
				gv.Ensure("C12,C16", "hostile nesting is refused", false)
			}
			switch name {
			case "FieldBegin":
				if k == 6 {
					return thriftwire.FieldHeader{Type: thriftwire.List, ID: 7}, nil
				}
				return thriftwire.FieldHeader{Type: thriftwire.Struct, ID: 1}, nil
			case "ListBegin":
				return thriftwire.ListHeader{Element: thriftwire.List, Size: 1}, nil
			case "MapBegin":
				return thriftwire.MapHeader{Key: thriftwire.I32, Value: thriftwire.Map, Size: 1}, nil
			case "SetBegin":
				return thriftwire.SetHeader{Element: thriftwire.Set, Size: 1}, nil
			case "I32":
				return int32(1), nil
			}
			return nil, nil
		}
		var into any = &chain{}
		if k == 5 {
			into = []any{&recList{}, &recMap{}, &recPList{}}[gv.Choose(3)]
		}
		gv.Ensure("C16", "hostile nesting is refused", thrift.Unmarshal(s, into) != nil)
	case 7:
		s := &script{props: "C12"}
		t := types[gv.Rand().Intn(len(types))]
		n := 0
		s.extra = func(name string) (any, error) {
			if n++; n > 40_000_000 {
				gv.Ensure("C12", "hostile nesting is refused", false)
			}
			switch name {
			case "FieldBegin":
				return thriftwire.FieldHeader{Type: thriftwire.Struct, ID: 1}, nil
			case "ListBegin":
				return thriftwire.ListHeader{Element: thriftwire.Map, Size: 1}, nil
			case "MapBegin":
				return thriftwire.MapHeader{Key: thriftwire.Set, Value: thriftwire.Map, Size: 1}, nil
			case "SetBegin":
				return thriftwire.SetHeader{Element: thriftwire.List, Size: 1}, nil
			}
			return nil, nil
		}
		err := thriftwire.Skip(s, t)
		switch t {
		case thriftwire.Struct, thriftwire.Map, thriftwire.Set, thriftwire.List:
			gv.Ensure("C12", "hostile nesting is refused", err != nil)
		}
	}
}

func cyc(v any) {
	gv.Note("cyclic %T", v)
	gv.Ensure("C16", "a cyclic value is refused", thrift.Marshal(&recorder{fail: -1}, v) != nil)
}

// HSkip compares what Skip reads with the operations that make up a value.
//
//gv:harness gomap/Skip props=C12 default=C12
//gv:concrete
func HSkip() {
	r := gv.Rand()
	g := &gen{Rand: r, s: &script{props: "C12"}, fail: -1}
	if r.Intn(3) == 0 {
		g.fail = r.Intn(1 + r.Intn(30))
	}
	t := types[r.Intn(len(types))]
	if r.Intn(20) == 0 {
		t = thriftwire.Type(r.Intn(256))
	}
	unknown := false
	want := g.skip(t, &unknown)
	gv.Note("type %d", t)
	for i, o := range g.s.ops {
		if i > 60 {
			break
		}
		gv.Note("%v", o)
	}
	err := thriftwire.Skip(g.s, t)
	gv.Ensure("C12", "one whole value is read, up to the first failure", g.s.i == len(g.s.ops))
	if want != nil {
		gv.Ensure("C12", "the reader's error is returned", errors.Is(err, want))
	} else if unknown {
		gv.Ensure("C12", "a type that does not exist is an error", err != nil)
	} else {
		gv.Ensure("C12", "no error without a failure", err == nil)
	}
}

var tagParts = []string{"1", "0", "-1", "+7", "32767", "32768", "-32768", "-32769", "007", "1_0", "0x1", "99999999999999999999", "", " 1", "1 ", "-", "--1", "٣",
	",", ",,", ",required", ",Required", ",REQUIRED", ",re_quired", ",_required", ",required_", ",requiredd", ",require", ",omitempty", ",x", ",x1", ",1x", ",é", ",é²", ",²", ",_", ",a-b", ",a b", ", required",
	",required ", ",\xff", ",a\xff", ",'x'", ",\"", "\\", ":", ",required,required", ",x,x", ",X,x", ",reQuired", ",__", ",r٣", "required", ",REQUIRED_"}

// HTags checks the declaration of fields through Marshal.
//
//gv:harness gomap/Tags props=C17 default=C17
//gv:concrete
func HTags() {
	r := gv.Rand()
	var fs []reflect.StructField
	for i, n := 0, r.Intn(4); i < n; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: scalars[r.Intn(len(scalars))]}
		if r.Intn(4) == 0 {
			f.Type = reflect.PointerTo(f.Type)
		}
		var tag string
		switch r.Intn(8) {
		case 0:
			tag = "-"
		case 1:
			tag = string(rune(r.Intn(300)))
		case 2, 3:
			tag = fmt.Sprint(int16(r.Uint32()))
			fallthrough
		default:
			for k := r.Intn(4); k > 0; k-- {
				tag += tagParts[r.Intn(len(tagParts))]
			}
			if r.Intn(3) == 0 {
				tag = fmt.Sprint(r.Intn(5)) + tag
			}
		}
		f.Tag = reflect.StructTag("thrift:\"" + strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(tag) + "\"")
		switch r.Intn(14) {
		case 0:
			f.Tag = ""
		case 1:
			f.Tag = `json:"x" ` + f.Tag
		case 2:
			f.Tag = reflect.StructTag("thrift" + tag)
		}
		if r.Intn(12) == 0 {
			f.Name, f.PkgPath = fmt.Sprintf("f%d", i), "x"
		}
		fs = append(fs, f)
		gv.Note("%s %v `%s`", f.Name, f.Type, f.Tag)
	}
	t := reflect.StructOf(fs)
	p := reflect.New(t)
	fill(r, p.Elem(), 3)
	gv.Note("value %s", dump(p.Elem()))
	w := &recorder{fail: -1}
	err := thrift.Marshal(w, p.Interface())
	want, ok := fieldsOf(t)
	if err != nil {
		gv.Note("error %v", err)
	}
	gv.Ensure("C17", "a declaration is rejected exactly if it is malformed", (err == nil) == ok)
	if !ok {
		checkErr("C17", "marshal", err, &failure{typ: t})
		var s *thrift.SemanticError
		gv.Ensure("C17", "the error tells what is wrong", errors.As(err, &s) && s.Err != nil)
		return
	}
	if sameIDs(want) {
		return
	}
	e := &emitter{fail: -1}
	e.marshal(p.Elem())
	gv.Note("operations %.1000q", w.ops)
	gv.Ensure("C17", "exactly the fields declared are written, by id", reflect.DeepEqual(w.ops, e.ops))
	// and found by id
	if len(want) > 0 {
		f := want[r.Intn(len(want))]
		q := reflect.New(t)
		g := &gen{Rand: r, s: &script{props: "C17"}, fail: -1}
		h := thriftwire.FieldHeader{ID: f.id, Type: wireOf(t.Field(f.i).Type)}
		g.op("StructBegin", thriftwire.StructHeader{})
		g.op("FieldBegin", h)
		g.unmarshal(q.Elem().Field(f.i), h.Type)
		g.op("FieldEnd", nil)
		g.op("FieldBegin", thriftwire.FieldHeader{})
		g.op("StructEnd", nil)
		z := reflect.New(t)
		gv.Ensure("C17", "a field is found by id", thrift.Unmarshal(g.s, z.Interface()) == nil && g.s.i == len(g.s.ops) && dump(z.Elem()) == dump(q.Elem()))
	}
}
