// Package gomap specifies package thrift — the mapping between Go values and
// Thrift values — and Skip against arbitrary readers and writers.
package gomap

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"strconv"

	"vspec/gv"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

var errInjected = errors.New("injected")

// ---- an arbitrary reader ----

// rop is an operation on the reader and what it returns.
type rop struct {
	name string
	res  any
	err  error
}

func (o rop) String() string {
	if o.err != nil {
		return o.name + " fails"
	}
	if s, ok := o.res.(string); ok {
		return o.name + " " + strconv.Quote(s)
	}
	return fmt.Sprintf("%s %v", o.name, o.res)
}

// script is a reader of which all operations are known in advance.
type script struct {
	props string
	ops   []rop
	i     int
	extra func(name string) (any, error) // answers beyond the script
}

func (r *script) next(name string) (any, error) {
	if r.i == len(r.ops) && r.extra != nil {
		return r.extra(name)
	}
	if r.i >= len(r.ops) {
		gv.Note("%s after the last operation", name)
	} else if r.ops[r.i].name != name {
		gv.Note("%s instead of %v (operation %d)", name, r.ops[r.i], r.i)
	}
	gv.Ensure(r.props, "nothing is read beyond the value", r.i < len(r.ops))
	o := r.ops[r.i]
	gv.Ensure(r.props, "the operations read are those that make up the value", o.name == name)
	r.i++
	return o.res, o.err
}

func get[T any](r *script, name string) (T, error) {
	v, err := r.next(name)
	x, _ := v.(T)
	return x, err
}

func (r *script) ReadMessageBegin() (thriftwire.MessageHeader, error) {
	return get[thriftwire.MessageHeader](r, "MessageBegin")
}
func (r *script) ReadStructBegin() (thriftwire.StructHeader, error) {
	return get[thriftwire.StructHeader](r, "StructBegin")
}
func (r *script) ReadFieldBegin() (thriftwire.FieldHeader, error) {
	return get[thriftwire.FieldHeader](r, "FieldBegin")
}
func (r *script) ReadMapBegin() (thriftwire.MapHeader, error) {
	return get[thriftwire.MapHeader](r, "MapBegin")
}
func (r *script) ReadSetBegin() (thriftwire.SetHeader, error) {
	return get[thriftwire.SetHeader](r, "SetBegin")
}
func (r *script) ReadListBegin() (thriftwire.ListHeader, error) {
	return get[thriftwire.ListHeader](r, "ListBegin")
}
func (r *script) end(name string) error {
	_, err := r.next(name)
	return err
}
func (r *script) ReadMessageEnd() error        { return r.end("MessageEnd") }
func (r *script) ReadStructEnd() error         { return r.end("StructEnd") }
func (r *script) ReadFieldEnd() error          { return r.end("FieldEnd") }
func (r *script) ReadMapEnd() error            { return r.end("MapEnd") }
func (r *script) ReadSetEnd() error            { return r.end("SetEnd") }
func (r *script) ReadListEnd() error           { return r.end("ListEnd") }
func (r *script) ReadBool() (bool, error)      { return get[bool](r, "Bool") }
func (r *script) ReadByte() (byte, error)      { return get[byte](r, "Byte") }
func (r *script) ReadDouble() (float64, error) { return get[float64](r, "Double") }
func (r *script) ReadI16() (int16, error)      { return get[int16](r, "I16") }
func (r *script) ReadI32() (int32, error)      { return get[int32](r, "I32") }
func (r *script) ReadI64() (int64, error)      { return get[int64](r, "I64") }
func (r *script) ReadString() (string, error)  { return get[string](r, "String") }
func (r *script) SkipString() error            { return r.end("SkipString") }
func (r *script) SkipUUID() error              { return r.end("SkipUUID") }
func (r *script) Reset(io.Reader)              { r.next("Reset") }
func (r *script) ReadBytes(b []byte) ([]byte, error) {
	s, err := get[string](r, "Bytes")
	if err != nil {
		return nil, err
	}
	return append(b, s...), nil
}
func (r *script) ReadUUID(p *[16]byte) error {
	u, err := get[[16]byte](r, "UUID")
	if err == nil {
		*p = u
	}
	return err
}

// ---- random answers ----

type gen struct {
	*rand.Rand
	s     *script
	fail  int // operation that fails, or -1
	depth int
}

var errs = []error{errInjected, io.EOF, io.ErrUnexpectedEOF}

// op adds an operation.
func (g *gen) op(name string, res any) error {
	o := rop{name: name, res: res}
	if len(g.s.ops) == g.fail || len(g.s.ops) > 3000 {
		o = rop{name: name, err: errs[g.Intn(len(errs))]}
	}
	g.s.ops = append(g.s.ops, o)
	return o.err
}

var words = []int64{0, 1, -1, 2, 127, 128, 255, 256, -128, -129, 32767, 32768, -32768, 65535, 1<<31 - 1, 1 << 31, -1 << 31, 1<<63 - 1, -1 << 63}

func (g *gen) word() int64 {
	if g.Intn(2) == 0 {
		return words[g.Intn(len(words))]
	}
	return int64(g.Uint64()) >> uint(g.Intn(64))
}

func (g *gen) double() float64 {
	switch g.Intn(4) {
	case 0:
		return []float64{0, math.Copysign(0, -1), math.Inf(1), math.NaN(), 1, 1e300, 1e-300, 0.1, math.MaxFloat32, 5e-324}[g.Intn(10)]
	case 1:
		return math.Float64frombits(g.Uint64())
	}
	return float64(float32(g.NormFloat64()))
}

func (g *gen) str() string {
	b := make([]byte, []int{0, 0, 1, 2, 3, 8, 30}[g.Intn(7)])
	for i := range b {
		b[i] = "ab\x00\xffz"[g.Intn(5)]
	}
	return string(b)
}

func (g *gen) uuid() (u [16]byte) {
	for i := range u {
		u[i] = byte(g.Intn(256))
	}
	return
}

func (g *gen) size() int {
	switch n := g.Intn(40); {
	case n < 8:
		return 0
	case n < 16:
		return 1
	case n < 28:
		return 2
	case n < 36:
		return 3
	case n < 37:
		return 9
	case n < 38:
		return -1
	case n < 39 && g.fail < 0:
		g.fail = len(g.s.ops) + 1 + g.Intn(6)
		return 1 << 40
	}
	return 5
}

var types = []thriftwire.Type{thriftwire.Bool, thriftwire.Byte, thriftwire.Double, thriftwire.I16, thriftwire.I32, thriftwire.I64,
	thriftwire.String, thriftwire.Struct, thriftwire.Map, thriftwire.Set, thriftwire.List, thriftwire.UUID}

// wtype is any wire type, rarely an unknown one.
func (g *gen) wtype() thriftwire.Type {
	if g.depth > 4 {
		return types[g.Intn(7)]
	}
	if g.Intn(60) == 0 {
		return thriftwire.Type(g.Intn(256))
	}
	return types[g.Intn(len(types))]
}

// skip specifies the operations that make up one value of type t that is
// passed over; unknown is set when there is a type that does not exist.
func (g *gen) skip(t thriftwire.Type, unknown *bool) error {
	g.depth++
	defer func() { g.depth-- }()
	elems := func(n int, ts ...thriftwire.Type) error {
		for i := 0; i < n; i++ {
			for _, t := range ts {
				if err := g.skip(t, unknown); err != nil || *unknown {
					return err
				}
			}
		}
		return nil
	}
	switch t {
	case thriftwire.Bool:
		return g.op("Bool", g.Intn(2) == 1)
	case thriftwire.Byte:
		return g.op("Byte", byte(g.word()))
	case thriftwire.Double:
		return g.op("Double", g.double())
	case thriftwire.I16:
		return g.op("I16", int16(g.word()))
	case thriftwire.I32:
		return g.op("I32", int32(g.word()))
	case thriftwire.I64:
		return g.op("I64", g.word())
	case thriftwire.String:
		return g.op("SkipString", nil)
	case thriftwire.UUID:
		return g.op("SkipUUID", nil)
	case thriftwire.Struct:
		if err := g.op("StructBegin", thriftwire.StructHeader{Name: g.str()}); err != nil {
			return err
		}
		for {
			h := thriftwire.FieldHeader{ID: int16(g.word()), Name: g.str()}
			if g.Intn(3) != 0 {
				h.Type = g.wtype()
			}
			if err := g.op("FieldBegin", h); err != nil {
				return err
			}
			if h.Type == thriftwire.Stop {
				return g.op("StructEnd", nil)
			}
			if err := g.skip(h.Type, unknown); err != nil || *unknown {
				return err
			}
			if err := g.op("FieldEnd", nil); err != nil {
				return err
			}
		}
	case thriftwire.Map:
		h := thriftwire.MapHeader{Key: g.wtype(), Value: g.wtype(), Size: g.size()}
		if err := g.op("MapBegin", h); err != nil {
			return err
		}
		if err := elems(h.Size, h.Key, h.Value); err != nil || *unknown {
			return err
		}
		return g.op("MapEnd", nil)
	case thriftwire.Set:
		h := thriftwire.SetHeader{Element: g.wtype(), Size: g.size()}
		if err := g.op("SetBegin", h); err != nil {
			return err
		}
		if err := elems(h.Size, h.Element); err != nil || *unknown {
			return err
		}
		return g.op("SetEnd", nil)
	case thriftwire.List:
		h := thriftwire.ListHeader{Element: g.wtype(), Size: g.size()}
		if err := g.op("ListBegin", h); err != nil {
			return err
		}
		if err := elems(h.Size, h.Element); err != nil || *unknown {
			return err
		}
		return g.op("ListEnd", nil)
	}
	*unknown = true
	return nil
}

// ---- a recording writer ----

// wop is an operation on the writer.
type wop string

type recorder struct {
	ops  []wop
	fail int // operation that fails, or -1
	err  error
	over bool // operations after the one that failed
}

func (w *recorder) op(f string, a ...any) error {
	if w.err != nil {
		w.over = true
		return w.err
	}
	w.ops = append(w.ops, wop(fmt.Sprintf(f, a...)))
	if len(w.ops)-1 == w.fail {
		w.err = errInjected
	}
	if len(w.ops) > 1000000 {
		w.err = errInjected
	}
	return w.err
}

func (w *recorder) WriteMessageBegin(h thriftwire.MessageHeader) error {
	return w.op("MessageBegin %v", h)
}
func (w *recorder) WriteMessageEnd() error { return w.op("MessageEnd") }
func (w *recorder) WriteStructBegin(h thriftwire.StructHeader) error {
	return w.op("StructBegin %q", h.Name)
}
func (w *recorder) WriteStructEnd() error { return w.op("StructEnd") }
func (w *recorder) WriteFieldBegin(h thriftwire.FieldHeader) error {
	return w.op("FieldBegin %q %d %d", h.Name, h.Type, h.ID)
}
func (w *recorder) WriteFieldEnd() error { return w.op("FieldEnd") }
func (w *recorder) WriteMapBegin(h thriftwire.MapHeader) error {
	return w.op("MapBegin %d %d %d", h.Key, h.Value, h.Size)
}
func (w *recorder) WriteMapEnd() error { return w.op("MapEnd") }
func (w *recorder) WriteSetBegin(h thriftwire.SetHeader) error {
	return w.op("SetBegin %d %d", h.Element, h.Size)
}
func (w *recorder) WriteSetEnd() error { return w.op("SetEnd") }
func (w *recorder) WriteListBegin(h thriftwire.ListHeader) error {
	return w.op("ListBegin %d %d", h.Element, h.Size)
}
func (w *recorder) WriteListEnd() error         { return w.op("ListEnd") }
func (w *recorder) WriteBool(v bool) error      { return w.op("Bool %v", v) }
func (w *recorder) WriteByte(v byte) error      { return w.op("Byte %d", v) }
func (w *recorder) WriteDouble(v float64) error { return w.op("Double %s", bits(v)) }
func (w *recorder) WriteI16(v int16) error      { return w.op("I16 %d", v) }
func (w *recorder) WriteI32(v int32) error      { return w.op("I32 %d", v) }
func (w *recorder) WriteI64(v int64) error      { return w.op("I64 %d", v) }
func (w *recorder) WriteString(v string) error  { return w.op("String %q", v) }
func (w *recorder) WriteBytes(v []byte) error   { return w.op("String %q", v) }
func (w *recorder) WriteUUID(v *[16]byte) error { return w.op("UUID %x", v[:]) }
func (w *recorder) Flush() error                { return w.op("Flush") }
func (w *recorder) Reset(io.Writer)             { w.op("Reset") }

// bits renders a double; a NaN may change its payload when it is converted.
func bits(v float64) string {
	if v != v {
		return "NaN"
	}
	return strconv.FormatUint(math.Float64bits(v), 16)
}
