// Package compact holds the contracts of encoding/thriftcompact.
package compact

import (
	"io"
	"math"

	"vspec/gv"

	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

// ---- the format ----

// B1 is one byte.
func B1(b byte) string { return string([]byte{b}) }

// LE64 is the eight-byte little-endian form.
func LE64(v uint64) string {
	return string([]byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), byte(v >> 32), byte(v >> 40), byte(v >> 48), byte(v >> 56)})
}

// Uv is a varint.
func Uv(v uint64) string {
	s := ""
	for i := 0; i < 9; i++ {
		if v < 0x80 {
			break
		}
		s += B1(byte(v) | 0x80)
		v >>= 7
	}
	return s + B1(byte(v))
}

// Sv is a zig-zag varint.
func Sv(v int64) string {
	u := uint64(v) << 1
	if v < 0 {
		u = ^u
	}
	return Uv(u)
}

// Str is a length-prefixed string.
func Str(s string) string { return Uv(uint64(len(s))) + s }

// Code is the compact code of a wire type inside containers and headers.
func Code(t thriftwire.Type) (byte, bool) {
	switch t {
	case thriftwire.Bool:
		return 2, true
	case thriftwire.Byte:
		return 3, true
	case thriftwire.I16:
		return 4, true
	case thriftwire.I32:
		return 5, true
	case thriftwire.I64:
		return 6, true
	case thriftwire.Double:
		return 7, true
	case thriftwire.String:
		return 8, true
	case thriftwire.List:
		return 9, true
	case thriftwire.Set:
		return 10, true
	case thriftwire.Map:
		return 11, true
	case thriftwire.Struct:
		return 12, true
	case thriftwire.UUID:
		return 13, true
	}
	return 0, false
}

// Field is a field header; last is the previous field id of the struct.
func Field(h thriftwire.FieldHeader, isTrue bool, last int16) (string, bool) {
	c, ok := Code(h.Type)
	if !ok {
		return "", false
	}
	if h.Type == thriftwire.Bool && isTrue {
		c = 1
	}
	delta := int32(h.ID) - int32(last)
	if delta >= 1 && delta <= 15 {
		return B1(byte(delta)<<4 | c), true
	}
	return B1(c) + Sv(int64(h.ID)), true
}

// List is a list or set header.
func List(elem thriftwire.Type, size int) (string, bool) {
	c, ok := Code(elem)
	if !ok {
		return "", false
	}
	if size < 15 {
		return B1(byte(size)<<4 | c), true
	}
	return B1(0xf0|c) + Uv(uint64(size)), true
}

// Map is a map header.
func Map(h thriftwire.MapHeader) (string, bool) {
	if h.Size == 0 {
		return B1(0), true
	}
	k, ok := Code(h.Key)
	if !ok {
		return "", false
	}
	v, ok := Code(h.Value)
	if !ok {
		return "", false
	}
	return Uv(uint64(h.Size)) + B1(k<<4|v), true
}

// Message is a message header.
func Message(h thriftwire.MessageHeader) string {
	return B1(0x82) + B1(1|byte(h.Type)<<5) + Uv(uint64(uint32(h.ID))) + Str(h.Name)
}

// Enc is the state of an encoder.
type Enc struct {
	ids  []int16 // previous field ids of the enclosing structs
	last int16
	pend thriftwire.Type // Bool after the header of a boolean field, else Stop
	id   int16           // the id in that header
}

const nWrite = 23

// allowed excludes misuse: after the header of a boolean field only its value
// may follow.
func (e *Enc) allowed(k int) bool { return e.pend == thriftwire.Stop || k == 12 || k >= 21 }

// Write performs write operation k with arbitrary arguments; it returns the
// bytes the format prescribes, or refused if the operation must fail.
func Write(w thriftwire.Writer, e *Enc, k int) (want string, ok bool, err error) {
	switch k {
	case 0:
		h := thriftwire.MessageHeader{Name: gv.String(), Type: thriftwire.MessageType(gv.Byte()), ID: gv.Int32()}
		return Message(h), true, w.WriteMessageBegin(h)
	case 1:
		return "", true, w.WriteMessageEnd()
	case 2:
		e.ids = append(e.ids, e.last)
		e.last = 0
		return "", true, w.WriteStructBegin(thriftwire.StructHeader{Name: gv.String()})
	case 3:
		if len(e.ids) == 0 {
			return "", false, w.WriteStructEnd()
		}
		e.last = e.ids[len(e.ids)-1]
		e.ids = e.ids[:len(e.ids)-1]
		return B1(0), true, w.WriteStructEnd()
	case 4:
		h := thriftwire.FieldHeader{Name: gv.String(), Type: thriftwire.Type(gv.Byte()), ID: gv.Int16()}
		if h.Type == thriftwire.Bool {
			e.pend, e.id = h.Type, h.ID
			return "", true, w.WriteFieldBegin(h)
		}
		want, ok = Field(h, false, e.last)
		if ok {
			e.last = h.ID
		}
		return want, ok, w.WriteFieldBegin(h)
	case 5:
		return "", true, w.WriteFieldEnd()
	case 6:
		h := thriftwire.MapHeader{Key: thriftwire.Type(gv.Byte()), Value: thriftwire.Type(gv.Byte()), Size: gv.Int()}
		gv.Assume(h.Size >= 0)
		want, ok = Map(h)
		return want, ok, w.WriteMapBegin(h)
	case 7:
		return "", true, w.WriteMapEnd()
	case 8:
		h := thriftwire.SetHeader{Element: thriftwire.Type(gv.Byte()), Size: gv.Int()}
		gv.Assume(h.Size >= 0)
		want, ok = List(h.Element, h.Size)
		return want, ok, w.WriteSetBegin(h)
	case 9:
		return "", true, w.WriteSetEnd()
	case 10:
		h := thriftwire.ListHeader{Element: thriftwire.Type(gv.Byte()), Size: gv.Int()}
		gv.Assume(h.Size >= 0)
		want, ok = List(h.Element, h.Size)
		return want, ok, w.WriteListBegin(h)
	case 11:
		return "", true, w.WriteListEnd()
	case 12:
		v := gv.Bool()
		switch {
		case e.pend != thriftwire.Stop:
			want, _ = Field(thriftwire.FieldHeader{Type: e.pend, ID: e.id}, v, e.last)
			e.pend, e.last = thriftwire.Stop, e.id
		case v:
			want = B1(1)
		default:
			want = B1(0)
		}
		return want, true, w.WriteBool(v)
	case 13:
		v := gv.Byte()
		return B1(v), true, w.WriteByte(v)
	case 14:
		v := gv.Float64()
		return LE64(math.Float64bits(v)), true, w.WriteDouble(v)
	case 15:
		v := gv.Int16()
		return Sv(int64(v)), true, w.WriteI16(v)
	case 16:
		v := gv.Int32()
		return Sv(int64(v)), true, w.WriteI32(v)
	case 17:
		v := gv.Int64()
		return Sv(v), true, w.WriteI64(v)
	case 18:
		v := gv.String()
		return Str(v), true, w.WriteString(v)
	case 19:
		v := gv.Bytes()
		return Str(string(v)), true, w.WriteBytes(v)
	default:
		v := gv.UUID()
		return string(v[:]), true, w.WriteUUID(&v)
	}
}

// history runs an arbitrary sequence of writes on w, attached to sink, and
// checks that exactly the prescribed bytes arrive.
func history(w thriftwire.Writer, sink *gv.Sink) {
	want := ""
	e := &Enc{}
	for gv.Loop() {
		k := gv.Choose(nWrite)
		if !e.allowed(k) {
			continue
		}
		if k >= 21 {
			err := w.Flush()
			gv.Ensure("C08", "a failed write is reported by Flush", err != nil || !gv.Failed(sink))
			if err != nil {
				gv.Ensure("C08", "Flush fails only when the destination failed", gv.Failed(sink))
				return
			}
			gv.Reach("flushed")
			gv.Ensure("C03,C05,C08,C09", "the destination holds exactly the prescribed bytes after Flush", gv.Received(sink) == want)
			continue
		}
		s, ok, err := Write(w, e, k)
		want += s
		gv.Ensure("C08", "a failed write is reported", err != nil || !gv.Failed(sink))
		if !ok {
			gv.Ensure("C03,C05,C09", "an unrepresentable argument is refused", err != nil)
			if gv.Failed(sink) {
				return
			}
			continue
		}
		if err != nil {
			gv.Ensure("C08", "a write fails only when the destination failed", gv.Failed(sink))
			return
		}
	}
}

// HWriter checks every history of a new writer.
//
//gv:harness compact/Writer props=C03,C05,C08,C09 default=C03,C05,C08
func HWriter() {
	sink := gv.NewSink()
	history(thriftcompact.Protocol.NewWriter(sink), sink)
}

func anyWrite(w thriftwire.Writer, e *Enc) {
	if k := gv.Choose(nWrite); k >= 21 {
		w.Flush()
	} else {
		Write(w, e, k)
	}
}

// HWriterReset checks every history of a writer after Reset.
//
//gv:harness compact/WriterReset props=C03,C05,C08,C09 default=C09
func HWriterReset() {
	w := thriftcompact.Protocol.NewWriter(gv.NewSink())
	for gv.Loop() {
		anyWrite(w, &Enc{})
	}
	sink := gv.NewSink()
	w.Reset(sink)
	history(w, sink)
}

// HWriterFlush checks that Flush reaches the destination's own Flush.
//
//gv:harness compact/WriterFlush props=C08,C09,C22 default=C08
func HWriterFlush() {
	dst := gv.NewFlushSink()
	var w thriftwire.Writer
	if gv.Bool() {
		w = thriftcompact.Protocol.NewWriter(dst)
	} else {
		var first io.Writer = gv.NewSink()
		if gv.Bool() {
			first = gv.NewFlushSink()
		}
		w = thriftcompact.Protocol.NewWriter(first)
		if gv.Bool() {
			w.WriteString(gv.String())
		}
		w.Reset(dst)
	}
	want := ""
	var err error
	switch gv.Choose(3) {
	case 0:
	case 1:
		v := gv.String()
		want = Str(v)
		err = w.WriteString(v)
	case 2:
		v := gv.Bytes()
		want = Str(string(v))
		err = w.WriteBytes(v)
	}
	if err != nil {
		gv.Ensure("C08", "a write fails only when the destination failed", gv.Failed(&dst.Sink))
		return
	}
	for n := 1; n <= 2; n++ {
		err = w.Flush()
		if gv.Failed(&dst.Sink) {
			gv.Ensure("C08", "a failed write is reported by Flush", err != nil)
			return
		}
		gv.Ensure("C08,C09", "every Flush calls the destination's Flush once", dst.Flushes == n)
		gv.Ensure("C08", "it is called after everything was written", dst.Whole == want)
		gv.Ensure("C08", "its result is returned", err == dst.Last)
	}
}

// HAppend checks the exported header helpers.
//
//gv:harness compact/Append props=C03,C05 default=C03
func HAppend() {
	buf := gv.Bytes()
	old := string(buf)
	var got []byte
	var err error
	var want string
	ok := false
	max := 0
	switch gv.Choose(4) {
	case 0:
		h := thriftwire.FieldHeader{Name: gv.String(), Type: thriftwire.Type(gv.Byte()), ID: gv.Int16()}
		b, last := gv.Bool(), gv.Int16()
		want, ok = Field(h, b, last)
		got, err = thriftcompact.AppendFieldHeader(buf, h, b, last)
		max = thriftcompact.MaxFieldHeaderSize
	case 1:
		h := thriftwire.MapHeader{Key: thriftwire.Type(gv.Byte()), Value: thriftwire.Type(gv.Byte()), Size: gv.Int()}
		gv.Assume(h.Size >= 0)
		want, ok = Map(h)
		got, err = thriftcompact.AppendMapHeader(buf, h)
		max = thriftcompact.MaxMapHeaderSize
	case 2:
		h := thriftwire.SetHeader{Element: thriftwire.Type(gv.Byte()), Size: gv.Int()}
		gv.Assume(h.Size >= 0)
		want, ok = List(h.Element, h.Size)
		got, err = thriftcompact.AppendSetHeader(buf, h)
		max = thriftcompact.MaxSetHeaderSize
	case 3:
		h := thriftwire.ListHeader{Element: thriftwire.Type(gv.Byte()), Size: gv.Int()}
		gv.Assume(h.Size >= 0)
		want, ok = List(h.Element, h.Size)
		got, err = thriftcompact.AppendListHeader(buf, h)
		max = thriftcompact.MaxListHeaderSize
	}
	gv.Ensure("C03,C05", "refused exactly when the type has no compact encoding", (err == nil) == ok)
	if !ok {
		gv.Ensure("C03", "no header is appended for a refused type", string(got) == old)
		return
	}
	gv.Reach("appended")
	gv.Ensure("C03,C05", "exactly the prescribed header is appended", string(got) == old+want)
	gv.Ensure("C03", "the header is within its documented maximum size", len(want) <= max)
}
