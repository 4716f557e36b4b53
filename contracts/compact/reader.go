package compact

import (
	"bufio"
	"math"

	"vspec/gv"
	"vspec/wire"

	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

// WireType is the wire type a compact code stands for.
func WireType(c byte) (thriftwire.Type, bool) {
	switch c {
	case 0:
		return thriftwire.Stop, true
	case 1, 2:
		return thriftwire.Bool, true
	case 3:
		return thriftwire.Byte, true
	case 4:
		return thriftwire.I16, true
	case 5:
		return thriftwire.I32, true
	case 6:
		return thriftwire.I64, true
	case 7:
		return thriftwire.Double, true
	case 8:
		return thriftwire.String, true
	case 9:
		return thriftwire.List, true
	case 10:
		return thriftwire.Set, true
	case 11:
		return thriftwire.Map, true
	case 12:
		return thriftwire.Struct, true
	case 13:
		return thriftwire.UUID, true
	}
	return thriftwire.Stop, false
}

// Dec decodes the format from a stream, independently of the code.
type Dec struct {
	S          *gv.Source
	P          int
	Short, Bad bool
	ids        []int16 // previous field ids of the enclosing structs
	last       int16
	pend       byte // a boolean field has begun: 1 if true, 2 if false
}

func (d *Dec) need(n int) bool {
	if d.Short || d.Bad {
		return false
	}
	if n > gv.Total(d.S)-d.P {
		d.Short = true
		return false
	}
	d.P += n
	return true
}

// U8 is one byte.
func (d *Dec) U8() byte {
	if !d.need(1) {
		return 0
	}
	return gv.At(d.S, d.P-1)
}

// U64 is a little-endian number.
func (d *Dec) U64() uint64 {
	if !d.need(8) {
		return 0
	}
	p := d.P - 8
	return uint64(gv.At(d.S, p)) | uint64(gv.At(d.S, p+1))<<8 | uint64(gv.At(d.S, p+2))<<16 | uint64(gv.At(d.S, p+3))<<24 |
		uint64(gv.At(d.S, p+4))<<32 | uint64(gv.At(d.S, p+5))<<40 | uint64(gv.At(d.S, p+6))<<48 | uint64(gv.At(d.S, p+7))<<56
}

// Uv is a varint.
func (d *Dec) Uv() uint64 {
	if d.Short || d.Bad {
		return 0
	}
	v, n, ok := wire.UvarintSpec(d.S, d.P)
	switch ok {
	case 1:
		d.P += n
		return v
	case 0:
		d.Short = true
	default:
		d.Bad = true
	}
	return 0
}

// Sv is a zig-zag varint.
func (d *Dec) Sv() int64 { return wire.ZigZag(d.Uv()) }

// Raw is n raw bytes.
func (d *Dec) Raw(n int) string {
	if n < 0 && !d.Short {
		d.Bad = true
	}
	if !d.need(n) {
		return ""
	}
	return gv.Seg(d.S, d.P-n, n)
}

// Str is a length-prefixed string.
func (d *Dec) Str() string {
	n := int(d.Uv())
	if d.Short || d.Bad {
		return ""
	}
	return d.Raw(n)
}

func (d *Dec) code(c byte) thriftwire.Type {
	if d.Short || d.Bad {
		return thriftwire.Stop
	}
	t, ok := WireType(c)
	if !ok {
		d.Bad = true
	}
	return t
}

// Message is a message header.
func (d *Dec) Message() (h thriftwire.MessageHeader) {
	if d.U8() != 0x82 && !d.Short {
		d.Bad = true
		return
	}
	vt := d.U8()
	if d.Short {
		return
	}
	if vt&0x1f != 1 {
		d.Bad = true
		return
	}
	h.Type = thriftwire.MessageType(vt >> 5)
	h.ID = int32(d.Uv())
	if d.Short || d.Bad {
		return
	}
	h.Name = d.Str()
	return
}

// Field is a field header; the previous id and the value of a boolean field
// are kept for what follows.
func (d *Dec) Field() (h thriftwire.FieldHeader) {
	b := d.U8()
	h.Type = d.code(b & 15)
	if d.Short || d.Bad || h.Type == thriftwire.Stop {
		return
	}
	if delta := b >> 4; delta != 0 {
		h.ID = d.last + int16(delta)
	} else {
		h.ID = int16(d.Sv())
	}
	if d.Short || d.Bad {
		return
	}
	d.last = h.ID
	if h.Type == thriftwire.Bool {
		d.pend = b & 15
	}
	return
}

// Map is a map header.
func (d *Dec) Map() (h thriftwire.MapHeader) {
	h.Size = int(d.Uv())
	if d.Short || d.Bad || h.Size == 0 {
		return
	}
	kv := d.U8()
	h.Key = d.code(kv >> 4)
	h.Value = d.code(kv & 15)
	return
}

// List is a list or set header.
func (d *Dec) List() (elem thriftwire.Type, size int) {
	b := d.U8()
	elem = d.code(b & 15)
	if d.Short || d.Bad {
		return
	}
	size = int(b >> 4)
	if size == 15 {
		size = int(d.Uv())
	}
	return
}

// allowed excludes misuse: after the header of a boolean field only its value
// may be read.
func (d *Dec) allowed(k int) bool { return d.pend == 0 || k == 12 }

// Read performs read operation k at the position of d and checks it; it
// reports whether the reader can go on.
func Read(r thriftwire.Reader, d *Dec, k int) bool {
	old := gv.Demand(d.S)
	var err error
	same := true
	switch k {
	case 0:
		want := d.Message()
		var got thriftwire.MessageHeader
		got, err = r.ReadMessageBegin()
		same = err != nil || got == want
	case 1:
		err = r.ReadMessageEnd()
	case 2:
		d.ids = append(d.ids, d.last)
		d.last = 0
		var got thriftwire.StructHeader
		got, err = r.ReadStructBegin()
		same = got.Name == ""
	case 3:
		if len(d.ids) == 0 {
			gv.Ensure("C05,C09", "an unbalanced struct end is an error", r.ReadStructEnd() != nil)
			return true
		}
		d.last = d.ids[len(d.ids)-1]
		d.ids = d.ids[:len(d.ids)-1]
		err = r.ReadStructEnd()
	case 4:
		want := d.Field()
		var got thriftwire.FieldHeader
		got, err = r.ReadFieldBegin()
		same = err != nil || got == want
	case 5:
		err = r.ReadFieldEnd()
	case 6:
		want := d.Map()
		var got thriftwire.MapHeader
		got, err = r.ReadMapBegin()
		same = err != nil || got == want
	case 7:
		err = r.ReadMapEnd()
	case 8:
		var want, got thriftwire.SetHeader
		want.Element, want.Size = d.List()
		got, err = r.ReadSetBegin()
		same = err != nil || got == want
	case 9:
		err = r.ReadSetEnd()
	case 10:
		var want, got thriftwire.ListHeader
		want.Element, want.Size = d.List()
		got, err = r.ReadListBegin()
		same = err != nil || got == want
	case 11:
		err = r.ReadListEnd()
	case 12:
		var want, got bool
		if d.pend != 0 {
			want = d.pend == 1
			d.pend = 0
		} else {
			want = d.U8() != 0
		}
		got, err = r.ReadBool()
		same = err != nil || got == want
	case 13:
		want := d.U8()
		var got byte
		got, err = r.ReadByte()
		same = err != nil || got == want
	case 14:
		want := d.U64()
		var got float64
		got, err = r.ReadDouble()
		same = err != nil || math.Float64bits(got) == want
	case 15:
		want := int16(d.Sv())
		var got int16
		got, err = r.ReadI16()
		same = err != nil || got == want
	case 16:
		want := int32(d.Sv())
		var got int32
		got, err = r.ReadI32()
		same = err != nil || got == want
	case 17:
		want := d.Sv()
		var got int64
		got, err = r.ReadI64()
		same = err != nil || got == want
	case 18:
		want := d.Str()
		var got string
		got, err = r.ReadString()
		same = err != nil || got == want
	case 19:
		buf := gv.Bytes()
		want := string(buf)
		want += d.Str()
		var got []byte
		got, err = r.ReadBytes(buf)
		same = err != nil || string(got) == want && gv.Owned(got)
	case 20:
		want := d.Raw(16)
		var got [16]byte
		err = r.ReadUUID(&got)
		same = err != nil || string(got[:]) == want
	case 21:
		d.Str()
		err = r.SkipString()
	case 22:
		d.Raw(16)
		err = r.SkipUUID()
	}
	switch {
	case d.Bad:
		gv.Ensure("C04,C06", "a malformed construct is rejected", err != nil)
		return false
	case d.Short:
		gv.Ensure("C04,C06", "an incomplete construct is an error", err != nil)
		gv.Ensure("C06", "the error is that of the source", wire.ShortOK(d.S, err))
		return false
	}
	gv.Ensure("C04,C05,C06", "a complete construct is accepted", err == nil)
	gv.Ensure("C04,C05,C06,C09", "the value the bytes denote", same)
	gv.Ensure("C07", "nothing beyond the construct is waited for", gv.Demand(d.S) <= wire.Max(old, d.P))
	return true
}

func readHistory(r thriftwire.Reader, s *gv.Source) {
	d := &Dec{S: s}
	for gv.Loop() {
		k := gv.Choose(wire.NRead)
		if d.allowed(k) && !Read(r, d, k) {
			return
		}
	}
	gv.Reach("read")
}

// HReader checks every history of a new reader.
//
//gv:harness compact/Reader props=C04,C05,C06,C07,C09 default=C06
func HReader() {
	s := gv.NewSource()
	readHistory(thriftcompact.Protocol.NewReader(s), s)
}

// HReaderReset checks every history of a reader after Reset.
//
//gv:harness compact/ReaderReset props=C04,C05,C06,C07,C09 default=C06,C09
func HReaderReset() {
	r := thriftcompact.Protocol.NewReader(gv.NewSource())
	for gv.Loop() {
		wire.AnyRead(r, gv.Choose(wire.NRead))
	}
	s := gv.NewSource()
	r.Reset(s)
	readHistory(r, s)
}

// HHeaders checks the exported header readers.
//
//gv:harness compact/Headers props=C04,C06,C07 default=C04,C06
func HHeaders() {
	b, s := gv.ArbReader()
	old := gv.Demand(s)
	d := &Dec{S: s, P: gv.Pos(s, b)}
	var err error
	same := false
	switch gv.Choose(3) {
	case 0:
		want := d.Map()
		var got thriftwire.MapHeader
		got, err = thriftcompact.ReadMapHeader(b)
		same = got == want
	case 1:
		var want, got thriftwire.SetHeader
		want.Element, want.Size = d.List()
		got, err = thriftcompact.ReadSetHeader(b)
		same = got == want
	case 2:
		var want, got thriftwire.ListHeader
		want.Element, want.Size = d.List()
		got, err = thriftcompact.ReadListHeader(b)
		same = got == want
	}
	switch {
	case d.Bad:
		gv.Ensure("C04,C06", "a malformed header is rejected", err != nil)
	case d.Short:
		gv.Ensure("C06", "an incomplete header is an error of the source", wire.ShortOK(s, err))
	default:
		gv.Reach("header")
		gv.Ensure("C04,C06", "a complete header is accepted", err == nil)
		gv.Ensure("C04,C06", "the header the bytes denote", same)
		gv.Ensure("C04", "exactly the header is consumed", gv.Pos(s, b) == d.P)
		gv.Ensure("C07", "nothing beyond the header is waited for", gv.Demand(s) <= wire.Max(old, d.P))
	}
}

var _ *bufio.Reader

// HRoundTrip: what the writer wrote, the reader gives back.  The formats are
// stated separately for writing and for reading; this lemma shows that the two
// statements agree.
//
//gv:harness compact/RoundTrip props=C04,C05 default=C04
//gv:real vspec/wire.UvarintSpec
func HRoundTrip() {
	var enc string
	k := gv.Choose(7)
	h := thriftwire.MessageHeader{Name: gv.String(), Type: thriftwire.MessageType(gv.Byte()), ID: gv.Int32()}
	str := gv.String()
	f := thriftwire.FieldHeader{Type: thriftwire.Type(gv.Byte()), ID: gv.Int16()}
	last, isTrue := gv.Int16(), gv.Bool()
	i := gv.Int64()
	u := gv.Uint64()
	m := thriftwire.MapHeader{Key: thriftwire.Type(gv.Byte()), Value: thriftwire.Type(gv.Byte()), Size: gv.Int()}
	gv.Assume(m.Size >= 0)
	ok := true
	switch k {
	case 0:
		gv.Assume(h.Type < 8)
		enc = Message(h)
	case 1:
		enc = Str(str)
	case 2:
		enc, ok = Field(f, isTrue, last)
	case 3:
		enc = Sv(i)
	case 4:
		enc, ok = Map(m)
		if m.Size == 0 {
			m.Key, m.Value = 0, 0
		}
	case 5:
		enc, ok = List(m.Key, m.Size)
	case 6:
		enc = LE64(u)
	}
	if !ok {
		return
	}
	d := &Dec{S: gv.NewSourceOf(enc + gv.String()), last: last}
	switch k {
	case 0:
		g := d.Message()
		ok = g == h
	case 1:
		ok = d.Str() == str
	case 2:
		g := d.Field()
		ok = g.Type == f.Type && g.ID == f.ID && d.last == f.ID && (f.Type != thriftwire.Bool && d.pend == 0 || f.Type == thriftwire.Bool && (d.pend == 1) == isTrue)
	case 3:
		ok = d.Sv() == i
	case 4:
		g := d.Map()
		ok = g == m
	case 5:
		e, n := d.List()
		ok = e == m.Key && n == m.Size
	case 6:
		ok = d.U64() == u
	}
	gv.Ensure("C04,C05", "decoding what was encoded gives it back", ok && !d.Bad && !d.Short && d.P == len(enc))
}
