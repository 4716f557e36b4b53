package binary

import (
	"math"

	"vspec/gv"
	"vspec/wire"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

// Dec decodes the format from a stream, independently of the code.
type Dec struct {
	S          *gv.Source
	P          int
	Short, Bad bool
}

func (d *Dec) need(n int) bool {
	if d.Short || d.Bad {
		return false
	}
	if n > gv.Total(d.S)-d.P {
		d.Short = true
		return false
	}
	d.P += n
	return true
}

// U8 is one byte.
func (d *Dec) U8() byte {
	if !d.need(1) {
		return 0
	}
	return gv.At(d.S, d.P-1)
}

// U16 is a big-endian number.
func (d *Dec) U16() uint16 {
	if !d.need(2) {
		return 0
	}
	return uint16(gv.At(d.S, d.P-2))<<8 | uint16(gv.At(d.S, d.P-1))
}

// U32 is a big-endian number.
func (d *Dec) U32() uint32 {
	if !d.need(4) {
		return 0
	}
	p := d.P - 4
	return uint32(gv.At(d.S, p))<<24 | uint32(gv.At(d.S, p+1))<<16 | uint32(gv.At(d.S, p+2))<<8 | uint32(gv.At(d.S, p+3))
}

// U64 is a big-endian number.
func (d *Dec) U64() uint64 {
	if !d.need(8) {
		return 0
	}
	p := d.P - 8
	return uint64(gv.At(d.S, p))<<56 | uint64(gv.At(d.S, p+1))<<48 | uint64(gv.At(d.S, p+2))<<40 | uint64(gv.At(d.S, p+3))<<32 |
		uint64(gv.At(d.S, p+4))<<24 | uint64(gv.At(d.S, p+5))<<16 | uint64(gv.At(d.S, p+6))<<8 | uint64(gv.At(d.S, p+7))
}

// Raw is n raw bytes.
func (d *Dec) Raw(n int) string {
	if n < 0 && !d.Short {
		d.Bad = true
	}
	if !d.need(n) {
		return ""
	}
	return gv.Seg(d.S, d.P-n, n)
}

// Str is a length-prefixed string.
func (d *Dec) Str() string {
	n := int(int32(d.U32()))
	if d.Short || d.Bad {
		return ""
	}
	return d.Raw(n)
}

// Message is a message header.
func (d *Dec) Message(strict bool) (h thriftwire.MessageHeader) {
	v := d.U32()
	if d.Short {
		return
	}
	if v&0x80000000 != 0 {
		if v&0xffff0000 != 0x80010000 {
			d.Bad = true
			return
		}
		h.Type = thriftwire.MessageType(byte(v))
		h.Name = d.Str()
		h.ID = int32(d.U32())
		return
	}
	if strict {
		d.Bad = true
		return
	}
	h.Name = d.Raw(int(int32(v)))
	h.Type = thriftwire.MessageType(d.U8())
	h.ID = int32(d.U32())
	return
}

// Read performs read operation k at the position of d and checks it; it
// reports whether the reader can go on.
func Read(r thriftwire.Reader, d *Dec, strict bool, k int, props string) bool {
	old := gv.Demand(d.S)
	var err error
	same := true
	switch k {
	case 0:
		want := d.Message(strict)
		var got thriftwire.MessageHeader
		got, err = r.ReadMessageBegin()
		same = err != nil || got == want
	case 1:
		err = r.ReadMessageEnd()
	case 2:
		var got thriftwire.StructHeader
		got, err = r.ReadStructBegin()
		same = got.Name == ""
	case 3:
		err = r.ReadStructEnd()
	case 4:
		var want thriftwire.FieldHeader
		want.Type = thriftwire.Type(d.U8())
		if want.Type != thriftwire.Stop {
			want.ID = int16(d.U16())
		}
		var got thriftwire.FieldHeader
		got, err = r.ReadFieldBegin()
		same = err != nil || got == want
	case 5:
		err = r.ReadFieldEnd()
	case 6:
		var want thriftwire.MapHeader
		want.Key = thriftwire.Type(d.U8())
		want.Value = thriftwire.Type(d.U8())
		want.Size = int(int32(d.U32()))
		var got thriftwire.MapHeader
		got, err = r.ReadMapBegin()
		same = err != nil || got == want
	case 7:
		err = r.ReadMapEnd()
	case 8:
		var want, got thriftwire.SetHeader
		want.Element = thriftwire.Type(d.U8())
		want.Size = int(int32(d.U32()))
		got, err = r.ReadSetBegin()
		same = err != nil || got == want
	case 9:
		err = r.ReadSetEnd()
	case 10:
		var want, got thriftwire.ListHeader
		want.Element = thriftwire.Type(d.U8())
		want.Size = int(int32(d.U32()))
		got, err = r.ReadListBegin()
		same = err != nil || got == want
	case 11:
		err = r.ReadListEnd()
	case 12:
		want := d.U8() != 0
		var got bool
		got, err = r.ReadBool()
		same = err != nil || got == want
	case 13:
		want := d.U8()
		var got byte
		got, err = r.ReadByte()
		same = err != nil || got == want
	case 14:
		want := d.U64()
		var got float64
		got, err = r.ReadDouble()
		same = err != nil || math.Float64bits(got) == want
	case 15:
		want := int16(d.U16())
		var got int16
		got, err = r.ReadI16()
		same = err != nil || got == want
	case 16:
		want := int32(d.U32())
		var got int32
		got, err = r.ReadI32()
		same = err != nil || got == want
	case 17:
		want := int64(d.U64())
		var got int64
		got, err = r.ReadI64()
		same = err != nil || got == want
	case 18:
		want := d.Str()
		var got string
		got, err = r.ReadString()
		same = err != nil || got == want
	case 19:
		buf := gv.Bytes()
		want := string(buf)
		want += d.Str()
		var got []byte
		got, err = r.ReadBytes(buf)
		same = err != nil || string(got) == want && gv.Owned(got)
	case 20:
		want := d.Raw(16)
		var got [16]byte
		err = r.ReadUUID(&got)
		same = err != nil || string(got[:]) == want
	case 21:
		d.Str()
		err = r.SkipString()
	case 22:
		d.Raw(16)
		err = r.SkipUUID()
	}
	switch {
	case d.Bad:
		gv.Ensure("C02,C06", "a malformed construct is rejected", err != nil)
		return false
	case d.Short:
		gv.Ensure("C02,C06", "an incomplete construct is an error", err != nil)
		gv.Ensure("C06", "the error is that of the source", wire.ShortOK(d.S, err))
		return false
	}
	gv.Ensure("C02,C06", "a complete construct is accepted", err == nil)
	gv.Ensure(props, "the value the bytes denote", same)
	gv.Ensure("C07", "nothing beyond the construct is waited for", gv.Demand(d.S) <= wire.Max(old, d.P))
	return true
}

func readHistory(r thriftwire.Reader, strict bool, s *gv.Source, props string) {
	d := &Dec{S: s}
	for gv.Loop() {
		if !Read(r, d, strict, gv.Choose(wire.NRead), props) {
			return
		}
	}
	gv.Reach("read")
}

// HReader checks every history of a new reader.
//
//gv:harness binary/Reader props=C02,C06,C07,C09 default=C06
func HReader() {
	strict := gv.Bool()
	s := gv.NewSource()
	readHistory(Protocol(strict).NewReader(s), strict, s, "C02,C06,C09")
}

// HReaderReset checks every history of a reader after Reset.
//
//gv:harness binary/ReaderReset props=C02,C06,C07,C09 default=C09
func HReaderReset() {
	strict := gv.Bool()
	r := Protocol(strict).NewReader(gv.NewSource())
	for gv.Loop() {
		wire.AnyRead(r, gv.Choose(wire.NRead))
	}
	s := gv.NewSource()
	r.Reset(s)
	readHistory(r, strict, s, "C02,C06,C09")
}

// HRoundTrip: what the writer wrote, the reader gives back.  The formats are
// stated separately for writing (Write) and reading (Dec); this lemma shows
// that the two statements agree.
//
//gv:harness binary/RoundTrip props=C02 default=C02
func HRoundTrip() {
	strict := gv.Bool()
	var enc string
	k := gv.Choose(6)
	h := thriftwire.MessageHeader{Name: gv.String(), Type: thriftwire.MessageType(gv.Byte()), ID: gv.Int32()}
	str := gv.String()
	f := thriftwire.FieldHeader{Type: thriftwire.Type(gv.Byte()), ID: gv.Int16()}
	u := gv.Uint64()
	m := thriftwire.MapHeader{Key: thriftwire.Type(gv.Byte()), Value: thriftwire.Type(gv.Byte()), Size: int(gv.Int32())}
	gv.Assume(len(h.Name) <= math.MaxInt32 && len(str) <= math.MaxInt32 && f.Type != thriftwire.Stop)
	writeStrict := strict
	switch k {
	case 0:
		if !strict {
			writeStrict = gv.Bool() // the lenient reader takes both forms
		}
		enc = Message(writeStrict, h)
	case 1:
		enc = Str(str)
	case 2:
		enc = B1(byte(f.Type)) + BE16(uint16(f.ID))
	case 3:
		enc = BE64(u)
	case 4:
		enc = B1(byte(m.Key)) + B1(byte(m.Value)) + BE32(uint32(m.Size))
	case 5:
		enc = BE32(uint32(u))
	}
	d := &Dec{S: gv.NewSourceOf(enc + gv.String())}
	ok := false
	switch k {
	case 0:
		g := d.Message(strict)
		ok = g == h
	case 1:
		ok = d.Str() == str
	case 2:
		ok = thriftwire.Type(d.U8()) == f.Type && int16(d.U16()) == f.ID
	case 3:
		ok = d.U64() == u
	case 4:
		ok = thriftwire.Type(d.U8()) == m.Key && thriftwire.Type(d.U8()) == m.Value && int(int32(d.U32())) == m.Size
	case 5:
		ok = d.U32() == uint32(u)
	}
	gv.Ensure("C02", "decoding what was encoded gives it back", ok && !d.Bad && !d.Short && d.P == len(enc))
}

var _ = thriftbinary.Protocol
