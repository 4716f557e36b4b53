// Package binary holds the contracts of encoding/thriftbinary.
package binary

import (
	"io"
	"math"

	"vspec/gv"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

// ---- the format ----

// B1 is one byte.
func B1(b byte) string { return string([]byte{b}) }

// BE16 is the two-byte big-endian form.
func BE16(v uint16) string { return string([]byte{byte(v >> 8), byte(v)}) }

// BE32 is the four-byte big-endian form.
func BE32(v uint32) string {
	return string([]byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
}

// BE64 is the eight-byte big-endian form.
func BE64(v uint64) string {
	return string([]byte{byte(v >> 56), byte(v >> 48), byte(v >> 40), byte(v >> 32), byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
}

// Str is a length-prefixed string.
func Str(s string) string { return BE32(uint32(len(s))) + s }

// Message is a message header.
func Message(strict bool, h thriftwire.MessageHeader) string {
	if strict {
		return BE32(0x80010000|uint32(h.Type)) + Str(h.Name) + BE32(uint32(h.ID))
	}
	return Str(h.Name) + B1(byte(h.Type)) + BE32(uint32(h.ID))
}

// Protocol is the protocol under test.
func Protocol(strict bool) thriftwire.Protocol {
	if strict {
		return thriftbinary.Protocol
	}
	return thriftbinary.ProtocolNonStrict
}

const nWrite = 23

// Write performs write operation k with arbitrary arguments; it returns the
// bytes the format prescribes.
func Write(w thriftwire.Writer, strict bool, k int) (want string, err error) {
	switch k {
	case 0:
		h := thriftwire.MessageHeader{Name: gv.String(), Type: thriftwire.MessageType(gv.Byte()), ID: gv.Int32()}
		return Message(strict, h), w.WriteMessageBegin(h)
	case 1:
		return "", w.WriteMessageEnd()
	case 2:
		return "", w.WriteStructBegin(thriftwire.StructHeader{Name: gv.String()})
	case 3:
		return B1(0), w.WriteStructEnd()
	case 4:
		h := thriftwire.FieldHeader{Name: gv.String(), Type: thriftwire.Type(gv.Byte()), ID: gv.Int16()}
		return B1(byte(h.Type)) + BE16(uint16(h.ID)), w.WriteFieldBegin(h)
	case 5:
		return "", w.WriteFieldEnd()
	case 6:
		h := thriftwire.MapHeader{Key: thriftwire.Type(gv.Byte()), Value: thriftwire.Type(gv.Byte()), Size: int(gv.Int32())}
		return B1(byte(h.Key)) + B1(byte(h.Value)) + BE32(uint32(h.Size)), w.WriteMapBegin(h)
	case 7:
		return "", w.WriteMapEnd()
	case 8:
		h := thriftwire.SetHeader{Element: thriftwire.Type(gv.Byte()), Size: int(gv.Int32())}
		return B1(byte(h.Element)) + BE32(uint32(h.Size)), w.WriteSetBegin(h)
	case 9:
		return "", w.WriteSetEnd()
	case 10:
		h := thriftwire.ListHeader{Element: thriftwire.Type(gv.Byte()), Size: int(gv.Int32())}
		return B1(byte(h.Element)) + BE32(uint32(h.Size)), w.WriteListBegin(h)
	case 11:
		return "", w.WriteListEnd()
	case 12:
		v := gv.Bool()
		if v {
			return B1(1), w.WriteBool(v)
		}
		return B1(0), w.WriteBool(v)
	case 13:
		v := gv.Byte()
		return B1(v), w.WriteByte(v)
	case 14:
		v := gv.Float64()
		return BE64(math.Float64bits(v)), w.WriteDouble(v)
	case 15:
		v := gv.Int16()
		return BE16(uint16(v)), w.WriteI16(v)
	case 16:
		v := gv.Int32()
		return BE32(uint32(v)), w.WriteI32(v)
	case 17:
		v := gv.Int64()
		return BE64(uint64(v)), w.WriteI64(v)
	case 18:
		v := gv.String()
		return Str(v), w.WriteString(v)
	case 19:
		v := gv.Bytes()
		return Str(string(v)), w.WriteBytes(v)
	default:
		v := gv.UUID()
		return string(v[:]), w.WriteUUID(&v)
	}
}

// history runs an arbitrary sequence of writes on w, attached to sink, and
// checks that exactly the prescribed bytes arrive.
func history(w thriftwire.Writer, strict bool, sink *gv.Sink, bytesProps string) {
	want := ""
	for gv.Loop() {
		k := gv.Choose(nWrite)
		if k >= 21 {
			err := w.Flush()
			gv.Ensure("C08", "a failed write is reported by Flush", err != nil || !gv.Failed(sink))
			if err != nil {
				gv.Ensure("C08", "Flush fails only when the destination failed", gv.Failed(sink))
				return
			}
			gv.Reach("flushed")
			gv.Ensure(bytesProps, "the destination holds exactly the prescribed bytes after Flush", gv.Received(sink) == want)
			continue
		}
		s, err := Write(w, strict, k)
		want += s
		gv.Ensure("C08", "a failed write is reported", err != nil || !gv.Failed(sink))
		if err != nil {
			gv.Ensure("C08", "a write fails only when the destination failed", gv.Failed(sink))
			return
		}
	}
}

// HWriter checks every history of a new writer.
//
//gv:harness binary/Writer props=C01,C08,C09 default=C08
func HWriter() {
	strict := gv.Bool()
	sink := gv.NewSink()
	history(Protocol(strict).NewWriter(sink), strict, sink, "C01,C08,C09")
}

// HWriterReset checks every history of a writer after Reset.
//
//gv:harness binary/WriterReset props=C01,C08,C09 default=C09
func HWriterReset() {
	strict := gv.Bool()
	w := Protocol(strict).NewWriter(gv.NewSink())
	for gv.Loop() {
		if k := gv.Choose(nWrite); k >= 21 {
			w.Flush()
		} else {
			Write(w, strict, k)
		}
	}
	sink := gv.NewSink()
	w.Reset(sink)
	history(w, strict, sink, "C01,C08,C09")
}

// HWriterFlush checks that Flush reaches the destination's own Flush.
//
//gv:harness binary/WriterFlush props=C08,C09,C22 default=C08
func HWriterFlush() {
	strict := gv.Bool()
	dst := gv.NewFlushSink()
	var w thriftwire.Writer
	if gv.Bool() {
		w = Protocol(strict).NewWriter(dst)
	} else {
		var first io.Writer = gv.NewSink()
		if gv.Bool() {
			first = gv.NewFlushSink()
		}
		w = Protocol(strict).NewWriter(first)
		if gv.Bool() {
			w.WriteString(gv.String())
		}
		w.Reset(dst)
	}
	want := ""
	var err error
	switch gv.Choose(3) {
	case 0:
	case 1:
		v := gv.String()
		want = Str(v)
		err = w.WriteString(v)
	case 2:
		v := gv.Bytes()
		want = Str(string(v))
		err = w.WriteBytes(v)
	}
	if err != nil {
		gv.Ensure("C08", "a write fails only when the destination failed", gv.Failed(&dst.Sink))
		return
	}
	for n := 1; n <= 2; n++ {
		err = w.Flush()
		if gv.Failed(&dst.Sink) {
			gv.Ensure("C08", "a failed write is reported by Flush", err != nil)
			return
		}
		gv.Ensure("C08,C09", "every Flush calls the destination's Flush once", dst.Flushes == n)
		gv.Ensure("C08", "it is called after everything was written", dst.Whole == want)
		gv.Ensure("C08", "its result is returned", err == dst.Last)
	}
}
