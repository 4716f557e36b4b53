// Package wire holds the contracts of encoding/thriftwire's low-level readers.
package wire

import (
	"bufio"
	"encoding/binary"
	"io"

	"vspec/gv"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

// ShortErr is an arbitrary error admissible when the stream ends too early.
func ShortErr(s *gv.Source) error {
	if gv.End(s) == io.EOF && gv.Bool() {
		return io.ErrUnexpectedEOF
	}
	return gv.End(s)
}

// ShortOK reports whether err is an admissible error for a stream that ends
// too early: the source's own error, where end of input may be reported as
// unexpected end of input.
func ShortOK(s *gv.Source, err error) bool {
	if err == nil {
		return false
	}
	if gv.End(s) == io.EOF {
		return gv.SameError(err, io.EOF) || gv.SameError(err, io.ErrUnexpectedEOF)
	}
	return gv.SameError(err, gv.End(s))
}

// Max is the larger of two numbers.
func Max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// CReadString is the contract of thriftwire.ReadString.
//
//gv:contract github.com/itstarsun/go-thrift/encoding/thriftwire.ReadString
func CReadString(b *bufio.Reader, n int) (string, error) {
	s := gv.SourceOf(b)
	p := gv.Pos(s, b)
	if n < 0 {
		return "", gv.Error()
	}
	if n > gv.Total(s)-p {
		gv.Lose(b)
		return gv.String(), ShortErr(s)
	}
	gv.Commit(b, p+n)
	return gv.Seg(s, p, n), nil
}

// CReadBytes is the contract of thriftwire.ReadBytes.
//
//gv:contract github.com/itstarsun/go-thrift/encoding/thriftwire.ReadBytes
func CReadBytes(b *bufio.Reader, n int, buf []byte) ([]byte, error) {
	s := gv.SourceOf(b)
	p := gv.Pos(s, b)
	if n < 0 {
		return buf, gv.Error()
	}
	if n > gv.Total(s)-p {
		gv.Lose(b)
		return append(buf, gv.Bytes()...), ShortErr(s)
	}
	gv.Commit(b, p+n)
	return append(buf, gv.Seg(s, p, n)...), nil
}

// HReadString checks thriftwire.ReadString against its contract.
//
//gv:harness wire/ReadString props=C10,C02,C04,C06,C07 default=C06,C10
//gv:real github.com/itstarsun/go-thrift/encoding/thriftwire.ReadString
func HReadString() {
	b, s := gv.ArbReader()
	n := gv.Int()
	p, d := gv.Pos(s, b), gv.Demand(s)
	if n > 0 {
		gv.AllocBound(b)
	}
	got, err := thriftwire.ReadString(b, n)
	switch {
	case n < 0:
		gv.Ensure("C02,C04,C06,C10", "a negative count is refused", err != nil)
		gv.Ensure("C10", "a negative count reads nothing", got == "" && gv.Pos(s, b) == p)
	case n <= gv.Total(s)-p:
		gv.Reach("complete")
		gv.Ensure("C02,C04,C06,C10", "no error when all bytes are there", err == nil)
		gv.Ensure("C02,C04,C10", "exactly the next n bytes", got == gv.Seg(s, p, n))
		gv.Ensure("C02,C04,C10", "exactly n bytes consumed", gv.Pos(s, b) == p+n)
		gv.Ensure("C07", "nothing beyond the string is waited for", gv.Demand(s) <= Max(d, p+n))
	default:
		gv.Reach("short")
		gv.Ensure("C06,C10", "a short stream is an error of the source", ShortOK(s, err))
		gv.Ensure("C10", "the bytes available are returned", got == gv.Seg(s, p, gv.Total(s)-p))
	}
}

// HReadBytes checks thriftwire.ReadBytes against its contract.
//
//gv:harness wire/ReadBytes props=C10,C02,C04,C06,C07 default=C06,C10
//gv:real github.com/itstarsun/go-thrift/encoding/thriftwire.ReadBytes
func HReadBytes() {
	b, s := gv.ArbReader()
	n := gv.Int()
	buf := gv.Bytes()
	old := string(buf)
	p, d := gv.Pos(s, b), gv.Demand(s)
	if n > 0 {
		gv.AllocBound(b)
	}
	got, err := thriftwire.ReadBytes(b, n, buf)
	switch {
	case n < 0:
		gv.Ensure("C02,C04,C06,C10", "a negative count is refused", err != nil)
		gv.Ensure("C10", "a negative count reads nothing", string(got) == old && gv.Pos(s, b) == p)
	case n <= gv.Total(s)-p:
		gv.Reach("complete")
		gv.Ensure("C02,C04,C06,C10", "no error when all bytes are there", err == nil)
		gv.Ensure("C02,C04,C10", "the buffer extended by exactly the next n bytes", string(got) == old+gv.Seg(s, p, n))
		gv.Ensure("C02,C04,C10", "exactly n bytes consumed", gv.Pos(s, b) == p+n)
		gv.Ensure("C07", "nothing beyond the bytes is waited for", gv.Demand(s) <= Max(d, p+n))
		gv.Ensure("C02,C04,C10", "the result does not alias the reader's buffer", gv.Owned(got))
	default:
		gv.Reach("short")
		gv.Ensure("C06,C10", "a short stream is an error of the source", ShortOK(s, err))
		gv.Ensure("C10", "the bytes available are appended", string(got) == old+gv.Seg(s, p, gv.Total(s)-p))
	}
}

// HNext checks thriftwire.Next.
//
//gv:harness wire/Next props=C06,C07,C10,C02,C04 default=C06,C10
func HNext() {
	b, s := gv.ArbReader()
	n := gv.Int()
	p, d := gv.Pos(s, b), gv.Demand(s)
	got, err := thriftwire.Next(b, n)
	switch {
	case n < 0:
		gv.Ensure("C06", "a negative count is refused", err != nil && gv.Pos(s, b) == p)
	case n > b.Size():
		gv.Ensure("C06", "a count beyond the buffer is refused", err != nil)
	case n <= gv.Total(s)-p:
		gv.Reach("complete")
		gv.Ensure("C02,C04,C06,C10", "no error when all bytes are there", err == nil)
		gv.Ensure("C02,C04,C10", "exactly the next n bytes", string(got) == gv.Seg(s, p, n))
		gv.Ensure("C02,C04,C10", "exactly n bytes consumed", gv.Pos(s, b) == p+n)
		gv.Ensure("C07", "nothing beyond the bytes is waited for", gv.Demand(s) <= Max(d, p+n))
	default:
		gv.Reach("short")
		gv.Ensure("C06", "a short stream is an error of the source", ShortOK(s, err))
	}
}

// UvarintSpec decodes the varint at position p: its value, its length, and
// whether it is well formed (1), truncated (0) or overflowing (-1).
func UvarintSpec(s *gv.Source, p int) (v uint64, n int, ok int) {
	avail := gv.Total(s) - p
	for i := 0; i < binary.MaxVarintLen64; i++ {
		if i >= avail {
			return 0, i, 0
		}
		c := gv.At(s, p+i)
		if c < 0x80 {
			if i == binary.MaxVarintLen64-1 && c > 1 {
				return 0, i + 1, -1
			}
			return v | uint64(c)<<(7*uint(i)), i + 1, 1
		}
		v |= uint64(c&0x7f) << (7 * uint(i))
	}
	return 0, binary.MaxVarintLen64, -1
}

// CUvarint stands for UvarintSpec where its definition is not needed.
//
//gv:contract vspec/wire.UvarintSpec
func CUvarint(s *gv.Source, p int) (v uint64, n int, ok int) {
	v, n, ok = gv.Fn("uv.value", s, p), int(gv.Fn("uv.len", s, p)), int(gv.Fn("uv.ok", s, p))
	avail := gv.Total(s) - p
	switch ok {
	case 1:
		gv.Assume(n >= 1)
		gv.Assume(n <= binary.MaxVarintLen64)
		gv.Assume(n <= avail)
	case 0:
		gv.Assume(n == avail)
		gv.Assume(n < binary.MaxVarintLen64)
	default:
		gv.Assume(ok == -1)
		gv.Assume(n == binary.MaxVarintLen64)
		gv.Assume(n <= avail)
	}
	return
}

// HUvarintFacts proves what CUvarint says of UvarintSpec.
//
//gv:harness wire/UvarintFacts props=C11,C04,C06
//gv:real vspec/wire.UvarintSpec
func HUvarintFacts() {
	s := gv.NewSource()
	p := gv.Size()
	gv.Assume(p <= gv.Total(s))
	_, n, ok := UvarintSpec(s, p)
	avail := gv.Total(s) - p
	switch ok {
	case 1:
		gv.Ensure("C04,C06,C11", "length of a well-formed varint", n >= 1 && n <= binary.MaxVarintLen64 && n <= avail)
	case 0:
		gv.Ensure("C04,C06,C11", "length of a truncated varint", n == avail && n < binary.MaxVarintLen64)
	default:
		gv.Ensure("C04,C06,C11", "length of an overflowing varint", ok == -1 && n == binary.MaxVarintLen64 && n <= avail)
	}
}

func readUvarint(b *bufio.Reader) (uint64, error) {
	s := gv.SourceOf(b)
	p := gv.Pos(s, b)
	v, n, ok := UvarintSpec(s, p)
	switch ok {
	case 1:
		gv.Commit(b, p+n)
		return v, nil
	case 0:
		gv.Exhaust(b)
		if n > 0 && gv.End(s) == io.EOF {
			return gv.Uint64(), io.ErrUnexpectedEOF
		}
		return gv.Uint64(), gv.End(s)
	default:
		gv.Commit(b, p+n)
		return gv.Uint64(), gv.Error()
	}
}

// CReadUvarint is the contract of thriftwire.ReadUvarint.
//
//gv:contract github.com/itstarsun/go-thrift/encoding/thriftwire.ReadUvarint
func CReadUvarint(b *bufio.Reader) (uint64, error) { return readUvarint(b) }

// CReadVarint is the contract of thriftwire.ReadVarint.
//
//gv:contract github.com/itstarsun/go-thrift/encoding/thriftwire.ReadVarint
func CReadVarint(b *bufio.Reader) (int64, error) {
	v, err := readUvarint(b)
	return ZigZag(v), err
}

// CStdUvarint is the contract of encoding/binary.ReadUvarint on a buffered reader.
//
//gv:contract encoding/binary.ReadUvarint
func CStdUvarint(r io.ByteReader) (uint64, error) { return readUvarint(r.(*bufio.Reader)) }

// CStdVarint is the contract of encoding/binary.ReadVarint on a buffered reader.
//
//gv:contract encoding/binary.ReadVarint
func CStdVarint(r io.ByteReader) (int64, error) {
	v, err := readUvarint(r.(*bufio.Reader))
	return ZigZag(v), err
}

// HStdVarint checks the contracts of the standard library's varint readers.
//
//gv:harness wire/StdVarint props=C04,C06,C07,C11
//gv:real vspec/wire.UvarintSpec
//gv:real encoding/binary.ReadUvarint
//gv:real encoding/binary.ReadVarint
func HStdVarint() {
	b, s := gv.ArbReader()
	p, d := gv.Pos(s, b), gv.Demand(s)
	want, n, ok := UvarintSpec(s, p)
	var got uint64
	var err error
	if gv.Bool() {
		got, err = binary.ReadUvarint(b)
	} else {
		var v int64
		v, err = binary.ReadVarint(b)
		got, want = uint64(v), uint64(ZigZag(want))
	}
	switch ok {
	case 1:
		gv.Ensure("C04,C06,C11", "a well-formed varint is accepted", err == nil)
		gv.Ensure("C04,C11", "value of the varint", got == want)
		gv.Ensure("C04,C11", "exactly the varint is consumed", gv.Pos(s, b) == p+n)
		gv.Ensure("C07", "nothing beyond the varint is waited for", gv.Demand(s) <= Max(d, p+n))
	case 0:
		gv.Ensure("C06,C11", "a truncated varint is an error of the source", ShortOK(s, err))
		gv.Ensure("C11", "a truncated varint is consumed", gv.Pos(s, b) == gv.Total(s))
		if gv.End(s) == io.EOF {
			gv.Ensure("C11", "end of input is unexpected after the first byte only", gv.SameError(err, io.EOF) == (n == 0))
		}
	default:
		gv.Ensure("C04,C06,C11", "an overflowing varint is an error", err != nil)
		gv.Ensure("C11", "an overflowing varint is consumed", gv.Pos(s, b) == p+n)
	}
}

// ZigZag decodes a signed varint value.
func ZigZag(u uint64) int64 { return int64(u>>1) ^ -int64(u&1) }

// HReadUvarint checks thriftwire.ReadUvarint.
//
//gv:harness wire/ReadUvarint props=C11,C04,C06,C07 default=C06,C11
//gv:real vspec/wire.UvarintSpec
//gv:real github.com/itstarsun/go-thrift/encoding/thriftwire.ReadUvarint
func HReadUvarint() {
	b, s := gv.ArbReader()
	p, d := gv.Pos(s, b), gv.Demand(s)
	want, n, ok := UvarintSpec(s, p)
	got, err := thriftwire.ReadUvarint(b)
	switch ok {
	case 1:
		gv.Reach("well formed")
		gv.Ensure("C04,C06,C11", "a well-formed varint is accepted", err == nil)
		gv.Ensure("C04,C11", "value of the varint", got == want)
		gv.Ensure("C04,C11", "exactly the varint is consumed", gv.Pos(s, b) == p+n)
		gv.Ensure("C07", "nothing beyond the varint is waited for", gv.Demand(s) <= Max(d, p+n))
	case 0:
		gv.Reach("truncated")
		gv.Ensure("C06,C11", "a truncated varint is an error of the source", ShortOK(s, err))
		gv.Ensure("C11", "the truncated varint is consumed", gv.Pos(s, b) == p+n)
		if gv.End(s) == io.EOF {
			gv.Ensure("C11", "end of input is unexpected after the first byte only", (err == io.EOF) == (n == 0))
		}
	default:
		gv.Reach("overflow")
		gv.Ensure("C04,C06,C11", "an overflowing varint is an error", err != nil)
		gv.Ensure("C11", "the overflowing varint is consumed", gv.Pos(s, b) == p+n)
	}
}

// HReadVarint checks thriftwire.ReadVarint.
//
//gv:harness wire/ReadVarint props=C11,C06,C07 default=C06,C11
//gv:real vspec/wire.UvarintSpec
//gv:real github.com/itstarsun/go-thrift/encoding/thriftwire.ReadVarint
//gv:real github.com/itstarsun/go-thrift/encoding/thriftwire.ReadUvarint
func HReadVarint() {
	b, s := gv.ArbReader()
	p, d := gv.Pos(s, b), gv.Demand(s)
	want, n, ok := UvarintSpec(s, p)
	got, err := thriftwire.ReadVarint(b)
	switch ok {
	case 1:
		gv.Reach("well formed")
		gv.Ensure("C06,C11", "a well-formed varint is accepted", err == nil)
		gv.Ensure("C11", "value of the varint", got == ZigZag(want))
		gv.Ensure("C11", "exactly the varint is consumed", gv.Pos(s, b) == p+n)
		gv.Ensure("C07", "nothing beyond the varint is waited for", gv.Demand(s) <= Max(d, p+n))
	case 0:
		gv.Reach("truncated")
		gv.Ensure("C06,C11", "a truncated varint is an error of the source", ShortOK(s, err))
		gv.Ensure("C11", "the truncated varint is consumed", gv.Pos(s, b) == p+n)
		if gv.End(s) == io.EOF {
			gv.Ensure("C11", "end of input is unexpected after the first byte only", (err == io.EOF) == (n == 0))
		}
	default:
		gv.Reach("overflow")
		gv.Ensure("C06,C11", "an overflowing varint is an error", err != nil)
		gv.Ensure("C11", "the overflowing varint is consumed", gv.Pos(s, b) == p+n)
	}
}
