package wire

import (
	"vspec/gv"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

// NRead is the number of read operations, plus one that does nothing.
const NRead = 24

// AnyRead performs read operation k, ignoring what comes of it.
func AnyRead(r thriftwire.Reader, k int) {
	switch k {
	case 0:
		r.ReadMessageBegin()
	case 1:
		r.ReadMessageEnd()
	case 2:
		r.ReadStructBegin()
	case 3:
		r.ReadStructEnd()
	case 4:
		r.ReadFieldBegin()
	case 5:
		r.ReadFieldEnd()
	case 6:
		r.ReadMapBegin()
	case 7:
		r.ReadMapEnd()
	case 8:
		r.ReadSetBegin()
	case 9:
		r.ReadSetEnd()
	case 10:
		r.ReadListBegin()
	case 11:
		r.ReadListEnd()
	case 12:
		r.ReadBool()
	case 13:
		r.ReadByte()
	case 14:
		r.ReadDouble()
	case 15:
		r.ReadI16()
	case 16:
		r.ReadI32()
	case 17:
		r.ReadI64()
	case 18:
		r.ReadString()
	case 19:
		r.ReadBytes(gv.Bytes())
	case 20:
		var u [16]byte
		r.ReadUUID(&u)
	case 21:
		r.SkipString()
	case 22:
		r.SkipUUID()
	}
}
