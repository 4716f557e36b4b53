// Package types specifies the type codes.
package types

import (
	"bufio"
	"strconv"

	"vspec/gv"

	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

// WireName is the name and assigned number of each wire type.
func WireName(code byte) (string, bool) {
	switch code {
	case 0:
		return "Stop", true
	case 2:
		return "Bool", true
	case 3:
		return "Byte", true
	case 4:
		return "Double", true
	case 6:
		return "I16", true
	case 8:
		return "I32", true
	case 10:
		return "I64", true
	case 11:
		return "String", true
	case 12:
		return "Struct", true
	case 13:
		return "Map", true
	case 14:
		return "Set", true
	case 15:
		return "List", true
	case 16:
		return "UUID", true
	}
	return "Type(" + strconv.FormatInt(int64(code), 10) + ")", false
}

// MessageName is the name and assigned number of each message type.
func MessageName(code byte) (string, bool) {
	switch code {
	case 1:
		return "Call", true
	case 2:
		return "Reply", true
	case 3:
		return "Exception", true
	case 4:
		return "OneWay", true
	}
	return "MessageType(" + strconv.FormatInt(int64(code), 10) + ")", false
}

// CompactName is the name of each compact type code.
func CompactName(code byte) string {
	switch code {
	case 0:
		return "STOP"
	case 1:
		return "BOOLEAN_TRUE"
	case 2:
		return "BOOLEAN_FALSE"
	case 3:
		return "I8"
	case 4:
		return "I16"
	case 5:
		return "I32"
	case 6:
		return "I64"
	case 7:
		return "DOUBLE"
	case 8:
		return "BINARY"
	case 9:
		return "LIST"
	case 10:
		return "SET"
	case 11:
		return "MAP"
	case 12:
		return "STRUCT"
	case 13:
		return "UUID"
	}
	return "compactType(" + strconv.FormatInt(int64(code), 10) + ")"
}

// Compact is the compact code of a wire type (Bool as in containers).
func Compact(t byte) (byte, bool) {
	switch t {
	case 2:
		return 2, true
	case 3:
		return 3, true
	case 6:
		return 4, true
	case 8:
		return 5, true
	case 10:
		return 6, true
	case 4:
		return 7, true
	case 11:
		return 8, true
	case 15:
		return 9, true
	case 14:
		return 10, true
	case 13:
		return 11, true
	case 12:
		return 12, true
	case 16:
		return 13, true
	}
	return 0, false
}

// HNames: rendering of type codes and message types.
//
//gv:harness types/Names props=C13 default=C13
func HNames() {
	b := gv.Byte()
	if gv.Bool() {
		want, known := WireName(b)
		gv.Reach("wire types")
		gv.Ensure("C13", "a wire type is rendered by its name", thriftwire.Type(b).String() == want)
		gv.Ensure("C13", "an invalid wire type error names the type", thriftwire.InvalidTypeError(b).Error() == "thriftwire: invalid type: "+want)
		_ = known
	} else {
		want, _ := MessageName(b)
		gv.Reach("message types")
		gv.Ensure("C13", "a message type is rendered by its name", thriftwire.MessageType(b).String() == want)
		gv.Ensure("C13", "an invalid message type error names the type", thriftwire.InvalidMessageTypeError(b).Error() == "thriftwire: invalid message type: "+want)
	}
}

// HNumbers: the assigned numbers.
//
//gv:harness types/Numbers props=C13 default=C13
func HNumbers() {
	gv.Ensure("C13", "wire types have their assigned numbers",
		thriftwire.Stop == 0 && thriftwire.Bool == 2 && thriftwire.Byte == 3 && thriftwire.Double == 4 && thriftwire.I16 == 6 &&
			thriftwire.I32 == 8 && thriftwire.I64 == 10 && thriftwire.String == 11 && thriftwire.Struct == 12 && thriftwire.Map == 13 &&
			thriftwire.Set == 14 && thriftwire.List == 15 && thriftwire.UUID == 16)
	gv.Ensure("C13", "message types have their assigned numbers",
		thriftwire.Call == 1 && thriftwire.Reply == 2 && thriftwire.Exception == 3 && thriftwire.OneWay == 4)
}

// HToCompact: wire type to compact code, through the header encoders.
//
//gv:harness types/ToCompact props=C13,C03 default=C13
func HToCompact() {
	t := gv.Byte()
	code, ok := Compact(t)
	b, err := thriftcompact.AppendListHeader(nil, thriftwire.ListHeader{Element: thriftwire.Type(t), Size: 1})
	gv.Ensure("C13,C03", "exactly the types that have a compact code are accepted", (err == nil) == ok)
	if !ok {
		name, _ := WireName(t)
		gv.Ensure("C13", "the error names the wire type", err.Error() == "thriftwire: invalid type: "+name)
		return
	}
	gv.Reach("mapped")
	gv.Ensure("C13,C03", "a wire type maps to its compact code", len(b) == 1 && b[0] == 0x10|code)
	f, err := thriftcompact.AppendFieldHeader(nil, thriftwire.FieldHeader{Type: thriftwire.Type(t), ID: 1}, true, 0)
	if t == 2 {
		code = 1
	}
	gv.Ensure("C13,C03", "also in field headers, where true has a code of its own", err == nil && len(f) == 1 && f[0] == 0x10|code)
	m, err := thriftcompact.AppendMapHeader(nil, thriftwire.MapHeader{Key: thriftwire.Type(t), Value: thriftwire.Type(t), Size: 1})
	if t == 2 {
		code = 2
	}
	gv.Ensure("C13,C03", "also in map headers", err == nil && len(m) == 2 && m[1] == code<<4|code)
}

// HFromCompact: compact code to wire type and back, through the header decoders.
//
//gv:harness types/FromCompact props=C13,C04 default=C13
func HFromCompact() {
	code := gv.Byte()
	gv.Assume(code < 16)
	s := gv.NewSource()
	gv.Assume(gv.Total(s) > 0 && gv.At(s, 0) == 0x10|code)
	b := bufio.NewReader(s)
	h, err := thriftcompact.ReadListHeader(b)
	if code > 13 {
		gv.Reach("rejected")
		gv.Ensure("C13,C04", "an unassigned code is rejected", err != nil)
		gv.Ensure("C13", "the error names the compact type", err.Error() == "thriftcompact: invalid type: "+CompactName(code))
		return
	}
	gv.Reach("accepted")
	gv.Ensure("C13,C04", "an assigned code is accepted", err == nil)
	if code == 0 {
		gv.Ensure("C13,C04", "the stop code maps to the stop type", h.Element == 0)
		return
	}
	back, ok := Compact(byte(h.Element))
	if code == 1 {
		gv.Ensure("C13,C04", "both boolean codes map to the boolean type", h.Element == thriftwire.Bool)
	} else {
		gv.Ensure("C13,C04", "a code maps to the type that maps back to it", ok && back == code)
	}
}
