// Package names proves that every token and every compact type code has its
// name, and that naming never panics.
package names

import (
	"vspec/gv"

	tc "github.com/itstarsun/go-thrift/encoding/thriftcompact"
	tf "github.com/itstarsun/go-thrift/tools/thriftfile"
)

var tokens = [...]struct {
	t    tf.VerifToken
	name string
}{
	{tf.VerifILLEGAL, "ILLEGAL"},
	{tf.VerifEOF, "EOF"},
	{tf.VerifCOMMENT, "COMMENT"},
	{tf.VerifIDENT, "IDENT"},
	{tf.VerifINT, "INT"},
	{tf.VerifFLOAT, "FLOAT"},
	{tf.VerifSTRING, "STRING"},
	{tf.VerifADD, "+"},
	{tf.VerifSUB, "-"},
	{tf.VerifMUL, "*"},
	{tf.VerifQUO, "/"},
	{tf.VerifREM, "%"},
	{tf.VerifAND, "&"},
	{tf.VerifOR, "|"},
	{tf.VerifXOR, "^"},
	{tf.VerifEQL, "=="},
	{tf.VerifLSS, "<"},
	{tf.VerifGTR, ">"},
	{tf.VerifASSIGN, "="},
	{tf.VerifNOT, "!"},
	{tf.VerifLPAREN, "("},
	{tf.VerifLBRACK, "["},
	{tf.VerifLBRACE, "{"},
	{tf.VerifCOMMA, ","},
	{tf.VerifPERIOD, "."},
	{tf.VerifRPAREN, ")"},
	{tf.VerifRBRACK, "]"},
	{tf.VerifRBRACE, "}"},
	{tf.VerifSEMICOLON, ";"},
	{tf.VerifCOLON, ":"},
	{tf.VerifINCLUDE, "include"},
	{tf.VerifNAMESPACE, "namespace"},
	{tf.VerifCONST, "const"},
	{tf.VerifTYPEDEF, "typedef"},
	{tf.VerifENUM, "enum"},
	{tf.VerifSTRUCT, "struct"},
	{tf.VerifUNION, "union"},
	{tf.VerifEXCEPTION, "exception"},
	{tf.VerifSERVICE, "service"},
	{tf.VerifREQUIRED, "required"},
	{tf.VerifOPTIONAL, "optional"},
	{tf.VerifEXTENDS, "extends"},
	{tf.VerifONEWAY, "oneway"},
	{tf.VerifVOID, "void"},
	{tf.VerifTHROWS, "throws"},
	{tf.VerifMAP, "map"},
	{tf.VerifSET, "set"},
	{tf.VerifLIST, "list"},
}

var codes = [...]string{
	"STOP",
	"BOOLEAN_TRUE",
	"BOOLEAN_FALSE",
	"I8",
	"I16",
	"I32",
	"I64",
	"DOUBLE",
	"BINARY",
	"LIST",
	"SET",
	"MAP",
	"STRUCT",
	"UUID",
}

// HTokens: every token is named as it is written.
//
//gv:harness names/Tokens props=C13 default=C13
//gv:real (github.com/itstarsun/go-thrift/tools/thriftfile.token).String
func HTokens() {
	for _, x := range tokens {
		gv.Ensure("C13", "a token is rendered by its name", x.t.String() == x.name)
	}
	for i := 0; i < 256; i++ {
		gv.Ensure("C13", "every token has a name", tf.VerifToken(i).String() != "")
	}
}

// HCodes: every compact type code has its name.
//
//gv:harness names/Codes props=C13 default=C13
func HCodes() {
	for i := 0; i < 256; i++ {
		s := tc.VerifTypeName(byte(i))
		gv.Ensure("C13", "every compact type code has a name", s != "")
		if i < len(codes) {
			gv.Ensure("C13", "a compact type code is rendered by its name", s == codes[i])
		}
		gv.Ensure("C13", "an invalid compact type error names the type", tc.VerifInvalid(byte(i)).Error() == "thriftcompact: invalid type: "+s)
	}
}
