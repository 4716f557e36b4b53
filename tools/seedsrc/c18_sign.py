ID='c18-sign'
PROP='C18'
NEEDS='a float with an explicitly signed exponent'
BREAKS='the exponent sign ends the literal, so 1e-5 becomes two tokens'
EDITS=[('tools/thriftfile/scanner.go','''		if s.ch == '+' || s.ch == '-' {
			s.nextch()
		}
		for isDecimal(s.ch) {''','''		if seenPoint && (s.ch == '+' || s.ch == '-') {
			s.nextch()
		}
		for isDecimal(s.ch) {''')]
DEMO='''
package main

import (
	"go/token"
	"os"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
)

func main() {
	f, err := thriftfile.Parse(token.NewFileSet(), "f", []byte("const double d = 1e-5"))
	if err != nil || f.Defs[0].(*thriftfile.Const).Value.(*thriftfile.Float).Value != "1e-5" {
		os.Exit(1)
	}
}
'''
