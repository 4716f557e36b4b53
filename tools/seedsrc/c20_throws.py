ID='c20-throws'
PROP='C20'
NEEDS='a method whose throws clause follows an argument list, with annotations between fields'
BREAKS='the throws clause is recorded only when the method has arguments'
EDITS=[('tools/thriftfile/parser.go','''	if p.got(_THROWS) {
		x.Throws = p.fields(_LPAREN, _RPAREN)
	}
''','''	if p.got(_THROWS) {
		throws := p.fields(_LPAREN, _RPAREN)
		if len(x.Arguments.List) > 0 {
			x.Throws = throws
		}
	}
''')]
NEEDS='a method without arguments that throws'
DEMO='''
package main

import (
	"go/token"
	"os"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
)

func main() {
	f, err := thriftfile.Parse(token.NewFileSet(), "f", []byte("service s { void m() throws (1: e x) }"))
	if err != nil || f.Defs[0].(*thriftfile.Service).Methods.List[0].Throws == nil {
		os.Exit(1)
	}
}
'''
