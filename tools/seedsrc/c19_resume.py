ID='c19-resume'
PROP='C19'
NEEDS='a definition that breaks off right before the keyword of the next definition'
BREAKS='recovery passes over the next definition'
EDITS=[('tools/thriftfile/parser.go','''			for p.tok != _EOF && !p.tok.isDefinition() {
				p.next()
			}
''','''			p.next()
			for p.tok != _EOF && !p.tok.isDefinition() {
				p.next()
			}
''')]
DEMO='''
package main

import (
	"go/token"
	"os"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
)

func main() {
	f, err := thriftfile.Parse(token.NewFileSet(), "f", []byte("typedef\\nstruct s {}\\n"))
	if err == nil || len(f.Defs) != 2 {
		os.Exit(1)
	}
	if _, ok := f.Defs[1].(*thriftfile.Struct); !ok {
		os.Exit(1)
	}
}
'''
