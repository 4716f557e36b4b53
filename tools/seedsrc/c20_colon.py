ID='c20-colon'
PROP='C20'
NEEDS='an entry of a map literal written without its colon'
BREAKS='malformed source is accepted silently'
EDITS=[('tools/thriftfile/parser.go','''	x.Key = p.value()
	p.want(_COLON)
	x.Value''','''	x.Key = p.value()
	if !p.got(_COLON) && p.tok != _STRING {
		p.want(_COLON)
	}
	x.Value''')]
DEMO='''
package main

import (
	"go/token"
	"os"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
)

func main() {
	_, err := thriftfile.Parse(token.NewFileSet(), "f", []byte("const a b = {'x' 'y'}"))
	if err == nil {
		os.Exit(1)
	}
}
'''
