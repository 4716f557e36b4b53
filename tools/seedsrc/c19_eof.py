ID='c19-eof'
PROP='C19'
NEEDS='a file that ends inside an annotation list'
BREAKS='parsing never ends'
EDITS=[('tools/thriftfile/parser.go','''	p.list(_LPAREN, _RPAREN, func() {
		x.List = append(x.List, p.annotation())
	})
''','''	p.want(_LPAREN)
	for !p.got(_RPAREN) {
		x.List = append(x.List, p.annotation())
		p.separator()
	}
''')]
DEMO='''
package main

import (
	"go/token"
	"os"
	"time"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
)

func main() {
	time.AfterFunc(2*time.Second, func() { os.Exit(1) })
	thriftfile.Parse(token.NewFileSet(), "f", []byte("struct s {} (a = 'b'"))
}
'''
