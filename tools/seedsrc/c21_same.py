ID='c21-same'
PROP='C21'
NEEDS='two errors at one position, for example an illegal character that is also no token'
BREAKS='the second error at a position is dropped'
EDITS=[('tools/thriftfile/parser.go','''	p.errs.add(p.file.Position(pos), msg)
''','''	at := p.file.Position(pos)
	if n := len(p.errs); n > 0 && p.errs[n-1].pos == at {
		return
	}
	p.errs.add(at, msg)
''')]
DEMO='''
package main

import (
	"go/token"
	"os"
	"strings"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
)

func main() {
	_, err := thriftfile.Parse(token.NewFileSet(), "f", []byte("struct s {}\\n\\x00"))
	if err == nil || !strings.Contains(err.Error(), "more errors") {
		println(err.Error())
		os.Exit(1)
	}
}
'''
