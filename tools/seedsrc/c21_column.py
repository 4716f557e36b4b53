ID='c21-column'
PROP='C21'
NEEDS='two errors on one line of which the later position is found first'
BREAKS='errors of one line are ordered by message, not by column'
EDITS=[('tools/thriftfile/parser.go','''	if e.Column != f.Column {
		return e.Column < f.Column
	}
''','''	if e.Column != f.Column && e.Line == 0 {
		return e.Column < f.Column
	}
''')]
DEMO='''
package main

import (
	"go/token"
	"os"
	"strings"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
)

func main() {
	_, err := thriftfile.Parse(token.NewFileSet(), "f", []byte("x /* a"))
	if err == nil || !strings.HasPrefix(err.Error(), "f:1:1:") {
		println(err.Error())
		os.Exit(1)
	}
}
'''
