ID='c18-escape'
PROP='C18'
NEEDS='a string in one kind of quote that escapes the other kind'
BREAKS='the bad escape is accepted'
EDITS=[('tools/thriftfile/scanner.go','''	case quote, '\\\\', 'n', 'r', 't':
''','''	case '"', '\\'', '\\\\', 'n', 'r', 't':
''')]
DEMO='''
package main

import (
	"go/token"
	"os"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
)

func main() {
	_, err := thriftfile.Parse(token.NewFileSet(), "f", []byte("const string s = 'a\\\\\\"b'"))
	if err == nil {
		os.Exit(1)
	}
}
'''
