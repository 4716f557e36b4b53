ID='c18-slash'
PROP='C18'
NEEDS='a block comment that begins with /*/'
BREAKS='the comment ends at the slash that follows its opening'
EDITS=[('tools/thriftfile/scanner.go','''		case '*':
			s.nextch()
			s.fullComment()
''','''		case '*':
			s.fullComment()
''')]
DEMO='''
package main

import (
	"go/token"
	"os"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
)

func main() {
	f, err := thriftfile.Parse(token.NewFileSet(), "f", []byte("/*/ a */ struct s {}"))
	if err != nil || len(f.Defs) != 1 {
		os.Exit(1)
	}
}
'''
