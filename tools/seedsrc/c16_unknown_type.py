ID='c16-unknown-type'
PROP='C16'
NEEDS='an unknown field whose wire type does not exist'
BREAKS='the field is passed over without an error and reading goes on at the wrong place'
EDITS=[('thrift/arshal_default.go','''				if err := thriftwire.Skip(r, h.Type); err != nil {
					return err
				}
''','''				if err := thriftwire.Skip(r, h.Type); err != nil {
					if _, ok := err.(thriftwire.InvalidTypeError); !ok {
						return err
					}
				}
''')]
DEMO='''
package main

import (
	"os"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/thrift"
)

type S struct {
	A int32 `thrift:"1"`
}

func main() {
	var s S
	if thrift.Unmarshal(thriftbinary.Protocol.NewReader(strings.NewReader("\\x63\\x00\\x02\\x00")), &s) == nil {
		os.Exit(1)
	}
}
'''
