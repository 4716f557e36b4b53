ID='c17-range'
PROP='C17'
NEEDS='a field id of 32768 or more'
BREAKS='the id is accepted as an unsigned number and wraps'
EDITS=[('thrift/fields.go','''	id64, idErr := strconv.ParseInt(tag[:i], 10, 16)
''','''	id64, idErr := strconv.ParseInt(tag[:i], 10, 17)
''')]
DEMO='''
package main

import (
	"bytes"
	"os"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/thrift"
)

type S struct {
	A int32 `thrift:"32768"`
}

func main() {
	if thrift.Marshal(thriftbinary.Protocol.NewWriter(&bytes.Buffer{}), &S{}) == nil {
		os.Exit(1)
	}
}
'''
