ID='c16-shared'
PROP='C16'
NEEDS='an error of marshalling a malformed struct that is kept while the same type is unmarshalled'
BREAKS='the two errors are one value, so the first comes to say unmarshal'
EDITS=[('thrift/arshal_default.go','''			err := *errInit // shallow copy SemanticError
			err.action = "unmarshal"
			return &err
''','''			err := errInit
			err.action = "unmarshal"
			return err
'''),('thrift/arshal_default.go','''			err := *errInit // shallow copy SemanticError
			err.action = "marshal"
			return &err
''','''			err := errInit
			err.action = "marshal"
			return err
''')]
DEMO='''
package main

import (
	"bytes"
	"os"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/thrift"
)

type S struct {
	A int32 `thrift:"x"`
}

func main() {
	e1 := thrift.Marshal(thriftbinary.Protocol.NewWriter(&bytes.Buffer{}), &S{})
	e2 := thrift.Unmarshal(thriftbinary.Protocol.NewReader(strings.NewReader("")), &S{})
	_ = e1.Error()
	if e1 == e2 || strings.Contains(e1.Error(), "unmarshal") {
		os.Exit(1)
	}
}
'''
