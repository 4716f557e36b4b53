ID='c17-lookalike'
PROP='C17'
NEEDS='a tag option that is required but for underscores'
BREAKS='the look-alike is ignored without an error'
EDITS=[('thrift/fields.go','''			normOpt := strings.ReplaceAll(strings.ToLower(opt), "_", "")
''','''			normOpt := strings.TrimRight(strings.ToLower(opt), "_")
''')]
DEMO='''
package main

import (
	"bytes"
	"os"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/thrift"
)

type S struct {
	A int32 `thrift:"1,Re_quired"`
}

func main() {
	if thrift.Marshal(thriftbinary.Protocol.NewWriter(&bytes.Buffer{}), &S{}) == nil {
		os.Exit(1)
	}
}
'''
