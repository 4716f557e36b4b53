ID='c17-twice'
PROP='C17'
NEEDS='a tag that says required twice'
BREAKS='the duplicate option is accepted'
EDITS=[('thrift/fields.go','''			out.required = true
		default:''','''			out.required = true
			continue
		default:''')]
DEMO='''
package main

import (
	"bytes"
	"os"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/thrift"
)

type S struct {
	A int32 `thrift:"1,required,required"`
}

func main() {
	if thrift.Marshal(thriftbinary.Protocol.NewWriter(&bytes.Buffer{}), &S{}) == nil {
		os.Exit(1)
	}
}
'''
