ID='c14-zero-test'
PROP='C14'
NEEDS='a field of a type with an IsZero method that denies the Go zero value'
BREAKS='the field is omitted although its own zero test says it is not zero'
EDITS=[('thrift/arshal_default.go','''((f.isZero == nil && v.IsZero()) || (f.isZero != nil && f.isZero(v)))''','''(v.IsZero() || (f.isZero != nil && f.isZero(v)))''')]
DEMO='''
package main

import (
	"bytes"
	"os"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/thrift"
)

type Opt int32

func (o Opt) IsZero() bool { return o == -1 }

type S struct {
	O Opt `thrift:"1"`
}

func main() {
	var b bytes.Buffer
	w := thriftbinary.Protocol.NewWriter(&b)
	if thrift.Marshal(w, &S{}) != nil || w.Flush() != nil || b.Len() != 8 {
		println(b.Len())
		os.Exit(1)
	}
}
'''
