ID='c14-isnil'
PROP='C14'
NEEDS='a field whose type says itself what is zero and is a slice, holding an empty value that is not nil'
BREAKS='IsZero is not asked when the Go value is not the zero value of its type'
EDITS=[('thrift/arshal_default.go','''((f.isZero == nil && v.IsZero()) || (f.isZero != nil && f.isZero(v))) {''','''((f.isZero == nil && v.IsZero()) || (f.isZero != nil && v.IsZero() && f.isZero(v))) {''')]
DEMO='''
package main

import (
	"bytes"
	"os"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/thrift"
)

type L []int32

func (l L) IsZero() bool { return len(l) == 0 }

type S struct {
	A L `thrift:"1"`
}

func main() {
	var b bytes.Buffer
	w := thriftbinary.Protocol.NewWriter(&b)
	if thrift.Marshal(w, &S{L{}}) != nil || w.Flush() != nil || b.Len() != 1 {
		os.Exit(1)
	}
}
'''
