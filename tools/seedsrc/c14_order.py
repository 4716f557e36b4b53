ID='c14-order'
PROP='C14'
NEEDS='a struct with a negative field id'
BREAKS='fields with negative ids are written last'
EDITS=[('thrift/fields.go','''		return allFields[i].id < allFields[j].id
''','''		return uint16(allFields[i].id) < uint16(allFields[j].id)
''')]
DEMO='''
package main

import (
	"bytes"
	"os"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/thrift"
)

type S struct {
	A int32 `thrift:"1"`
	B int32 `thrift:"-2"`
}

func main() {
	var b bytes.Buffer
	w := thriftbinary.Protocol.NewWriter(&b)
	if thrift.Marshal(w, &S{1, 2}) != nil || w.Flush() != nil || b.Bytes()[1] != 0xff {
		os.Exit(1)
	}
}
'''
