ID='c14-difference'
PROP='C14'
NEEDS='two field ids more than 32767 apart'
BREAKS='the ids are compared by a difference that overflows, so the fields are written out of order'
EDITS=[('thrift/fields.go','''		return allFields[i].id < allFields[j].id
''','''		return allFields[i].id-allFields[j].id < 0
''')]
DEMO='''
package main

import (
	"bytes"
	"os"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/thrift"
)

type S struct {
	A int32 `thrift:"30000"`
	B int32 `thrift:"-30000"`
}

func main() {
	var b bytes.Buffer
	w := thriftbinary.Protocol.NewWriter(&b)
	if thrift.Marshal(w, &S{1, 2}) != nil || w.Flush() != nil || b.Bytes()[1] != 0x8a {
		os.Exit(1)
	}
}
'''
