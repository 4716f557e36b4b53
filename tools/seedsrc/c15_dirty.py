ID='c15-dirty'
PROP='C15'
NEEDS='a slice of length zero whose capacity holds old elements, and struct elements of which a field is absent'
BREAKS='old field values show through in the new elements'
EDITS=[('thrift/arshal_default.go','''			mustZero := true // we do not know the cleanliness of unused capacity
''','''			mustZero := va.Len() > 0 // nothing to clean in an empty slice
''')]
DEMO='''
package main

import (
	"bytes"
	"os"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/thrift"
)

type S struct {
	A int32 `thrift:"1"`
	B int32 `thrift:"2"`
}

func main() {
	var b bytes.Buffer
	w := thriftbinary.Protocol.NewWriter(&b)
	if thrift.Marshal(w, &[]S{{A: 1}}) != nil || w.Flush() != nil {
		os.Exit(1)
	}
	l := []S{{5, 6}}[:0]
	if thrift.Unmarshal(thriftbinary.Protocol.NewReader(&b), &l) != nil || len(l) != 1 || l[0] != (S{A: 1}) {
		os.Exit(1)
	}
}
'''
