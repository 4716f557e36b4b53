ID='c15-map-value'
PROP='C15'
NEEDS='a map of two entries whose values are structs, the second with a field absent'
BREAKS='the absent field keeps the value it had in the previous entry'
EDITS=[('thrift/arshal_default.go','''					v.Set(v2)
				} else {
					v.SetZero()
				}
''','''					v.Set(v2)
				}
''')]
DEMO='''
package main

import (
	"bytes"
	"os"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/thrift"
)

type S struct {
	A int32 `thrift:"1"`
	B int32 `thrift:"2"`
}

func main() {
	var b bytes.Buffer
	w := thriftbinary.Protocol.NewWriter(&b)
	m := map[string]S{"a": {A: 1}, "b": {B: 2}}
	if thrift.Marshal(w, &m) != nil || w.Flush() != nil {
		os.Exit(1)
	}
	var n map[string]S
	if thrift.Unmarshal(thriftbinary.Protocol.NewReader(&b), &n) != nil || len(n) != 2 || n["a"] != m["a"] || n["b"] != m["b"] {
		os.Exit(1)
	}
}
'''
