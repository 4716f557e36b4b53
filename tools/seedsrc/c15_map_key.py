ID='c15-map-key'
PROP='C15'
NEEDS='a map whose keys are structs, with a later key leaving out a field that an earlier one has'
BREAKS='the later key inherits the field of the earlier one'
EDITS=[('thrift/arshal_default.go','''			for i := 0; i < h.Size; i++ {
				k.SetZero()
				if err''','''			for i := 0; i < h.Size; i++ {
				if err''')]
DEMO='''
package main

import (
	"os"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/thrift"
)

type K struct {
	A int8 `thrift:"1"`
	B int8 `thrift:"2"`
}

func main() {
	m := map[K]int8{}
	in := "\\x0c\\x03\\x00\\x00\\x00\\x02" + "\\x03\\x00\\x01\\x05\\x00" + "\\x01" + "\\x03\\x00\\x02\\x06\\x00" + "\\x02"
	err := thrift.Unmarshal(thriftbinary.Protocol.NewReader(strings.NewReader(in)), &m)
	if err != nil || m[K{5, 0}] != 1 || m[K{0, 6}] != 2 {
		os.Exit(1)
	}
}
'''
