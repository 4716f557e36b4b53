ID='c12-lost-error'
PROP='C12'
NEEDS='a struct that contains a field of a type that does not exist'
BREAKS='the error ends the struct but is not returned'
EDITS=[('encoding/thriftwire/skip.go','''			if err := skip(r, h.Type, depth); err != nil {
				return err
			}
			if err := r.ReadFieldEnd()''','''			if skip(r, h.Type, depth) != nil {
				break
			}
			if err := r.ReadFieldEnd()''')]
DEMO='''
package main

import (
	"os"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

func main() {
	r := thriftbinary.Protocol.NewReader(strings.NewReader("\\x63\\x00\\x01\\x00\\x00\\x00"))
	if thriftwire.Skip(r, thriftwire.Struct) == nil {
		os.Exit(1)
	}
}
'''
