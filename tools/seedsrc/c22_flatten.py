ID='c22-flatten'
PROP='C22'
NEEDS='a protocol joined from protocols that are joined themselves'
BREAKS='joining flattens nested joins and takes the writing half of the reading protocol'
EDITS=[('encoding/thriftwire/protocol.go','''func JoinProtocol(r, w Protocol) Protocol {
''','''func JoinProtocol(r, w Protocol) Protocol {
	if j, ok := r.(joinedProtocol); ok {
		r = j.w
	}
''')]
DEMO='''
package main

import (
	"os"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

func main() {
	p := thriftwire.JoinProtocol(thriftwire.JoinProtocol(thriftbinary.Protocol, thriftcompact.Protocol), thriftcompact.Protocol)
	v, err := p.NewReader(strings.NewReader("\\x00\\x05")).ReadI16()
	if v != 5 || err != nil {
		println(v)
		os.Exit(1)
	}
}
'''
