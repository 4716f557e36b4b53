ID='c13-message-string'
PROP='C13'
NEEDS='rendering message type 5, the first unassigned code'
BREAKS='the range test is off by one, so rendering code 5 panics'
EDITS=[('encoding/thriftwire/messagetype_string.go','if i >= MessageType(len(_MessageType_index)-1) {','if i > MessageType(len(_MessageType_index)-1) {')]
DEMO='''
package main

import "github.com/itstarsun/go-thrift/encoding/thriftwire"

func main() {
	println(thriftwire.MessageType(5).String())
}
'''
