ID='c02-nonstrict-negative'
PROP='C02'
NEEDS='a non-strict reader meeting a versioned header whose version word has a wrong second byte'
BREAKS='the version check looks at the top byte only, so headers of other versions are accepted'
EDITS=[('encoding/thriftbinary/thriftbinary.go','''		version := int64(n) & versionMask
		if version != version1 {
''','''		version := int64(n) & versionMask
		if version != version1 && (x.strict || version>>24 != version1>>24) {
''')]
DEMO='''
package main

import (
	"os"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
)

func main() {
	r := thriftbinary.ProtocolNonStrict.NewReader(strings.NewReader("\\x80\\x02\\x00\\x01\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x07"))
	_, err := r.ReadMessageBegin()
	println(err != nil)
	if err == nil {
		os.Exit(1)
	}
}
'''
