ID='c13-code-masked'
PROP='C13'
NEEDS='a wire type code outside the assigned range that is congruent to an assigned one'
BREAKS='the upper bits of a wire type are ignored when its compact code is looked up'
EDITS=[('encoding/thriftcompact/types.go','''func typeCompact(t thriftwire.Type) (compactType, error) {
	switch t {''','''func typeCompact(t thriftwire.Type) (compactType, error) {
	switch t & 0x7f {''')]
DEMO='''
package main

import (
	"os"

	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

func main() {
	if _, err := thriftcompact.AppendListHeader(nil, thriftwire.ListHeader{Element: 0x88, Size: 1}); err == nil {
		os.Exit(1)
	}
}
'''
