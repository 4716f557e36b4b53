ID='c11-varint-window'
PROP='C11'
NEEDS='a signed varint of nine or ten bytes that is completely buffered and whose tenth byte overflows'
BREAKS='the fast path decodes with its own loop and does not reject an overflowing tenth byte'
EDITS=[('encoding/thriftwire/varint.go','''		if x, n := binary.Varint(buf); n > 0 {
			_, err := b.Discard(n)
			return x, err
		}
''','''		var ux uint64
		for i, c := range buf {
			ux |= uint64(c&0x7f) << (7 * uint(i))
			if c < 0x80 {
				x := int64(ux >> 1)
				if ux&1 != 0 {
					x = ^x
				}
				_, err := b.Discard(i + 1)
				return x, err
			}
		}
''')]
DEMO='''
package main

import (
	"bufio"
	"os"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

func main() {
	b := bufio.NewReader(strings.NewReader(strings.Repeat("\\xff", 9) + "\\x02"))
	b.Peek(10)
	x, err := thriftwire.ReadVarint(b)
	println(x, err != nil)
	if err == nil {
		os.Exit(1)
	}
}
'''
