ID='c10-readbytes-alias'
PROP='C10'
NEEDS='ReadBytes into an empty buffer, whose result is kept while the reader reads on'
BREAKS='ReadBytes hands out the reader\'s internal buffer when the caller passed none, so later reads change the returned bytes'
EDITS=[('encoding/thriftwire/bufio.go','''		c, err := Next(b, n)
		return append(buf, c...), err
''','''		c, err := Next(b, n)
		if cap(buf) == 0 {
			return c[:len(c):len(c)], err
		}
		return append(buf, c...), err
''')]
DEMO='''
package main

import (
	"bufio"
	"os"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

func main() {
	b := bufio.NewReaderSize(strings.NewReader(strings.Repeat("a", 16)+strings.Repeat("b", 16)), 16)
	x, err := thriftwire.ReadBytes(b, 16, nil)
	if err != nil {
		os.Exit(2)
	}
	if _, err := thriftwire.ReadBytes(b, 16, nil); err != nil {
		os.Exit(2)
	}
	println(string(x))
	if string(x) != strings.Repeat("a", 16) {
		os.Exit(1)
	}
}
'''
