ID='c12-empty-end'
PROP='C12'
NEEDS='an empty set and a reader that relies on the end call'
BREAKS='ReadSetEnd is not called for an empty set'
EDITS=[('encoding/thriftwire/skip.go','''		h, err := r.ReadSetBegin()
		if err != nil {
			return err
		}
''','''		h, err := r.ReadSetBegin()
		if err != nil || h.Size <= 0 {
			return err
		}
''')]
DEMO='''
package main

import (
	"os"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

type counting struct {
	thriftwire.Reader
	n int
}

func (c *counting) ReadSetEnd() error {
	c.n++
	return c.Reader.ReadSetEnd()
}

func main() {
	r := &counting{Reader: thriftbinary.Protocol.NewReader(strings.NewReader("\\x08\\x00\\x00\\x00\\x00"))}
	if err := thriftwire.Skip(r, thriftwire.Set); err != nil || r.n != 1 {
		os.Exit(1)
	}
}
'''
