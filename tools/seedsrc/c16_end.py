ID='c16-end'
PROP='C16'
NEEDS='a reader that fails at the end of a set'
BREAKS='the error names the Thrift type list'
EDITS=[('thrift/arshal_default.go','''			err := &wireError{action: readEndAction, err: err}
			return &SemanticError{action: "unmarshal", ThriftType: wireType, GoType: t, Err: err}
''','''			err := &wireError{action: readEndAction, err: err}
			return &SemanticError{action: "unmarshal", ThriftType: thriftwire.List, GoType: t, Err: err}
''')]
DEMO='''
package main

import (
	"errors"
	"os"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
)

type failing struct{ thriftwire.Reader }

func (failing) ReadSetEnd() error { return errors.New("end") }

func main() {
	var s thrift.Set[int32]
	err := thrift.Unmarshal(failing{thriftbinary.Protocol.NewReader(strings.NewReader("\\x08\\x00\\x00\\x00\\x00"))}, &s)
	var e *thrift.SemanticError
	if !errors.As(err, &e) || e.ThriftType != thriftwire.Set {
		os.Exit(1)
	}
}
'''
