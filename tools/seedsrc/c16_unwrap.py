ID='c16-unwrap'
PROP='C16'
NEEDS='an error whose Thrift type is not known, with a cause'
BREAKS='the cause of such an error is not reachable with errors.Is'
EDITS=[('thrift/errors.go','''func (e *SemanticError) Unwrap() error {
	return e.Err
''','''func (e *SemanticError) Unwrap() error {
	if e.ThriftType == 0 {
		return nil
	}
	return e.Err
''')]
DEMO='''
package main

import (
	"errors"
	"io"
	"os"

	"github.com/itstarsun/go-thrift/thrift"
)

func main() {
	if !errors.Is(&thrift.SemanticError{Err: io.ErrUnexpectedEOF}, io.ErrUnexpectedEOF) {
		os.Exit(1)
	}
}
'''
