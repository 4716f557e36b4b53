package thrift

import (
	"reflect"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

// ErrsWire is an error of an operation.
func ErrsWire(action string, err error) error { return &wireError{action: action, err: err} }

// ErrsSemantic is an error of a value.
func ErrsSemantic(action string, tt thriftwire.Type, t reflect.Type, err error) *SemanticError {
	return &SemanticError{action: action, ThriftType: tt, GoType: t, Err: err}
}

// ErrsFirst is firstError.
func ErrsFirst(errs ...error) error { return firstError(errs...) }
