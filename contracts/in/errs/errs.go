// Package errs proves what the errors of Marshal and Unmarshal say.
package errs

import (
	"io"
	"reflect"
	"strings"

	"vspec/gv"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
)

// ty is an arbitrary type.
type ty struct {
	reflect.Type
	name string
}

func (t ty) String() string { return t.name }

// cause is an arbitrary error.
type cause struct{ text string }

func (c *cause) Error() string { return c.text }

// HWire verifies the errors of an operation.
//
//gv:harness errs/Wire props=C16 default=C16
//gv:symbolic
//gv:real (*github.com/itstarsun/go-thrift/thrift.wireError).Error
//gv:real (*github.com/itstarsun/go-thrift/thrift.wireError).Unwrap
func HWire() {
	c := &cause{text: gv.String()}
	action := gv.String()
	err := thrift.ErrsWire(action, c)
	gv.Ensure("C16", "the error leads to its cause", err.(interface{ Unwrap() error }).Unwrap() == error(c))
	s, ok := strings.CutSuffix(err.Error(), c.text)
	gv.Ensure("C16", "the error names its cause", ok)
	s, ok = strings.CutSuffix(s, ": ")
	gv.Ensure("C16", "the cause is told from the rest", ok)
	gv.Ensure("C16", "the error names the operation", strings.HasSuffix(s, action))
}

var names = [...]string{thriftwire.Bool: "bool", thriftwire.Byte: "byte", thriftwire.Double: "double", thriftwire.I16: "i16", thriftwire.I32: "i32", thriftwire.I64: "i64",
	thriftwire.String: "string", thriftwire.Struct: "struct", thriftwire.Map: "map", thriftwire.Set: "set", thriftwire.List: "list", thriftwire.UUID: "UUID"}

// HSemantic verifies the errors of a value.
//
//gv:harness errs/Semantic props=C16 default=C16
//gv:symbolic
//gv:real (*github.com/itstarsun/go-thrift/thrift.SemanticError).Error
//gv:real (*github.com/itstarsun/go-thrift/thrift.SemanticError).Unwrap
func HSemantic() {
	action := ""
	switch gv.Choose(3) {
	case 0:
		action = "marshal"
	case 1:
		action = "unmarshal"
	}
	var t reflect.Type
	name := gv.String()
	if gv.Bool() {
		t = ty{name: name}
	}
	var c error
	text := gv.String()
	if gv.Bool() {
		c = &cause{text: text}
	}
	tt := thriftwire.Type(gv.Byte())
	err := thrift.ErrsSemantic(action, tt, t, c)
	gv.Ensure("C16", "the error leads to its cause", err.Unwrap() == c)
	s, ok := err.Error(), true
	if c != nil {
		s, ok = strings.CutSuffix(s, text)
		gv.Ensure("C16", "the error names its cause", ok)
		s, ok = strings.CutSuffix(s, ": ")
		gv.Ensure("C16", "the cause is told from the rest", ok)
		gv.Reach("a cause")
	}
	if t != nil {
		s, ok = strings.CutSuffix(s, name)
		gv.Ensure("C16", "the error names the Go type", ok)
		gv.Reach("a Go type")
	}
	gv.Ensure("C16", "the error tells where it is from", strings.HasPrefix(s, "thrift: "))
	if action != "" {
		gv.Ensure("C16", "the error tells what was being done", strings.Contains(s+" ", " "+action+" "))
	}
	for i, n := range names {
		if tt == thriftwire.Type(i) && n != "" {
			gv.Ensure("C16", "the error names the Thrift type", strings.Contains(s+" ", " Thrift "+n+" "))
			gv.Reach("a Thrift type")
		}
	}
}

// HFirst verifies firstError.
//
//gv:harness errs/First props=C16,C17 default=C16
//gv:symbolic
//gv:real github.com/itstarsun/go-thrift/thrift.firstError
func HFirst() {
	var a, b error
	if gv.Bool() {
		a = &cause{}
	}
	if gv.Bool() {
		b = &cause{}
	}
	err := thrift.ErrsFirst(a, b)
	if a != nil {
		gv.Ensure("", "the first error is reported", err == a)
	} else {
		gv.Ensure("", "no error is dropped", err == b)
	}
}

// digits is the text of the number that was formatted last, counted.
var (
	digits  string
	counted int
)

//gv:contract strconv.Itoa
func Itoa(n int) string {
	counted = n
	return digits
}

// Sprintf is the text of arguments.
//
//gv:contract fmt.Sprintf
func Sprintf(format string, args ...any) string {
	s, k := "", 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			s += format[i : i+1]
			continue
		}
		i++
		if i < len(format) && format[i] == '%' {
			s += "%"
			continue
		}
		gv.Ensure("", "a verb is a plain one", i < len(format) && (format[i] == 's' || format[i] == 'v' || format[i] == 'd'))
		gv.Ensure("", "there is an argument for every verb", k < len(args))
		switch a := args[k].(type) {
		case string:
			s += a
		case error:
			s += a.Error()
		case interface{ String() string }:
			s += a.String()
		case int:
			counted, s = a, s+digits
		}
		k++
	}
	gv.Ensure("", "every argument is formatted", k == len(args))
	return s
}

//gv:contract fmt.Sprint
func Sprint(args ...any) string {
	gv.Ensure("", "one argument", len(args) == 1)
	return Sprintf("%v", args[0])
}

//gv:contract fmt.Fprintf
func Fprintf(w io.Writer, format string, args ...any) (int, error) {
	return w.(io.StringWriter).WriteString(Sprintf(format, args...))
}
