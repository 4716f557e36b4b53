package idl

import (
	"fmt"
	"reflect"
	"strings"

	tf "github.com/itstarsun/go-thrift/tools/thriftfile"
)

// Dump renders a node of the syntax tree canonically.
func Dump(n any) string {
	if n == nil || reflect.ValueOf(n).IsNil() {
		return "nil"
	}
	switch n := n.(type) {
	case *tf.Include:
		return "include(" + Dump(n.Path) + ")"
	case *tf.Namespace:
		s := "*"
		if n.Scope != nil {
			s = Dump(n.Scope)
		}
		return "namespace(" + s + " " + Dump(n.Name) + ann(n.Annotations) + ")"
	case *tf.BadDef:
		return "bad"
	case *tf.Const:
		return "const(" + Dump(n.Type) + " " + Dump(n.Name) + "=" + Dump(n.Value) + ")"
	case *tf.Typedef:
		return "typedef(" + Dump(n.Type) + " " + Dump(n.Name) + ann(n.Annotations) + ")"
	case *tf.Enum:
		if n.Values == nil {
			return "enum without values"
		}
		return "enum(" + Dump(n.Name) + list(n.Values.List) + ann(n.Annotations) + ")"
	case *tf.EnumValue:
		s := Dump(n.Name)
		if n.Value != nil {
			s += "=" + Dump(n.Value)
		}
		return s + ann(n.Annotations)
	case *tf.Struct:
		if n.Fields == nil {
			return "struct without fields"
		}
		s := "struct("
		if n.Union {
			s += "union "
		}
		if n.Exception {
			s += "exception "
		}
		return s + Dump(n.Name) + list(n.Fields.List) + ann(n.Annotations) + ")"
	case *tf.Field:
		s := "field("
		if n.ID != nil {
			s += "id=" + Dump(n.ID) + " "
		}
		if n.Required {
			s += "required "
		}
		if n.Optional {
			s += "optional "
		}
		s += Dump(n.Type)
		if n.Reference {
			s += " &"
		}
		s += " " + Dump(n.Name)
		if n.Default != nil {
			s += "=" + Dump(n.Default)
		}
		return s + ann(n.Annotations) + ")"
	case *tf.Service:
		s := "service(" + Dump(n.Name)
		if n.Extends != nil {
			s += " extends " + Dump(n.Extends)
		}
		if n.Methods == nil {
			return "service without methods"
		}
		return s + list(n.Methods.List) + ann(n.Annotations) + ")"
	case *tf.Method:
		s := "method("
		if n.OneWay {
			s += "oneway "
		}
		if n.Void {
			s += "void"
		}
		if n.Return != nil {
			s += Dump(n.Return)
		}
		if n.Arguments == nil {
			return "method without arguments"
		}
		s += " " + Dump(n.Name) + list(n.Arguments.List)
		if n.Throws != nil {
			s += " throws" + list(n.Throws.List)
		}
		return s + ann(n.Annotations) + ")"
	case *tf.Map:
		return "map(" + Dump(n.Key) + "," + Dump(n.Value) + ")" + ann(n.Annotations)
	case *tf.Set:
		return "set(" + Dump(n.Element) + ")" + ann(n.Annotations)
	case *tf.List:
		return "list(" + Dump(n.Element) + ")" + ann(n.Annotations)
	case *tf.TypeRef:
		return "ref(" + Dump(n.Name) + ")" + ann(n.Annotations)
	case *tf.ValueList:
		return "values" + list(n.List)
	case *tf.KeyValuePairList:
		return "pairs" + list(n.List)
	case *tf.KeyValuePair:
		return Dump(n.Key) + ":" + Dump(n.Value)
	case *tf.Ident:
		return quote("ident", n.Name)
	case *tf.Int:
		return quote("int", n.Value)
	case *tf.Float:
		return quote("float", n.Value)
	case *tf.String:
		return quote("string", n.Value)
	case *tf.Annotation:
		s := Dump(n.Name)
		if n.Value != nil {
			s += "=" + Dump(n.Value)
		}
		return s
	}
	return fmt.Sprintf("%T", n)
}

func list[T any](l []T) string {
	var s []string
	for _, x := range l {
		s = append(s, Dump(x))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func ann(l *tf.AnnotationList) string {
	if l == nil {
		return ""
	}
	return "@" + list(l.List)
}
