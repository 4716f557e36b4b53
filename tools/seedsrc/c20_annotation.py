ID='c20-annotation'
PROP='C20'
NEEDS='a set whose own annotations follow an element type that is a reference without annotations'
BREAKS='the annotations are recorded on the element type'
EDITS=[('tools/thriftfile/parser.go','''	x.Element = p.type_()
	p.want(_GTR)
	x.Annotations = p.annotations()
	return &x
}

func (p *parser) list_() *List {''','''	x.Element = p.type_()
	p.want(_GTR)
	ann := p.annotations()
	if ref, ok := x.Element.(*TypeRef); ok && ref.Annotations == nil {
		ref.Annotations = ann
	} else {
		x.Annotations = ann
	}
	return &x
}

func (p *parser) list_() *List {''')]
DEMO='''
package main

import (
	"go/token"
	"os"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
)

func main() {
	f, err := thriftfile.Parse(token.NewFileSet(), "f", []byte("typedef set<i32> (a = 'b') t"))
	if err != nil {
		os.Exit(1)
	}
	if f.Defs[0].(*thriftfile.Typedef).Type.(*thriftfile.Set).Annotations == nil {
		os.Exit(1)
	}
}
'''
