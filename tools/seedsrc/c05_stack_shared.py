ID='c05-stack-shared'
PROP='C05'
NEEDS='a struct six levels deep under equal field ids'
BREAKS='an enclosing id equal to the current top of the stack is not pushed again, so the levels no longer match'
EDITS=[('encoding/thriftcompact/thriftcompact.go', 'func (x *writer) WriteStructBegin(h thriftwire.StructHeader) error {\n\tx.lastFieldIDs = append(x.lastFieldIDs, x.lastFieldID)', 'func (x *writer) WriteStructBegin(h thriftwire.StructHeader) error {\n\tif n := len(x.lastFieldIDs); n > 3 && x.lastFieldIDs[n-1] == x.lastFieldID {\n\t\t// the enclosing struct starts from the same id\n\t\tx.lastFieldID = 0\n\t\treturn nil\n\t}\n\tx.lastFieldIDs = append(x.lastFieldIDs, x.lastFieldID)')]
DEMO='package main\n\nimport (\n\t"bytes"\n\t"errors"\n\t"fmt"\n\t"io"\n\t"os"\n\t"strings"\n\t"time"\n\n\t"github.com/itstarsun/go-thrift/encoding/thriftbinary"\n\t"github.com/itstarsun/go-thrift/encoding/thriftcompact"\n\t"github.com/itstarsun/go-thrift/encoding/thriftwire"\n)\n\nvar (\n\t_ = bytes.NewReader\n\t_ = errors.New\n\t_ = io.EOF\n\t_ = strings.NewReader\n\t_ = time.Second\n\t_ = thriftbinary.Protocol\n\t_ = thriftcompact.Protocol\n\t_ = thriftwire.Bool\n)\n\nfunc check(ok bool, a ...any) {\n\tif !ok {\n\t\tfmt.Println(a...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc main() {\n\tvar o bytes.Buffer\n\tx := thriftcompact.Protocol.NewWriter(&o)\n\tx.WriteStructBegin(thriftwire.StructHeader{})\n\tfor i := 0; i < 6; i++ {\n\t\tcheck(x.WriteFieldBegin(thriftwire.FieldHeader{Type: thriftwire.Struct, ID: 3}) == nil)\n\t\tx.WriteStructBegin(thriftwire.StructHeader{})\n\t}\n\tfor i := 0; i < 7; i++ {\n\t\tcheck(x.WriteStructEnd() == nil, "struct end", i)\n\t}\n\tcheck(x.Flush() == nil && bytes.Equal(o.Bytes(), []byte{0x3c, 0x3c, 0x3c, 0x3c, 0x3c, 0x3c, 0, 0, 0, 0, 0, 0, 0}), o.Bytes())\n}\n'
