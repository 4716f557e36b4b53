ID='c05-long-bool'
PROP='C05'
NEEDS='a boolean field whose header is in the long form (id jump above 15 or backwards)'
BREAKS='the value carried by a long-form header is lost and the next boolean read consumes a byte'
EDITS=[('encoding/thriftcompact/thriftcompact.go', '\t\th.ID, err = x.ReadI16()\n\t\tif err != nil {\n\t\t\treturn h, err\n\t\t}\n\t} else {', '\t\th.ID, err = x.ReadI16()\n\t\tif err != nil {\n\t\t\treturn h, err\n\t\t}\n\t\tx.lastFieldID = h.ID\n\t\treturn h, nil\n\t} else {')]
DEMO='package main\n\nimport (\n\t"bytes"\n\t"errors"\n\t"fmt"\n\t"io"\n\t"os"\n\t"strings"\n\t"time"\n\n\t"github.com/itstarsun/go-thrift/encoding/thriftbinary"\n\t"github.com/itstarsun/go-thrift/encoding/thriftcompact"\n\t"github.com/itstarsun/go-thrift/encoding/thriftwire"\n)\n\nvar (\n\t_ = bytes.NewReader\n\t_ = errors.New\n\t_ = io.EOF\n\t_ = strings.NewReader\n\t_ = time.Second\n\t_ = thriftbinary.Protocol\n\t_ = thriftcompact.Protocol\n\t_ = thriftwire.Bool\n)\n\nfunc check(ok bool, a ...any) {\n\tif !ok {\n\t\tfmt.Println(a...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc main() {\n\tx := thriftcompact.Protocol.NewReader(strings.NewReader("\\x01\\x40\\x00\\x00\\x00"))\n\tx.ReadStructBegin()\n\th, err := x.ReadFieldBegin()\n\tcheck(err == nil && h.ID == 32 && h.Type == thriftwire.Bool, h, err)\n\tv, err := x.ReadBool()\n\tcheck(v && err == nil, v, err)\n}\n'
