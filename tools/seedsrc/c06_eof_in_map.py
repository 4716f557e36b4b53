ID='c06-eof-in-map'
PROP='C06'
NEEDS='a stream that ends between the size and the types of a map header'
BREAKS='the missing type byte is taken for the end of the header'
EDITS=[('encoding/thriftcompact/thriftcompact.go', '\tkv, err := b.ReadByte()\n\tif err != nil {\n\t\treturn h, err\n\t}\n\th.Key, err', '\tkv, err := b.ReadByte()\n\tif err != nil && err != io.EOF {\n\t\treturn h, err\n\t}\n\th.Key, err')]
DEMO='package main\n\nimport (\n\t"bytes"\n\t"errors"\n\t"fmt"\n\t"io"\n\t"os"\n\t"strings"\n\t"time"\n\n\t"github.com/itstarsun/go-thrift/encoding/thriftbinary"\n\t"github.com/itstarsun/go-thrift/encoding/thriftcompact"\n\t"github.com/itstarsun/go-thrift/encoding/thriftwire"\n)\n\nvar (\n\t_ = bytes.NewReader\n\t_ = errors.New\n\t_ = io.EOF\n\t_ = strings.NewReader\n\t_ = time.Second\n\t_ = thriftbinary.Protocol\n\t_ = thriftcompact.Protocol\n\t_ = thriftwire.Bool\n)\n\nfunc check(ok bool, a ...any) {\n\tif !ok {\n\t\tfmt.Println(a...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc main() {\n\tx := thriftcompact.Protocol.NewReader(strings.NewReader("\\x03"))\n\th, err := x.ReadMapBegin()\n\tcheck(err != nil, h)\n}\n'
