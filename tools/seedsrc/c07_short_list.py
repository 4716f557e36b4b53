ID='c07-short-list'
PROP='C07'
NEEDS='a list header in its short form as the last byte sent'
BREAKS='two bytes are demanded for every list header'
EDITS=[('encoding/thriftcompact/thriftcompact.go', '\tst, err := b.ReadByte()\n\tif err != nil {\n\t\treturn h, err\n\t}\n\th.Element', '\tb.Peek(2)\n\tst, err := b.ReadByte()\n\tif err != nil {\n\t\treturn h, err\n\t}\n\th.Element')]
DEMO='package main\n\nimport (\n\t"bytes"\n\t"errors"\n\t"fmt"\n\t"io"\n\t"os"\n\t"strings"\n\t"time"\n\n\t"github.com/itstarsun/go-thrift/encoding/thriftbinary"\n\t"github.com/itstarsun/go-thrift/encoding/thriftcompact"\n\t"github.com/itstarsun/go-thrift/encoding/thriftwire"\n)\n\nvar (\n\t_ = bytes.NewReader\n\t_ = errors.New\n\t_ = io.EOF\n\t_ = strings.NewReader\n\t_ = time.Second\n\t_ = thriftbinary.Protocol\n\t_ = thriftcompact.Protocol\n\t_ = thriftwire.Bool\n)\n\nfunc check(ok bool, a ...any) {\n\tif !ok {\n\t\tfmt.Println(a...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc main() {\n\tr, w := io.Pipe()\n\tgo w.Write([]byte{0x05})\n\tx := thriftcompact.Protocol.NewReader(r)\n\tdone := make(chan error, 1)\n\tgo func() { _, err := x.ReadListBegin(); done <- err }()\n\tselect {\n\tcase err := <-done:\n\t\tcheck(err == nil, err)\n\tcase <-time.After(5 * time.Second):\n\t\tcheck(false, "still waiting")\n\t}\n}\n'
