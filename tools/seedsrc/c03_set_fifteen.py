ID='c03-set-fifteen'
PROP='C03'
NEEDS='a set or list of exactly 15 elements'
BREAKS='the short form is chosen for size 15, whose nibble announces a long size that never follows'
EDITS=[('encoding/thriftcompact/thriftcompact.go', 'h.Size >= 0 && h.Size < 15 {', 'h.Size >= 0 && h.Size <= 15 {')]
DEMO='package main\n\nimport (\n\t"bytes"\n\t"errors"\n\t"fmt"\n\t"io"\n\t"os"\n\t"strings"\n\t"time"\n\n\t"github.com/itstarsun/go-thrift/encoding/thriftbinary"\n\t"github.com/itstarsun/go-thrift/encoding/thriftcompact"\n\t"github.com/itstarsun/go-thrift/encoding/thriftwire"\n)\n\nvar (\n\t_ = bytes.NewReader\n\t_ = errors.New\n\t_ = io.EOF\n\t_ = strings.NewReader\n\t_ = time.Second\n\t_ = thriftbinary.Protocol\n\t_ = thriftcompact.Protocol\n\t_ = thriftwire.Bool\n)\n\nfunc check(ok bool, a ...any) {\n\tif !ok {\n\t\tfmt.Println(a...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc main() {\n\tb, err := thriftcompact.AppendListHeader(nil, thriftwire.ListHeader{Element: thriftwire.I32, Size: 15})\n\tcheck(err == nil && bytes.Equal(b, []byte{0xf5, 15}), b, err)\n}\n'
