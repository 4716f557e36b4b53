ID='c06-uuid-short'
PROP='C06'
NEEDS='a stream that ends inside a UUID'
BREAKS='the UUID is read with Read, which may deliver fewer bytes without an error'
EDITS=[('encoding/thriftbinary/thriftbinary.go', '\t_, err := io.ReadFull(x.Reader, v[:])\n\treturn err', '\tn, err := x.Reader.Read(v[:])\n\tfor n < len(v) && err == nil {\n\t\tvar m int\n\t\tm, err = x.Reader.Read(v[n:])\n\t\tif n += m; m > 0 && err == nil && x.Buffered() == 0 {\n\t\t\tbreak\n\t\t}\n\t}\n\treturn err')]
DEMO='package main\n\nimport (\n\t"bytes"\n\t"errors"\n\t"fmt"\n\t"io"\n\t"os"\n\t"strings"\n\t"time"\n\n\t"github.com/itstarsun/go-thrift/encoding/thriftbinary"\n\t"github.com/itstarsun/go-thrift/encoding/thriftcompact"\n\t"github.com/itstarsun/go-thrift/encoding/thriftwire"\n)\n\nvar (\n\t_ = bytes.NewReader\n\t_ = errors.New\n\t_ = io.EOF\n\t_ = strings.NewReader\n\t_ = time.Second\n\t_ = thriftbinary.Protocol\n\t_ = thriftcompact.Protocol\n\t_ = thriftwire.Bool\n)\n\nfunc check(ok bool, a ...any) {\n\tif !ok {\n\t\tfmt.Println(a...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc main() {\n\tx := thriftbinary.Protocol.NewReader(io.MultiReader(strings.NewReader("abcd"), strings.NewReader("efgh")))\n\tvar v [16]byte\n\tcheck(x.ReadUUID(&v) != nil, "short UUID accepted")\n}\n'
