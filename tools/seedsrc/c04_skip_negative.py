ID='c04-skip-negative'
PROP='C04'
NEEDS='a string skipped whose announced size has the sign bit set (a 10-byte varint)'
BREAKS='skipping copies to io.Discard, which accepts a negative count as nothing to do'
EDITS=[('encoding/thriftcompact/thriftcompact.go', '\tn, err := x.readSize()\n\tif err != nil {\n\t\treturn err\n\t}\n\t_, err = x.Discard(n)\n\treturn err', '\tn, err := x.readSize()\n\tif err != nil {\n\t\treturn err\n\t}\n\t_, err = io.CopyN(io.Discard, x.Reader, int64(n))\n\treturn err')]
DEMO='package main\n\nimport (\n\t"bytes"\n\t"errors"\n\t"fmt"\n\t"io"\n\t"os"\n\t"strings"\n\t"time"\n\n\t"github.com/itstarsun/go-thrift/encoding/thriftbinary"\n\t"github.com/itstarsun/go-thrift/encoding/thriftcompact"\n\t"github.com/itstarsun/go-thrift/encoding/thriftwire"\n)\n\nvar (\n\t_ = bytes.NewReader\n\t_ = errors.New\n\t_ = io.EOF\n\t_ = strings.NewReader\n\t_ = time.Second\n\t_ = thriftbinary.Protocol\n\t_ = thriftcompact.Protocol\n\t_ = thriftwire.Bool\n)\n\nfunc check(ok bool, a ...any) {\n\tif !ok {\n\t\tfmt.Println(a...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc main() {\n\tx := thriftcompact.Protocol.NewReader(strings.NewReader("\\xff\\xff\\xff\\xff\\xff\\xff\\xff\\xff\\xff\\x01abc"))\n\tcheck(x.SkipString() != nil, "negative size accepted")\n}\n'
