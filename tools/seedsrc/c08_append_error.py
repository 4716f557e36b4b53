ID='c08-append-error'
PROP='C08'
NEEDS='a destination that fails while the buffer is flushed to make room for a header'
BREAKS='the error of the flush that makes room is dropped and the header written into the failed buffer is lost'
EDITS=[('encoding/thriftcompact/thriftcompact.go', '\tif err := x.ensureAvailable(max); err != nil {\n\t\treturn err\n\t}\n\tbuf := x.AvailableBuffer()\n\tbuf, err := f(buf, in)\n\tif err != nil {\n\t\treturn err\n\t}\n\t_, err = x.Write(buf)\n\treturn err', '\t_ = x.ensureAvailable(max)\n\tbuf := x.AvailableBuffer()\n\tbuf, err := f(buf, in)\n\tif err != nil {\n\t\treturn err\n\t}\n\tif x.Available() >= len(buf) {\n\t\t_, _ = x.Write(buf)\n\t\treturn nil\n\t}\n\t_, err = x.Write(buf)\n\treturn err')]
DEMO='package main\n\nimport (\n\t"bytes"\n\t"errors"\n\t"fmt"\n\t"io"\n\t"os"\n\t"strings"\n\t"time"\n\n\t"github.com/itstarsun/go-thrift/encoding/thriftbinary"\n\t"github.com/itstarsun/go-thrift/encoding/thriftcompact"\n\t"github.com/itstarsun/go-thrift/encoding/thriftwire"\n)\n\nvar (\n\t_ = bytes.NewReader\n\t_ = errors.New\n\t_ = io.EOF\n\t_ = strings.NewReader\n\t_ = time.Second\n\t_ = thriftbinary.Protocol\n\t_ = thriftcompact.Protocol\n\t_ = thriftwire.Bool\n)\n\nfunc check(ok bool, a ...any) {\n\tif !ok {\n\t\tfmt.Println(a...)\n\t\tos.Exit(1)\n\t}\n}\n\ntype bad struct{ n int }\n\nfunc (b *bad) Write(p []byte) (int, error) { return 0, errors.New("bad") }\n\nfunc main() {\n\tx := thriftcompact.Protocol.NewWriter(&bad{})\n\tfor i := 0; i < 4090; i++ {\n\t\tcheck(x.WriteByte(1) == nil)\n\t}\n\tcheck(x.WriteListBegin(thriftwire.ListHeader{Element: thriftwire.I32, Size: 3}) != nil, "write failure not reported")\n}\n'
