ID='c08-flush-nothing'
PROP='C08'
NEEDS='a Flush when nothing is buffered: right after a write larger than the buffer, or after an earlier failed Flush'
BREAKS='an empty buffer makes Flush return before the destination is flushed'
EDITS=[('encoding/thriftbinary/thriftbinary.go', 'func (x *writer) Flush() error {\n', 'func (x *writer) Flush() error {\n\tif x.Buffered() == 0 {\n\t\treturn nil\n\t}\n')]
DEMO='package main\n\nimport (\n\t"bytes"\n\t"errors"\n\t"fmt"\n\t"io"\n\t"os"\n\t"strings"\n\t"time"\n\n\t"github.com/itstarsun/go-thrift/encoding/thriftbinary"\n\t"github.com/itstarsun/go-thrift/encoding/thriftcompact"\n\t"github.com/itstarsun/go-thrift/encoding/thriftwire"\n)\n\nvar (\n\t_ = bytes.NewReader\n\t_ = errors.New\n\t_ = io.EOF\n\t_ = strings.NewReader\n\t_ = time.Second\n\t_ = thriftbinary.Protocol\n\t_ = thriftcompact.Protocol\n\t_ = thriftwire.Bool\n)\n\nfunc check(ok bool, a ...any) {\n\tif !ok {\n\t\tfmt.Println(a...)\n\t\tos.Exit(1)\n\t}\n}\n\ntype fl struct {\n\tbytes.Buffer\n\tn   int\n\terr error\n}\n\nfunc (f *fl) Flush() error { f.n++; return f.err }\n\nfunc main() {\n\tf := &fl{err: errors.New("flush")}\n\tx := thriftbinary.Protocol.NewWriter(f)\n\tx.WriteI32(1)\n\tcheck(x.Flush() != nil)\n\tcheck(x.Flush() != nil, "second flush lost")\n}\n'
