ID='c09-reset-bool'
PROP='C09'
NEEDS='a reader reset between a boolean field header and its value'
BREAKS='the pending boolean of the earlier use survives Reset'
EDITS=[('encoding/thriftcompact/thriftcompact.go', '\t*x = reader{\n\t\tReader:       bufio.NewReader(r),\n\t\tlastFieldIDs: x.lastFieldIDs[:0],\n\t}', '\tx.lastFieldIDs = x.lastFieldIDs[:0]\n\tx.lastFieldID = 0')]
DEMO='package main\n\nimport (\n\t"bytes"\n\t"errors"\n\t"fmt"\n\t"io"\n\t"os"\n\t"strings"\n\t"time"\n\n\t"github.com/itstarsun/go-thrift/encoding/thriftbinary"\n\t"github.com/itstarsun/go-thrift/encoding/thriftcompact"\n\t"github.com/itstarsun/go-thrift/encoding/thriftwire"\n)\n\nvar (\n\t_ = bytes.NewReader\n\t_ = errors.New\n\t_ = io.EOF\n\t_ = strings.NewReader\n\t_ = time.Second\n\t_ = thriftbinary.Protocol\n\t_ = thriftcompact.Protocol\n\t_ = thriftwire.Bool\n)\n\nfunc check(ok bool, a ...any) {\n\tif !ok {\n\t\tfmt.Println(a...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc main() {\n\tx := thriftcompact.Protocol.NewReader(strings.NewReader("\\x11"))\n\tx.ReadStructBegin()\n\tx.ReadFieldBegin()\n\tx.Reset(strings.NewReader("\\x00"))\n\tv, err := x.ReadBool()\n\tcheck(!v && err == nil, v, err)\n}\n'
