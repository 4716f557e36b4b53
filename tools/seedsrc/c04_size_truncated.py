ID='c04-size-truncated'
PROP='C04'
NEEDS='an announced string size of 2^32 or more'
BREAKS='sizes are truncated to 32 bits, so a huge announced size is read as a small one'
EDITS=[('encoding/thriftcompact/thriftcompact.go', 'func (x *reader) readSize() (int, error) {\n\tv, err := x.readUvarint()\n\treturn int(v), err', 'func (x *reader) readSize() (int, error) {\n\tv, err := x.readUvarint()\n\treturn int(int32(v)), err')]
DEMO='package main\n\nimport (\n\t"bytes"\n\t"errors"\n\t"fmt"\n\t"io"\n\t"os"\n\t"strings"\n\t"time"\n\n\t"github.com/itstarsun/go-thrift/encoding/thriftbinary"\n\t"github.com/itstarsun/go-thrift/encoding/thriftcompact"\n\t"github.com/itstarsun/go-thrift/encoding/thriftwire"\n)\n\nvar (\n\t_ = bytes.NewReader\n\t_ = errors.New\n\t_ = io.EOF\n\t_ = strings.NewReader\n\t_ = time.Second\n\t_ = thriftbinary.Protocol\n\t_ = thriftcompact.Protocol\n\t_ = thriftwire.Bool\n)\n\nfunc check(ok bool, a ...any) {\n\tif !ok {\n\t\tfmt.Println(a...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc main() {\n\tx := thriftcompact.Protocol.NewReader(strings.NewReader("\\x83\\x80\\x80\\x80\\x10abcdef"))\n\ts, err := x.ReadString()\n\tcheck(err != nil, s)\n}\n'
