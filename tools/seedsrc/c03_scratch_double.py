ID='c03-scratch-double'
PROP='C03'
NEEDS='a double written while another write has filled the scratch buffer: writing a string of 2^14 bytes or more'
BREAKS='sizes are encoded into a two-byte window and longer ones drop their upper bytes'
EDITS=[('encoding/thriftcompact/thriftcompact.go', 'func (x *writer) writeSize(v int) error {\n\treturn x.writeUvarint(uint64(v))\n}', 'func (x *writer) writeSize(v int) error {\n\tif v < 0x80 {\n\t\treturn x.WriteByte(byte(v))\n\t}\n\tif v < 0x8000 {\n\t\tx.buf[0], x.buf[1] = byte(v)|0x80, byte(v>>7)\n\t\t_, err := x.Write(x.buf[:2])\n\t\treturn err\n\t}\n\treturn x.writeUvarint(uint64(v))\n}')]
DEMO='package main\n\nimport (\n\t"bytes"\n\t"errors"\n\t"fmt"\n\t"io"\n\t"os"\n\t"strings"\n\t"time"\n\n\t"github.com/itstarsun/go-thrift/encoding/thriftbinary"\n\t"github.com/itstarsun/go-thrift/encoding/thriftcompact"\n\t"github.com/itstarsun/go-thrift/encoding/thriftwire"\n)\n\nvar (\n\t_ = bytes.NewReader\n\t_ = errors.New\n\t_ = io.EOF\n\t_ = strings.NewReader\n\t_ = time.Second\n\t_ = thriftbinary.Protocol\n\t_ = thriftcompact.Protocol\n\t_ = thriftwire.Bool\n)\n\nfunc check(ok bool, a ...any) {\n\tif !ok {\n\t\tfmt.Println(a...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc main() {\n\tvar o bytes.Buffer\n\tx := thriftcompact.Protocol.NewWriter(&o)\n\ts := strings.Repeat("x", 20000)\n\tcheck(x.WriteString(s) == nil && x.Flush() == nil)\n\tcheck(o.String() == "\\xa0\\x9c\\x01"+s, o.Len(), o.Bytes()[:4])\n}\n'
