ID='c07-peek-header'
PROP='C07'
NEEDS='a peer that sends a complete struct and then keeps the connection open'
BREAKS='the field header is peeked at its full size even when it is the single stop byte'
EDITS=[('encoding/thriftbinary/thriftbinary.go', '\th.Type, err = x.readType()\n\tif err != nil || h.Type == thriftwire.Stop {\n\t\treturn h, err\n\t}\n\th.ID, err = x.ReadI16()\n\treturn h, err', '\tif buf, err := x.Peek(3); err == nil && buf[0] != byte(thriftwire.Stop) {\n\t\th.Type = thriftwire.Type(buf[0])\n\t\th.ID = int16(binary.BigEndian.Uint16(buf[1:]))\n\t\t_, err = x.Discard(3)\n\t\treturn h, err\n\t}\n\th.Type, err = x.readType()\n\tif err != nil || h.Type == thriftwire.Stop {\n\t\treturn h, err\n\t}\n\th.ID, err = x.ReadI16()\n\treturn h, err')]
DEMO='package main\n\nimport (\n\t"bytes"\n\t"errors"\n\t"fmt"\n\t"io"\n\t"os"\n\t"strings"\n\t"time"\n\n\t"github.com/itstarsun/go-thrift/encoding/thriftbinary"\n\t"github.com/itstarsun/go-thrift/encoding/thriftcompact"\n\t"github.com/itstarsun/go-thrift/encoding/thriftwire"\n)\n\nvar (\n\t_ = bytes.NewReader\n\t_ = errors.New\n\t_ = io.EOF\n\t_ = strings.NewReader\n\t_ = time.Second\n\t_ = thriftbinary.Protocol\n\t_ = thriftcompact.Protocol\n\t_ = thriftwire.Bool\n)\n\nfunc check(ok bool, a ...any) {\n\tif !ok {\n\t\tfmt.Println(a...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc main() {\n\tr, w := io.Pipe()\n\tgo w.Write([]byte{0})\n\tx := thriftbinary.Protocol.NewReader(r)\n\tdone := make(chan error, 1)\n\tgo func() { _, err := x.ReadFieldBegin(); done <- err }()\n\tselect {\n\tcase err := <-done:\n\t\tcheck(err == nil, err)\n\tcase <-time.After(5 * time.Second):\n\t\tcheck(false, "still waiting")\n\t}\n}\n'
