ID='c01-large-bytes'
PROP='C01'
NEEDS='WriteBytes with more bytes than fit in the output buffer while something is already buffered'
BREAKS='large byte slices bypass the buffer, so they reach the destination before the bytes written earlier'
EDITS=[('encoding/thriftbinary/thriftbinary.go','''	if err := x.writeSize(len(v)); err != nil {
		return err
	}
	_, err := x.Write(v)
	return err
}

func (x *writer) WriteUUID''','''	if err := x.writeSize(len(v)); err != nil {
		return err
	}
	if len(v) > x.Size() {
		_, err := x.w.Write(v)
		return err
	}
	_, err := x.Write(v)
	return err
}

func (x *writer) WriteUUID''')]
DEMO='''
package main

import (
	"bytes"
	"os"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
)

func main() {
	var out bytes.Buffer
	w := thriftbinary.Protocol.NewWriter(&out)
	v := bytes.Repeat([]byte{'x'}, 5000)
	w.WriteBytes(v)
	w.Flush()
	println(out.Len(), out.Bytes()[0])
	if out.Len() != 5004 || out.Bytes()[0] != 0 || out.Bytes()[2] != 5000>>8 {
		os.Exit(1)
	}
}
'''
