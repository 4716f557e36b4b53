ID='c09-reset-depth'
PROP='C09'
NEEDS='a writer reset while two or more structs are open, then used unbalanced'
BREAKS='one open struct of the earlier use survives Reset'
EDITS=[('encoding/thriftcompact/thriftcompact.go', '\t\tuw:           uw,\n\t\tlastFieldIDs: x.lastFieldIDs[:0],', '\t\tuw:           uw,\n\t\tlastFieldIDs: x.lastFieldIDs[:len(x.lastFieldIDs)/2],')]
DEMO='package main\n\nimport (\n\t"bytes"\n\t"errors"\n\t"fmt"\n\t"io"\n\t"os"\n\t"strings"\n\t"time"\n\n\t"github.com/itstarsun/go-thrift/encoding/thriftbinary"\n\t"github.com/itstarsun/go-thrift/encoding/thriftcompact"\n\t"github.com/itstarsun/go-thrift/encoding/thriftwire"\n)\n\nvar (\n\t_ = bytes.NewReader\n\t_ = errors.New\n\t_ = io.EOF\n\t_ = strings.NewReader\n\t_ = time.Second\n\t_ = thriftbinary.Protocol\n\t_ = thriftcompact.Protocol\n\t_ = thriftwire.Bool\n)\n\nfunc check(ok bool, a ...any) {\n\tif !ok {\n\t\tfmt.Println(a...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc main() {\n\tvar a, b bytes.Buffer\n\tx := thriftcompact.Protocol.NewWriter(&a)\n\tx.WriteStructBegin(thriftwire.StructHeader{})\n\tx.WriteStructBegin(thriftwire.StructHeader{})\n\tx.Reset(&b)\n\tcheck(x.WriteStructEnd() != nil, "struct of the earlier use still open")\n}\n'
