ID='c10-grow'
PROP='C10'
NEEDS='an announced string length far beyond what the source delivers'
BREAKS='the announced length is allocated before any byte has arrived'
EDITS=[('encoding/thriftwire/bufio.go','''	var sb strings.Builder
	left := n
''','''	var sb strings.Builder
	sb.Grow(n)
	left := n
''')]
DEMO='''
package main

import (
	"bufio"
	"os"
	"runtime"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

func main() {
	b := bufio.NewReader(strings.NewReader("hello"))
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	_, err := thriftwire.ReadString(b, 1<<28)
	runtime.ReadMemStats(&m1)
	println(err != nil, m1.TotalAlloc-m0.TotalAlloc)
	if err == nil || m1.TotalAlloc-m0.TotalAlloc > 1<<20 {
		os.Exit(1)
	}
}
'''
