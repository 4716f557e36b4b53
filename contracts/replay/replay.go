// Package replay runs the contracts concretely against the real code.
package replay

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/scanner"
	"go/token"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"vspec/gv"
)

// Entry is one contract.
type Entry struct {
	Name, Default string
	Fn            func()
}

func dict(dir string) {
	seen := map[int64]bool{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		var s scanner.Scanner
		fs := token.NewFileSet()
		s.Init(fs.AddFile(p, -1, len(b)), b, func(token.Position, string) {}, 0)
		for {
			_, t, lit := s.Scan()
			if t == token.EOF {
				return nil
			}
			switch t {
			case token.INT:
				v, err := strconv.ParseInt(lit, 0, 64)
				if err != nil || v >= -1 && v <= 1 || seen[v] {
					continue
				}
				seen[v] = true
				gv.Dict = append(gv.Dict, v)
			case token.CHAR:
				if v, err := strconv.Unquote(lit); err == nil && len(v) == 1 && !seen[int64(v[0])] {
					seen[int64(v[0])] = true
					gv.Dict = append(gv.Dict, int64(v[0]))
				}
			}
		}
	})
}

func hash(name string, l []string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(name))
	for _, x := range l {
		h.Write([]byte(x))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// clean escapes what is not printable.
func clean(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r == '\t' || r == '\n' || strconv.IsPrint(r) && r != '\uFFFD' {
			b.WriteRune(r)
		} else {
			q := strconv.QuoteRuneToASCII(r)
			b.WriteString(q[1 : len(q)-1])
		}
	}
	return b.String()
}

func has(l, p string) bool {
	for _, x := range strings.Split(l, ",") {
		if x == p {
			return true
		}
	}
	return false
}

// Main is the replay program.
func Main(table []Entry) {
	prop := flag.String("prop", "", "")
	hs := flag.String("harness", "", "")
	seed := flag.Int64("seed", 1, "")
	budget := flag.Duration("budget", 10*time.Second, "")
	dir := flag.String("dict", "", "")
	one := flag.Int64("run", 0, "run this input only")
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(3 << 30)
	if *dir != "" {
		dict(*dir)
	}
	var tab []Entry
	for _, e := range table {
		if *hs == "" || has(*hs, e.Name) {
			tab = append(tab, e)
		}
	}
	if len(tab) == 0 {
		fmt.Println("no contract selected")
		return
	}
	state, _ := os.Create("replay.state")
	end := time.Now().Add(*budget)
	runs, disc := 0, 0
	seen := map[uint64]bool{}
	var samples []string
	others := map[string]int{}
	report := func(e Entry, s int64, o gv.Outcome) {
		fmt.Printf("FAILING INPUT: contract %s, input %d\n  violated [%s]: %s\n", e.Name, s, o.Props, o.Label)
		for i, l := range o.Trace {
			if i > 60 {
				fmt.Println("  ...")
				break
			}
			fmt.Println("   ", clean(l))
		}
	}
	for i := int64(0); time.Now().Before(end); i++ {
		e := tab[i%int64(len(tab))]
		s := *seed*1000003 + i
		if *one != 0 {
			s = *one
		}
		state.WriteAt([]byte(fmt.Sprintf("contract %s, input %d        \n", e.Name, s)), 0)
		ch := make(chan gv.Outcome, 1)
		go func() { ch <- gv.RunOne(s, e.Default, e.Fn) }()
		var o gv.Outcome
		select {
		case o = <-ch:
		case <-time.After(20 * time.Second):
			if *prop == "" || has(e.Default, *prop) {
				fmt.Printf("FAILING INPUT: contract %s, input %d: does not terminate\n", e.Name, s)
				for _, l := range gv.Trace() {
					fmt.Printf("    %.2000s\n", clean(l))
				}
				os.Exit(3)
			}
			fmt.Printf("contract %s, input %d: does not terminate (property %s)\n", e.Name, s, e.Default)
			os.Exit(0)
		}
		runs++
		if o.Discarded {
			disc++
		} else if h := hash(e.Name, o.Trace); !seen[h] && len(seen) < 5000000 {
			seen[h] = true
			if len(samples) < 3 && len(o.Trace) > 3 {
				t := o.Trace
				if len(t) > 12 {
					t = t[:12]
				}
				samples = append(samples, fmt.Sprintf("%s, input %d: %s", e.Name, s, strings.Join(t, "; ")))
			}
		}
		if o.Failed {
			if *prop == "" || has(o.Props, *prop) {
				report(e, s, o)
				os.Exit(3)
			}
			others[o.Props+": "+o.Label]++
		}
		if *one != 0 {
			break
		}
	}
	js, _ := json.Marshal(map[string]any{"Runs": runs, "Discarded": disc, "Distinct": len(seen), "Samples": samples})
	fmt.Printf("STATS %s\n", js)
	fmt.Printf("%d runs of %d contracts, %d outside a precondition, no violation of %s\n", runs, len(tab), disc, *prop)
	for k, n := range others {
		fmt.Printf("  (%d runs stopped at an obligation of other properties: %s)\n", n, k)
	}
}
