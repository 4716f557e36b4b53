package idl

import (
	"fmt"
	gotoken "go/token"
	"sort"
	"strings"

	"vspec/gv"

	tf "github.com/itstarsun/go-thrift/tools/thriftfile"
)

func kindOf(d tf.Def) string {
	switch d.(type) {
	case *tf.BadDef:
		return "bad"
	case *tf.Const:
		return "const"
	case *tf.Typedef:
		return "typedef"
	case *tf.Enum:
		return "enum"
	case *tf.Struct:
		return "struct"
	case *tf.Service:
		return "service"
	}
	return "unknown"
}

// positions of the errors in the order in which they are reported
func sorted(src []byte, errs []int) [][2]int {
	// the position after a final newline counts as the last line's
	var out [][2]int
	for _, e := range errs {
		s := src
		if e == len(src) && e > 0 && src[e-1] == '\n' {
			s = append(append([]byte{}, src[:e-1]...), ' ')
		}
		l, c := Pos(s, e)
		out = append(out, [2]int{l, c})
	}
	sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] || out[i][0] == out[j][0] && out[i][1] < out[j][1] })
	return out
}

// HParse compares Parse with the specification.
//
//gv:harness idl/Parse props=C18,C19,C20,C21 default=C19
//gv:concrete
func HParse() { checkParse(Source(gv.Rand())) }

func checkParse(src []byte) {
	gv.Note("source %q", src)
	fset := gotoken.NewFileSet()
	if gv.Bool() {
		fset.AddFile("other", -1, gv.Choose(50))
	}
	name := "dir/f.thrift"
	given := append([]byte{}, src...)
	f, err := tf.Parse(fset, name, given)
	gv.Ensure("C19", "Parse returns a file", f != nil)
	want := Parse(src)
	if want.Deep > MaxDepth {
		return
	}
	gv.Ensure("C21", "an error is returned exactly when there is one", (err != nil) == (len(want.Errs) > 0))
	if want.Stale {
		return // the kind of a token that is not well formed is unspecified
	}
	nd := len(f.Defs)
	gv.Ensure("C19,C20", "as many definitions as in the source, also after syntax errors", nd == len(want.Defs))
	for i, d := range f.Defs {
		w := want.Defs[i]
		gv.Ensure("C19,C20", "a definition of the right kind, also after syntax errors", kindOf(d) == w.Kind)
		if b, ok := d.(*tf.BadDef); ok {
			gv.Ensure("C19,C21", "a bad definition spans the tokens passed over", fset.Position(b.From).Offset == w.From && fset.Position(b.To).Offset == w.To)
		}
	}
	if len(want.Errs) > 0 {
		msg := err.Error()
		gv.Note("error %s", msg)
		ps := sorted(src, want.Errs)
		gv.Ensure("C21", "the first error is reported with its position", strings.HasPrefix(msg, fmt.Sprintf("%s:%d:%d: ", name, ps[0][0], ps[0][1])))
		if n := len(ps); n > 1 {
			gv.Ensure("C21", "every error is reported once", strings.HasSuffix(msg, fmt.Sprintf(" (and %d more errors)", n-1)))
		} else {
			gv.Ensure("C21", "a single error is reported once", !strings.HasSuffix(msg, " more errors)"))
		}
		return
	}
	gv.Ensure("C20", "every header is recorded", len(f.Headers) == len(want.Headers))
	for i, h := range f.Headers {
		got := Dump(h)
		if got != want.Headers[i] {
			gv.Note("got  %s\nwant %s", got, want.Headers[i])
		}
		gv.Ensure("C20", "a header is recorded as written", got == want.Headers[i])
	}
	for i, d := range f.Defs {
		got := Dump(d)
		if got != want.Defs[i].Text {
			gv.Note("got  %s\nwant %s", got, want.Defs[i].Text)
		}
		gv.Ensure("C20", "a definition is recorded as written", got == want.Defs[i].Text)
	}
}

// HTokens checks the lexical grammar through constants that list literals.
//
//gv:harness idl/Literals props=C18 default=C18
//gv:concrete
func HTokens() {
	r := gv.Rand()
	g := &gen{r: r, blank: r.Intn(3), bad: r.Intn(4) == 0}
	var b strings.Builder
	b.WriteString("const x y = [")
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		b.WriteString(pick(r, " ", "\n", ",", ", ", ";", "\t", "\r"))
		switch r.Intn(6) {
		case 0:
			b.WriteString(g.name())
		case 1:
			b.WriteString(g.integer())
		case 2:
			b.WriteString(g.float())
		case 3:
			b.WriteString(g.str())
		case 4:
			b.WriteString(g.comment())
		case 5:
			for k := 1 + r.Intn(4); k > 0; k-- {
				b.WriteString(soup[r.Intn(len(soup))])
			}
		}
	}
	b.WriteString("]")
	src := []byte(b.String())
	gv.Note("source %q", src)
	want := Parse(src)
	f, err := tf.Parse(gotoken.NewFileSet(), "f", src)
	gv.Ensure("C18", "a lexical error is reported exactly when there is one", (err != nil) == (len(want.Errs) > 0))
	if want.Stale {
		return // the kind of a token that is not well formed is unspecified
	}
	gv.Ensure("C18", "the tokens make up the definition", f != nil && len(f.Defs) == len(want.Defs))
	if len(want.Errs) > 0 {
		ps := sorted(src, want.Errs)
		gv.Ensure("C18", "the first error is at the offending character", strings.HasPrefix(err.Error(), fmt.Sprintf("f:%d:%d: ", ps[0][0], ps[0][1])))
		if n := len(ps); n > 1 {
			gv.Ensure("C18", "every error is reported", strings.HasSuffix(err.Error(), fmt.Sprintf(" (and %d more errors)", n-1)))
		}
		return
	}
	for i, d := range f.Defs {
		got := Dump(d)
		if got != want.Defs[i].Text {
			gv.Note("got  %s\nwant %s", got, want.Defs[i].Text)
		}
		gv.Ensure("C18", "every token has its kind and its exact text", got == want.Defs[i].Text)
	}
}

// HDeep: nesting beyond any bound ends in an error.
//
//gv:harness idl/Deep props=C19 default=C19
//gv:concrete
func HDeep() {
	n := 1 + gv.Choose(1000)
	if gv.Choose(100) == 7 {
		n = 1500000
	}
	open, close := "[", "]"
	pre, post := "const x y = ", ""
	switch gv.Choose(5) {
	case 1:
		open, close = "{1:", "}"
	case 2:
		pre, open, close, post = "typedef ", "list<", ">", " y"
	case 3:
		pre, open, close, post = "struct s { 1: ", "map<i32,", ">", " y }"
	case 4:
		pre, open, close, post = "const ", "map<", ">", " y = 1"
	}
	gv.Note("%d levels of %s after %s", n, open, pre)
	src := []byte(pre + strings.Repeat(open, n) + "z" + strings.Repeat(close, n) + post + "\nstruct after {}")
	f, err := tf.Parse(gotoken.NewFileSet(), "f", src)
	gv.Ensure("C19", "Parse returns a file", f != nil)
	gv.Ensure("C19", "deep nesting is refused with an error", n <= 1000 || err != nil)
	if d := f.Defs; n > 1000 && len(d) > 0 {
		s, ok := d[len(d)-1].(*tf.Struct)
		gv.Ensure("C19", "parsing resumes at the next definition", ok && s.Name.Name == "after")
	}
}
