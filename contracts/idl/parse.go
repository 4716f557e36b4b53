package idl

import "strings"

// Def is a definition of the specified syntax tree, rendered canonically.
type Def struct {
	Kind     string // const, typedef, enum, struct, service or bad
	Text     string
	From, To int
}

// Tree is the specified outcome of parsing a file.
type Tree struct {
	Headers []string
	Defs    []Def
	Errs    []int // offset of every error, lexical ones included
	Stale   bool
	Deep    int // greatest nesting depth of types and values
}

// MaxDepth is the nesting depth that is always accepted.
const MaxDepth = 1000

type bad struct{}

type ps struct {
	src   []byte
	toks  []Tok
	i     int
	errs  []int
	depth int
	deep  int
}

func (p *ps) tok() string { return p.toks[p.i].Kind }
func (p *ps) off() int    { return p.toks[p.i].Off }
func (p *ps) text() string {
	return string(p.src[p.toks[p.i].Off:p.toks[p.i].End])
}
func (p *ps) err() { p.errs = append(p.errs, p.off()) }
func (p *ps) next() {
	if p.i < len(p.toks)-1 {
		p.i++
	}
}
func (p *ps) got(k string) bool {
	if p.tok() == k {
		p.next()
		return true
	}
	return false
}

// want: anything else is one error and is passed over.
func (p *ps) want(k string) {
	if p.tok() != k {
		p.err()
	}
	p.next()
}

func (p *ps) word(k string) string {
	s := ""
	if p.tok() == k {
		s = p.text()
	}
	p.want(k)
	return s
}

func (p *ps) list(open, close string, f func() string) string {
	var l []string
	p.want(open)
	for p.tok() != "EOF" && p.tok() != close {
		l = append(l, f())
		for p.tok() == "," || p.tok() == ";" {
			p.next()
		}
	}
	p.want(close)
	return "[" + strings.Join(l, " ") + "]"
}

func quote(kind, s string) string { return kind + "<" + s + ">" }

func (p *ps) ident() string { return quote("ident", p.word("IDENT")) }

func (p *ps) assign() bool {
	if p.tok() == "==" {
		p.err()
		p.next()
		return true
	}
	return p.got("=")
}

func (p *ps) annotations() string {
	if p.tok() != "(" {
		return ""
	}
	return "@" + p.list("(", ")", func() string {
		s := p.ident()
		if p.assign() {
			s += "=" + quote("string", p.word("STRING"))
		}
		return s
	})
}

func (p *ps) enter() {
	p.depth++
	if p.depth > p.deep {
		p.deep = p.depth
	}
}

func (p *ps) typ() string {
	p.enter()
	defer func() { p.depth-- }()
	var s string
	switch k := p.tok(); k {
	case "IDENT":
		return "ref(" + p.ident() + ")" + p.annotations()
	case "map":
		p.next()
		p.want("<")
		s = "map(" + p.typ()
		p.want(",")
		s += "," + p.typ()
	case "set", "list":
		p.next()
		p.want("<")
		s = k + "(" + p.typ()
	default:
		p.err()
		panic(bad{})
	}
	p.want(">")
	return s + ")" + p.annotations()
}

func (p *ps) value() string {
	p.enter()
	defer func() { p.depth-- }()
	switch p.tok() {
	case "IDENT":
		return p.ident()
	case "INT":
		return quote("int", p.word("INT"))
	case "FLOAT":
		return quote("float", p.word("FLOAT"))
	case "STRING":
		return quote("string", p.word("STRING"))
	case "[":
		return "values" + p.list("[", "]", p.value)
	case "{":
		return "pairs" + p.list("{", "}", func() string {
			k := p.value()
			p.want(":")
			return k + ":" + p.value()
		})
	}
	p.err()
	panic(bad{})
}

func (p *ps) field() string {
	s := "field("
	if p.tok() == "INT" {
		s += "id=" + quote("int", p.text()) + " "
		p.next()
		p.want(":")
	}
	if p.got("required") {
		s += "required "
	} else if p.got("optional") {
		s += "optional "
	}
	s += p.typ()
	if p.got("&") {
		s += " &"
	}
	if keywords[p.tok()] {
		s += " " + quote("ident", p.text())
		p.next()
	} else {
		s += " " + p.ident()
	}
	if p.assign() {
		s += "=" + p.value()
	}
	return s + p.annotations() + ")"
}

func (p *ps) method() string {
	s := "method("
	if p.got("oneway") {
		s += "oneway "
	}
	if p.got("void") {
		s += "void"
	} else {
		s += p.typ()
	}
	s += " " + p.ident() + p.list("(", ")", p.field)
	if p.got("throws") {
		s += " throws" + p.list("(", ")", p.field)
	}
	return s + p.annotations() + ")"
}

func (p *ps) separator() {
	for p.tok() == "," || p.tok() == ";" {
		p.next()
	}
}

func (p *ps) definition() string {
	switch k := p.tok(); k {
	case "const":
		p.next()
		s := "const(" + p.typ() + " " + p.ident()
		p.want("=")
		s += "=" + p.value() + ")"
		p.separator()
		return s
	case "typedef":
		p.next()
		s := "typedef(" + p.typ() + " " + p.ident() + p.annotations() + ")"
		p.separator()
		return s
	case "enum":
		p.next()
		s := "enum(" + p.ident() + p.list("{", "}", func() string {
			v := p.ident()
			if p.assign() {
				v += "=" + quote("int", p.word("INT"))
			}
			return v + p.annotations()
		})
		return s + p.annotations() + ")"
	case "struct", "union", "exception":
		p.next()
		s := "struct("
		if k != "struct" {
			s += k + " "
		}
		return s + p.ident() + p.list("{", "}", p.field) + p.annotations() + ")"
	case "service":
		p.next()
		s := "service(" + p.ident()
		if p.got("extends") {
			s += " extends " + p.ident()
		}
		return s + p.list("{", "}", p.method) + p.annotations() + ")"
	}
	p.err()
	panic(bad{})
}

func (p *ps) def() (d Def) {
	d.From = p.off()
	p.depth = 0
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(bad); !ok {
				panic(r)
			}
			// parsing resumes at the next definition
			for p.tok() != "EOF" && !definitions[p.tok()] {
				p.next()
			}
			d = Def{Kind: "bad", Text: "bad", From: d.From, To: p.off()}
		}
	}()
	d.Text = p.definition()
	d.Kind = d.Text[:strings.IndexByte(d.Text, '(')]
	d.To = p.off()
	return d
}

// Parse is the specified outcome of parsing src.
func Parse(src []byte) (t Tree) {
	lx := Lex(src)
	p := &ps{src: src, errs: lx.Errs}
	for _, k := range lx.Toks {
		if k.Kind != "COMMENT" {
			p.toks = append(p.toks, k)
		}
	}
	t.Stale = lx.Stale
	for {
		if p.got("include") {
			t.Headers = append(t.Headers, "include("+quote("string", p.word("STRING"))+")")
		} else if p.got("namespace") {
			s := "namespace("
			if p.got("*") {
				s += "*"
			} else {
				s += p.ident()
			}
			t.Headers = append(t.Headers, s+" "+p.ident()+p.annotations()+")")
		} else {
			break
		}
	}
	for p.tok() != "EOF" {
		t.Defs = append(t.Defs, p.def())
	}
	t.Errs = p.errs
	t.Deep = p.deep
	return t
}
