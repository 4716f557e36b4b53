package idl

import (
	"math/rand"
	"strings"
)

// generator of IDL sources
type gen struct {
	bad bool // bad escapes too
	r   *rand.Rand
	b   strings.Builder
	// style
	blank  int
	budget int
}

func pick(r *rand.Rand, l ...string) string { return l[r.Intn(len(l))] }

var kwList = []string{"include", "namespace", "const", "typedef", "enum", "struct", "union", "exception", "service", "required", "optional", "extends", "oneway", "void", "throws", "map", "set", "list"}

func (g *gen) comment() string {
	switch g.r.Intn(9) {
	case 0:
		return "//" + g.junk() + "\n"
	case 1:
		return "#" + g.junk() + "\n"
	case 2:
		return "/*" + strings.ReplaceAll(g.junk(), "*/", "") + "*/"
	case 3:
		return pick(g.r, "/**/", "/***/", "/*/*/", "/* * / **/", "/* \n */", "//\n", "#\n", "//\r\n", "/*é*/")
	case 4:
		return "/*" + strings.Repeat("*", g.r.Intn(4)) + "*/"
	case 5:
		return "/*" + strings.Repeat("\n", g.r.Intn(3)) + " x */"
	}
	return pick(g.r, " ", "\n", "\t", "\r", "\r\n", "  ")
}

func (g *gen) junk() string {
	s := ""
	for n := g.r.Intn(6); n > 0; n-- {
		s += pick(g.r, "a", "é", "*", "/", " ", "\"", "'", "\\", "1", "{", "struct", "\ufffd", "x")
	}
	return s
}

// sp writes a blank; must says that one is needed.
func (g *gen) sp(must bool) {
	n := 0
	switch g.blank {
	case 0:
	case 1:
		n = g.r.Intn(2)
	case 2:
		n = g.r.Intn(4)
	}
	if must {
		g.b.WriteString(pick(g.r, " ", "\n", "\t", " /**/ "))
	}
	for ; n > 0; n-- {
		g.b.WriteString(g.comment())
	}
}

func wordish(c byte) bool {
	return c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

func (g *gen) t(s string) {
	o := g.b.String()
	must := false
	if len(o) > 0 && len(s) > 0 {
		l, f := o[len(o)-1], s[0]
		must = wordish(l) && (wordish(f)) || l == '=' && f == '=' || l == '/' && (f == '/' || f == '*') || wordish(l) && (f == '+' || f == '-') || (l == '+' || l == '-') && wordish(f)
	}
	g.sp(must)
	g.b.WriteString(s)
}

func (g *gen) name() string {
	switch g.r.Intn(12) {
	case 0:
		return pick(g.r, "é", "été", "a.b.c", "_", "_1", "x٣", "日本", "a.é.1", "ß_", "A", "Ab9")
	case 1:
		return pick(g.r, "structs", "Struct", "lists", "voi", "map_", "is", "on", "setx", "unions", "listt", "maps")
	case 2:
		s := pick(g.r, "a", "Z", "_", "é")
		for n := g.r.Intn(40); n > 0; n-- {
			s += pick(g.r, "a", "Z", "_", "é", "9", ".", "٣", "q")
		}
		return s
	}
	return pick(g.r, "i32", "string", "Foo", "bar", "x", "y", "binary", "bool")
}

func (g *gen) integer() string {
	switch g.r.Intn(6) {
	case 0:
		return pick(g.r, "0x0", "0xfF", "0XaB9", "0x", "-0x1F", "+0x2", "0x0123456789abcdefABCDEF")
	case 1:
		return pick(g.r, "007", "-0", "+0", "0", "00", "99999999999999999999")
	case 2:
		return pick(g.r, "+", "-") + pick(g.r, "1", "22", "9")
	}
	return pick(g.r, "1", "2", "3", "10", "42", "5", "6", "789")
}

func (g *gen) float() string {
	s := pick(g.r, "", "", "+", "-") + pick(g.r, "0", "1", "12", "00", "9")
	switch g.r.Intn(4) {
	case 0:
		return s + "."
	case 1:
		return s + "." + pick(g.r, "5", "05", "123")
	case 2:
		return s + pick(g.r, "e", "E") + pick(g.r, "", "+", "-") + pick(g.r, "", "1", "10")
	}
	return s + "." + pick(g.r, "", "5") + pick(g.r, "e", "E") + pick(g.r, "", "+", "-") + pick(g.r, "3", "10")
}

func (g *gen) str() string {
	q := pick(g.r, "\"", "'")
	s := q
	for n := g.r.Intn(6); n > 0; n-- {
		x := pick(g.r, "a", "é", "\\n", "\\r", "\\t", "\\\\", "\\"+q, " ", "//", "/*", "#", "struct", "{", "\t", "\r", "\u2028", "\x7f", "\x01")
		s += x
	}
	if g.bad && g.r.Intn(8) == 0 {
		s += "\\" + pick(g.r, "\"", "'", "a", "b", "0", "x41", "u", "\n", "é", "N", "")
	}
	if g.r.Intn(3) == 0 {
		if q == "'" {
			s += "\""
		} else {
			s += "'"
		}
	}
	return s + q
}

func (g *gen) sep() {
	for n := []int{0, 1, 1, 1, 0, 2}[g.r.Intn(6)]; n > 0; n-- {
		g.t(pick(g.r, ",", ";"))
	}
}

func (g *gen) many(open, close string, f func()) {
	g.t(open)
	n := []int{0, 1, 1, 2, 3, 5}[g.r.Intn(6)]
	for ; n > 0 && g.budget > 0; n-- {
		g.budget--
		f()
		g.sep()
	}
	g.t(close)
}

func (g *gen) ann() {
	if g.r.Intn(4) != 0 {
		return
	}
	g.many("(", ")", func() {
		g.t(g.name())
		if g.r.Intn(2) == 0 {
			g.t("=")
			g.t(g.str())
		}
	})
}

func (g *gen) typ(d int) {
	k := g.r.Intn(8)
	if d <= 0 {
		k = 7
	}
	switch k {
	case 0:
		g.t("map")
		g.t("<")
		g.typ(d - 1)
		g.t(",")
		g.typ(d - 1)
		g.t(">")
	case 1, 2:
		g.t(pick(g.r, "set", "list"))
		g.t("<")
		g.typ(d - 1)
		g.t(">")
	default:
		g.t(g.name())
	}
	g.ann()
}

func (g *gen) value(d int) {
	k := g.r.Intn(9)
	if d <= 0 && k > 5 {
		k = 0
	}
	switch k {
	case 0, 1:
		g.t(g.integer())
	case 2:
		g.t(g.float())
	case 3:
		g.t(g.str())
	case 4, 5:
		g.t(g.name())
	case 6, 7:
		g.many("[", "]", func() { g.value(d - 1) })
	case 8:
		g.many("{", "}", func() {
			g.value(d - 1)
			g.t(":")
			g.value(d - 1)
		})
	}
}

func (g *gen) field() {
	if g.r.Intn(3) != 0 {
		g.t(g.integer())
		g.t(":")
	}
	if g.r.Intn(3) == 0 {
		g.t(pick(g.r, "required", "optional"))
	}
	g.typ(2)
	if g.r.Intn(5) == 0 {
		g.t("&")
	}
	if g.r.Intn(6) == 0 {
		g.t(kwList[g.r.Intn(len(kwList))])
	} else {
		g.t(g.name())
	}
	if g.r.Intn(4) == 0 {
		g.t("=")
		g.value(2)
	}
	g.ann()
}

func (g *gen) header() {
	if g.r.Intn(2) == 0 {
		g.t("include")
		g.t(g.str())
		return
	}
	g.t("namespace")
	if g.r.Intn(3) == 0 {
		g.t("*")
	} else {
		g.t(g.name())
	}
	g.t(g.name())
	g.ann()
}

func (g *gen) def() {
	switch g.r.Intn(6) {
	case 0:
		g.t("const")
		g.typ(2)
		g.t(g.name())
		g.t("=")
		g.value(3)
		g.sep()
	case 1:
		g.t("typedef")
		g.typ(3)
		g.t(g.name())
		g.ann()
		g.sep()
	case 2:
		g.t("enum")
		g.t(g.name())
		g.many("{", "}", func() {
			g.t(g.name())
			if g.r.Intn(2) == 0 {
				g.t("=")
				g.t(g.integer())
			}
			g.ann()
		})
		g.ann()
	case 3, 4:
		g.t(pick(g.r, "struct", "union", "exception"))
		g.t(g.name())
		g.many("{", "}", g.field)
		g.ann()
	case 5:
		g.t("service")
		g.t(g.name())
		if g.r.Intn(3) == 0 {
			g.t("extends")
			g.t(g.name())
		}
		g.many("{", "}", func() {
			if g.r.Intn(3) == 0 {
				g.t("oneway")
			}
			if g.r.Intn(2) == 0 {
				g.t("void")
			} else {
				g.typ(2)
			}
			g.t(g.name())
			g.many("(", ")", g.field)
			if g.r.Intn(3) == 0 {
				g.t("throws")
				g.many("(", ")", g.field)
			}
			g.ann()
		})
		g.ann()
	}
}

var soup = []string{"\x00", "\xff", "\xc3", "\xe2\x82", "\ufeff", "\ufffd", "é", "٣", "$", "@", "~", "`", "\"", "'", "\\", "\n", "/*", "*/", "//", "#", "/", "*",
	"+", "-", "%", "&", "|", "^", "=", "==", "<", ">", "!", "(", ")", "[", "]", "{", "}", ",", ".", ";", ":", " ", "\t", "\r", "\v", "\f", "\u00a0", "\u2028", "0x", "1e", "1.5", "12", "x", "_", "a.b",
	"\x7f", "\x01", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", "\U0001F600", "𝒳"}

func (g *gen) anyTok() string {
	switch g.r.Intn(4) {
	case 0:
		return kwList[g.r.Intn(len(kwList))]
	case 1:
		return soup[g.r.Intn(len(soup))]
	case 2:
		return pick(g.r, g.name(), g.integer(), g.float(), g.str())
	}
	return pick(g.r, "{", "}", "(", ")", "<", ">", "[", "]", ",", ";", ":", "=", "==", "&", "*")
}

// Source generates a source text.
func Source(r *rand.Rand) []byte {
	g := &gen{r: r, blank: r.Intn(3), budget: []int{3, 10, 30, 60}[r.Intn(4)]}
	if r.Intn(12) == 0 {
		g.b.WriteString("\ufeff")
	}
	switch r.Intn(8) {
	case 0: // soup
		for n := r.Intn(12); n >= 0; n-- {
			g.b.WriteString(soup[r.Intn(len(soup))])
		}
	case 1: // tokens in any order
		for n := r.Intn(25); n >= 0; n-- {
			g.t(g.anyTok())
		}
	default:
		for n := r.Intn(3); n > 0; n-- {
			g.header()
		}
		for n := r.Intn(4); n > 0; n-- {
			g.def()
		}
	}
	s := g.b.String()
	switch r.Intn(3) {
	case 0: // damage it
		for n := r.Intn(3); n >= 0 && len(s) > 0; n-- {
			i := r.Intn(len(s) + 1)
			j := i + r.Intn(4)
			if j > len(s) {
				j = len(s)
			}
			switch r.Intn(5) {
			case 0:
				s = s[:i] + s[j:]
			case 1:
				s = s[:i] + soup[r.Intn(len(soup))] + s[i:]
			case 2:
				s = s[:i]
			case 3:
				s = s[:i] + " " + g.anyTok() + " " + s[j:]
			case 4:
				s = s[:i] + string([]byte{byte(r.Intn(256))}) + s[j:]
			}
		}
	}
	if r.Intn(4) == 0 {
		s += pick(r, "\n", " ", "\n\n", "#", "//", "/*", "\r\n", "\n#x")
	}
	return []byte(s)
}
