package lex

import (
	gotoken "go/token"

	"vspec/gv"

	tf "github.com/itstarsun/go-thrift/tools/thriftfile"
)

// keyword is the kind of an identifier.
func keyword(s string) tf.VerifToken {
	switch s {
	case "include":
		return tf.VerifINCLUDE
	case "namespace":
		return tf.VerifNAMESPACE
	case "const":
		return tf.VerifCONST
	case "typedef":
		return tf.VerifTYPEDEF
	case "enum":
		return tf.VerifENUM
	case "struct":
		return tf.VerifSTRUCT
	case "union":
		return tf.VerifUNION
	case "exception":
		return tf.VerifEXCEPTION
	case "service":
		return tf.VerifSERVICE
	case "required":
		return tf.VerifREQUIRED
	case "optional":
		return tf.VerifOPTIONAL
	case "extends":
		return tf.VerifEXTENDS
	case "oneway":
		return tf.VerifONEWAY
	case "void":
		return tf.VerifVOID
	case "throws":
		return tf.VerifTHROWS
	case "map":
		return tf.VerifMAP
	case "set":
		return tf.VerifSET
	case "list":
		return tf.VerifLIST
	}
	return tf.VerifIDENT
}

// kind is the kind of the lexeme consumed, if it is one.
func (m *mon) kind(src []byte) (tf.VerifToken, bool) {
	switch m.at {
	case start:
		return tf.VerifEOF, m.ch < 0
	case ident:
		return keyword(string(src[m.from:m.off])), true
	case zero, whole, hexa:
		return tf.VerifINT, true
	case frac, exp, expSign, expDig:
		return tf.VerifFLOAT, true
	case sign:
		if m.quote == '+' {
			return tf.VerifADD, true
		}
		return tf.VerifSUB, true
	case equal:
		return tf.VerifASSIGN, true
	case slash:
		return tf.VerifQUO, true
	case line:
		return tf.VerifCOMMENT, true
	case block, star:
		return tf.VerifCOMMENT, m.ch < 0
	case text, escape:
		return tf.VerifSTRING, m.ch < 0
	case whole1:
		switch {
		case m.quote == '"' || m.quote == '\'':
			return tf.VerifSTRING, true
		case m.quote == '/':
			return tf.VerifCOMMENT, true
		}
		return m.tok, true
	}
	return 0, false
}

// HNext: next passes over one token.
//
//gv:harness lex/Next props=C18,C19,C20,C21 default=C18,C19
//gv:symbolic
//gv:merge
//gv:peel
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.scanner).next
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.scanner).lit
func HNext() {
	src := gv.Bytes()
	m := &mon{n: len(src), base: gv.Int(), off: gv.Int(), ch: gv.Int32(), at: start, eaten: gv.Int()}
	rd := m.n
	gv.Assume(1 <= m.base && m.base <= 1<<40 && 0 <= m.off && m.off <= m.n)
	if m.off < m.n {
		w := gv.Int()
		gv.Assume(0 <= m.ch && m.ch <= 0x10ffff && 1 <= w && w <= 4 && w <= m.n-m.off)
		rd = m.off + w
	} else {
		gv.Assume(m.ch == -1)
	}
	cur = m
	s := tf.VerifLexer(new(gotoken.File), src, report, m.ch, m.off, rd)
	gv.Progress("C18,C19", "scanning advances", &m.eaten)
	tf.VerifNext(s)
	tok, pos := tf.VerifTok(s)
	from := m.from
	if m.at == start {
		from = m.off
	}
	gv.Ensure("C18,C21", "a token begins where its first character is", int(pos) == m.base+from)
	if m.bad && m.ch >= 0 {
		gv.Reach("malformed string")
		gv.Ensure("C18", "a malformed string ends where the error is", m.at == text || m.at == escape)
		return
	}
	gv.Ensure("C21", "every error is reported", !m.wrong() || m.errs > 0)
	gv.Ensure("C18,C20", "the text of the token is its lexeme", tf.VerifLit(s) == string(src[from:m.off]))
	k, ok := m.kind(src)
	gv.Ensure("C18,C20", "what is consumed is a whole lexeme", ok)
	gv.Ensure("C18,C20", "the lexeme is the longest one", m.at == start || m.step(m.ch) < 0)
	gv.Ensure("C18,C20", "the token is of the kind of its lexeme", tok == k)
	gv.Reach("token")
}

// decode is the first rune of a non-empty UTF-8 text and its width; ok is
// false if the text does not begin with a well-formed rune.
func decode(p []byte) (r rune, w int, ok bool) {
	c := p[0]
	switch {
	case c < 0x80:
		return rune(c), 1, true
	case c >= 0xc2 && c <= 0xdf:
		w, r = 2, rune(c)-0xc0
	case c >= 0xe0 && c <= 0xef:
		w, r = 3, rune(c)-0xe0
	case c >= 0xf0 && c <= 0xf4:
		w, r = 4, rune(c)-0xf0
	}
	if w == 0 || len(p) < w {
		return 0xfffd, 1, false
	}
	for i := 1; i < w; i++ {
		if p[i] < 0x80 || p[i] > 0xbf {
			return 0xfffd, 1, false
		}
		r = r*64 + rune(p[i]) - 0x80
	}
	switch { // overlong, surrogate or too large
	case w == 3 && r < 0x800 || w == 4 && r < 0x10000 || r >= 0xd800 && r <= 0xdfff || r > 0x10ffff:
		return 0xfffd, 1, false
	}
	return r, w, true
}

// reading follows nextch.
type reading struct {
	errs, at   int
	lines, beg int
}

var rdg *reading

// AddLine records where a line begins.
//
//gv:contract (*go/token.File).AddLine
func addLine(f *gotoken.File, offset int) {
	rdg.lines++
	rdg.beg = offset
}

func note(pos gotoken.Position, msg string) {
	rdg.errs++
	rdg.at = pos.Offset
}

// after states what nextch has done.
func (g *reading) after(s *tf.VerifScanner, src []byte, ch rune, rd int, first bool) {
	r, off, end := tf.VerifAt(s)
	lines := 0
	if ch == '\n' {
		lines = 1
		gv.Ensure("C18,C21", "a line begins after the newline", g.lines == 1 && g.beg == off)
	}
	gv.Ensure("C18,C21", "no other line begins", g.lines == lines)
	gv.Ensure("C18", "the next rune is the one that follows", off == rd)
	if rd == len(src) {
		gv.Ensure("C18", "the source ends where it does", r == -1 && end == rd)
		gv.Ensure("C18,C21", "no error at the end", g.errs == 0)
		gv.Reach("end")
		return
	}
	want, w, ok := decode(src[rd:])
	gv.Ensure("C18", "the rune is the one of the source", r == want && end == rd+w)
	gv.Ensure("C18", "a rune is within the source", 1 <= w && w <= 4 && end <= len(src) && 0 <= r && r <= 0x10ffff)
	errs := 0
	if want == 0 || !ok || want == 0xfeff && !first {
		errs = 1
		gv.Ensure("C18,C21", "an illegal character is reported where it is", g.errs == 1 && g.at == off)
	}
	gv.Ensure("C18,C21", "a legal character is no error", g.errs == errs)
	gv.Reach("rune")
}

// HNextch: nextch decodes one rune.
//
//gv:harness lex/Nextch props=C18,C21 default=C18
//gv:symbolic
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.scanner).nextch
func HNextch() {
	src := gv.Bytes()
	cur = &mon{n: len(src), base: gv.Int()}
	gv.Assume(1 <= cur.base && cur.base <= 1<<40)
	ch, off, rd := gv.Int32(), gv.Int(), gv.Int()
	gv.Assume(0 <= off && off <= rd && rd <= len(src))
	rdg = new(reading)
	s := tf.VerifLexer(new(gotoken.File), src, note, ch, off, rd)
	tf.VerifNextch(s)
	rdg.after(s, src, ch, rd, rd == 0)
}

// HInit: init goes to the first rune, past a byte order mark.
//
//gv:harness lex/Init props=C18,C21 default=C18
//gv:symbolic
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.scanner).nextch
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.scanner).init
func HInit() {
	src := gv.Bytes()
	cur = &mon{n: len(src), base: gv.Int()}
	gv.Assume(1 <= cur.base && cur.base <= 1<<40)
	rdg = new(reading)
	s := tf.VerifLexer(nil, nil, nil, gv.Int32(), gv.Int(), gv.Int())
	tf.VerifInit(s, new(gotoken.File), src, note)
	if len(src) >= 3 && src[0] == 0xef && src[1] == 0xbb && src[2] == 0xbf {
		gv.Reach("mark")
		rdg.after(s, src, ' ', 3, false)
		return
	}
	rdg.after(s, src, ' ', 0, false)
}
