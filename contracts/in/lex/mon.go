// Package lex proves the scanner: next consumes, rune by rune, the longest
// lexeme of the lexical grammar, and nextch reads the runes of the source.
package lex

import (
	gotoken "go/token"
	"unicode"

	"vspec/gv"

	tf "github.com/itstarsun/go-thrift/tools/thriftfile"
)

// The state of the automaton of the lexical grammar: what has been consumed
// of the lexeme.
const (
	start   = iota // nothing but blanks and characters that cannot begin a token
	ident          // letters and digits
	zero           // [sign] 0
	whole          // [sign] digits
	hexa           // [sign] 0x hex digits
	frac           // [sign] digits . digits
	exp            // ... e
	expSign        // ... e sign
	expDig         // ... e [sign] digits
	text           // quote characters
	escape         // quote characters backslash
	sign           // + or -
	equal          // =
	slash          // /
	line           // // or # characters
	block          // /* characters
	star           // /* characters *
	whole1         // a token that nothing can extend
)

// mon follows the scanner.
type mon struct {
	n     int // length of the source
	base  int
	ch    rune // the next rune
	off   int  // its offset
	at    int
	from  int // offset of the lexeme
	tok   tf.VerifToken
	quote rune
	eaten int // runes consumed
	errs  int // errors reported at off
	bad   bool
	last  int // not joining the paths of step keeps its results apart
}

var cur *mon

func digit(r rune) bool { return '0' <= r && r <= '9' }
func hex(r rune) bool   { return digit(r) || 'a' <= r && r <= 'f' || 'A' <= r && r <= 'F' }
func letter(r rune) bool {
	return r == '_' || 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' || r >= 128 && unicode.IsLetter(r)
}
func udigit(r rune) bool { return r >= 128 && unicode.IsDigit(r) }

// op is the operator that a rune is by itself, or zero.
func op(r rune) tf.VerifToken {
	switch r {
	case '*':
		return tf.VerifMUL
	case '%':
		return tf.VerifREM
	case '&':
		return tf.VerifAND
	case '|':
		return tf.VerifOR
	case '^':
		return tf.VerifXOR
	case '<':
		return tf.VerifLSS
	case '>':
		return tf.VerifGTR
	case '!':
		return tf.VerifNOT
	case '(':
		return tf.VerifLPAREN
	case '[':
		return tf.VerifLBRACK
	case '{':
		return tf.VerifLBRACE
	case ',':
		return tf.VerifCOMMA
	case '.':
		return tf.VerifPERIOD
	case ')':
		return tf.VerifRPAREN
	case ']':
		return tf.VerifRBRACK
	case '}':
		return tf.VerifRBRACE
	case ';':
		return tf.VerifSEMICOLON
	case ':':
		return tf.VerifCOLON
	}
	return 0
}

// step is the state after the rune, or -1 if it is not part of the lexeme.
func (m *mon) step(r rune) int {
	m.last = m.off
	switch m.at {
	case start:
		switch {
		case r == ' ' || r == '\t' || r == '\r' || r == '\n':
			return start
		case letter(r) || udigit(r):
			return ident
		case r == '0':
			return zero
		case digit(r):
			return whole
		case r == '"' || r == '\'':
			return text
		case r == '+' || r == '-':
			return sign
		case r == '=':
			return equal
		case r == '/':
			return slash
		case r == '#':
			return line
		case op(r) != 0:
			return whole1
		}
		return start // an invalid character
	case ident:
		if letter(r) || digit(r) || udigit(r) || r == '.' {
			return ident
		}
	case sign:
		if r == '0' {
			return zero
		}
		if digit(r) {
			return whole
		}
	case zero, whole:
		switch {
		case m.at == zero && (r == 'x' || r == 'X'):
			return hexa
		case digit(r):
			return whole
		case r == '.':
			return frac
		case r == 'e' || r == 'E':
			return exp
		}
	case hexa:
		if hex(r) {
			return hexa
		}
	case frac:
		switch {
		case digit(r):
			return frac
		case r == 'e' || r == 'E':
			return exp
		}
	case exp:
		switch {
		case r == '+' || r == '-':
			return expSign
		case digit(r):
			return expDig
		}
	case expSign, expDig:
		if digit(r) {
			return expDig
		}
	case text:
		switch {
		case r == m.quote:
			return whole1
		case r == '\\':
			return escape
		case r >= 0 && r != '\n':
			return text
		}
	case escape:
		switch r {
		case m.quote, '\\', 'n', 'r', 't':
			return text
		}
	case equal:
		if r == '=' {
			return whole1
		}
	case slash:
		switch r {
		case '/':
			return line
		case '*':
			return block
		}
	case line:
		if r >= 0 && r != '\n' {
			return line
		}
	case block, star:
		switch {
		case m.at == star && r == '/':
			return whole1
		case r == '*':
			return star
		case r >= 0:
			return block
		}
	}
	return -1
}

// wrong: an error is to be reported at the next rune.
func (m *mon) wrong() bool {
	r := m.ch
	switch m.at {
	case start:
		return r >= 0 && !letter(r) && !digit(r) && op(r) == 0 && r != ' ' && r != '\t' && r != '\r' && r != '\n' &&
			r != '"' && r != '\'' && r != '+' && r != '-' && r != '=' && r != '/' && r != '#'
	case text:
		return r < 0 || r == '\n'
	case escape:
		return r >= 0 && r != m.quote && r != '\\' && r != 'n' && r != 'r' && r != 't' || r < 0
	case block, star:
		return r < 0
	}
	return false
}

// consume passes over the next rune.
func (m *mon) consume() {
	if m.ch < 0 {
		if m.at == star {
			m.at = block
		}
		return // there is nothing to pass over
	}
	w := m.wrong()
	gv.Ensure("C21,C18", "an error is reported where it is", !w || m.errs > 0)
	to := m.step(m.ch)
	gv.Ensure("C18", "what is consumed belongs to the lexeme", to >= 0)
	if m.at == start {
		m.from = m.off
		m.quote = m.ch
		m.tok = op(m.ch)
	}
	if m.at == equal {
		m.tok = tf.VerifEQL
	}
	m.at = to
	m.errs = 0
	gv.Assume(m.eaten < 1<<60) // there are no more runes than bytes
	m.eaten++
}

// nextch reads the next rune of the source.
//
//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.scanner).nextch
func nextch(s *tf.VerifScanner) {
	m := cur
	m.consume()
	ch, off, rd := tf.VerifAt(s)
	gv.Ensure("", "the scanner's position is its own", ch == m.ch && off == m.off)
	gv.Ensure("", "the scanner's position is one of the source", 0 <= m.off && m.off <= rd && rd <= m.n)
	if m.ch < 0 {
		return
	}
	m.off = rd
	if rd < m.n {
		m.ch = gv.Int32()
		w := gv.Int()
		gv.Assume(0 <= m.ch && m.ch <= 0x10ffff && 1 <= w && w <= 4 && w <= m.n-rd)
		rd += w
	} else {
		m.ch = -1
		if m.at == escape {
			m.at = text // what is missing is the end of the string
		}
	}
	tf.VerifMove(s, m.ch, m.off, rd)
}

// The positions of the file are its offsets counted from base.

//gv:contract (*go/token.File).Pos
func filePos(f *gotoken.File, off int) gotoken.Pos {
	gv.Ensure("C21", "a position is one of the file", 0 <= off && off <= cur.n)
	return gotoken.Pos(cur.base + off)
}

//gv:contract (*go/token.File).Offset
func fileOffset(f *gotoken.File, p gotoken.Pos) int {
	gv.Ensure("C21", "a position is one of the file", cur.base <= int(p) && int(p) <= cur.base+cur.n)
	return int(p) - cur.base
}

//gv:contract (*go/token.File).Position
func filePosition(f *gotoken.File, p gotoken.Pos) gotoken.Position {
	gv.Ensure("C21", "a position is one of the file", cur.base <= int(p) && int(p) <= cur.base+cur.n)
	return gotoken.Position{Offset: int(p) - cur.base}
}

// report is an error the scanner reports.
func report(pos gotoken.Position, msg string) {
	m := cur
	gv.Ensure("C21,C18", "an error is reported only where there is one, once", m.wrong() && m.errs == 0)
	gv.Ensure("C21", "an error is reported where it is", pos.Offset == m.off)
	m.errs++
	m.bad = m.at != start
}
