// Package idl specifies the Thrift IDL: its lexical grammar, its syntax and
// the errors to be reported.
package idl

import (
	"unicode"
	"unicode/utf8"
)

// Tok is a token: Kind is IDENT, INT, FLOAT, STRING, COMMENT, EOF or the text
// of an operator or keyword; the lexeme is src[Off:End].
type Tok struct {
	Kind     string
	Off, End int
}

// Lexed is the outcome of scanning a whole file.
type Lexed struct {
	Toks []Tok
	Errs []int // offset of every lexical error
	// Stale is set after an unterminated line of a string or a bad escape:
	// the kind of the token scanned is then unspecified.
	Stale bool
}

var keywords = map[string]bool{"include": true, "namespace": true, "const": true, "typedef": true, "enum": true, "struct": true,
	"union": true, "exception": true, "service": true, "required": true, "optional": true, "extends": true, "oneway": true,
	"void": true, "throws": true, "map": true, "set": true, "list": true}

var definitions = map[string]bool{"const": true, "typedef": true, "enum": true, "struct": true, "union": true, "exception": true, "service": true}

func runeAt(src []byte, i int) (rune, int) {
	if i >= len(src) {
		return -1, 0
	}
	return utf8.DecodeRune(src[i:])
}

func identChar(r rune) bool {
	return r == '_' || r == '.' || r >= 0 && (unicode.IsLetter(r) || unicode.IsDigit(r))
}

// span skips the longest run of runes satisfying f.
func span(src []byte, i int, f func(rune) bool) int {
	for {
		r, w := runeAt(src, i)
		if r < 0 || !f(r) {
			return i
		}
		i += w
	}
}

func digit(r rune) bool { return '0' <= r && r <= '9' }
func hex(r rune) bool   { return digit(r) || 'a' <= r && r <= 'f' || 'A' <= r && r <= 'F' }
func notNL(r rune) bool { return r != '\n' }

// number is the end of the number starting at i (after its sign).
func number(src []byte, i int) (string, int) {
	at := func(i int) byte {
		if i < len(src) {
			return src[i]
		}
		return 0
	}
	if at(i) == '0' && (at(i+1) == 'x' || at(i+1) == 'X') {
		return "INT", span(src, i+2, hex)
	}
	kind := "INT"
	i = span(src, i, digit)
	if at(i) == '.' {
		kind = "FLOAT"
		i = span(src, i+1, digit)
	}
	if at(i) == 'e' || at(i) == 'E' {
		kind = "FLOAT"
		i++
		if at(i) == '+' || at(i) == '-' {
			i++
		}
		i = span(src, i, digit)
	}
	return kind, i
}

const operators = "+-*/%&|^=<>!([{,.)]};:"

// Lex scans src.
func Lex(src []byte) (x Lexed) {
	// Errors of single characters are reported wherever they are.
	for i := 0; i < len(src); {
		r, w := runeAt(src, i)
		if r == 0 || r == utf8.RuneError && w == 1 || r == 0xfeff && i > 0 {
			x.Errs = append(x.Errs, i)
		}
		i += w
	}
	i := 0
	if r, w := runeAt(src, 0); r == 0xfeff {
		i = w
	}
	last := "ILLEGAL"
	for {
		for i < len(src) && (src[i] == ' ' || src[i] == '\t' || src[i] == '\r' || src[i] == '\n') {
			i++
		}
		t := Tok{Off: i}
		r, w := runeAt(src, i)
		n, _ := runeAt(src, i+w)
		switch {
		case r < 0:
			t.Kind, t.End = "EOF", i
		case r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) && !digit(r):
			if unicode.IsDigit(r) {
				x.Errs = append(x.Errs, i) // cannot begin an identifier
			}
			t.Kind, t.End = "IDENT", span(src, i, identChar)
			if keywords[string(src[i:t.End])] {
				t.Kind = string(src[i:t.End])
			}
		case digit(r):
			t.Kind, t.End = number(src, i)
		case (r == '+' || r == '-') && digit(n):
			t.Kind, t.End = number(src, i+1)
		case r == '"' || r == '\'':
			t.Kind, t.End = "STRING", i+1
		str:
			for {
				c, cw := runeAt(src, t.End)
				switch {
				case c < 0:
					x.Errs = append(x.Errs, t.End)
					break str
				case c == r:
					t.End += cw
					break str
				case c == '\n':
					x.Errs = append(x.Errs, t.End)
					t.Kind, x.Stale = last, true
					break str
				case c == '\\':
					t.End += cw
					e, ew := runeAt(src, t.End)
					switch {
					case e < 0:
					case e == r || e == '\\' || e == 'n' || e == 'r' || e == 't':
						t.End += ew
					default:
						x.Errs = append(x.Errs, t.End)
						t.Kind, x.Stale = last, true
						break str
					}
				default:
					t.End += cw
				}
			}
		case r == '#' || r == '/' && n == '/':
			t.Kind, t.End = "COMMENT", span(src, i, notNL)
		case r == '/' && n == '*':
			t.Kind, t.End = "COMMENT", len(src)
			closed := false
			for j := i + 2; j+1 < len(src); j++ {
				if src[j] == '*' && src[j+1] == '/' {
					t.End, closed = j+2, true
					break
				}
			}
			if !closed {
				x.Errs = append(x.Errs, len(src))
			}
		case r == '=' && n == '=':
			t.Kind, t.End = "==", i+2
		default:
			op := false
			for j := 0; j < len(operators); j++ {
				op = op || rune(operators[j]) == r
			}
			if !op {
				x.Errs = append(x.Errs, i)
				i += w
				continue
			}
			t.Kind, t.End = string(r), i+1
		}
		x.Toks = append(x.Toks, t)
		last = t.Kind
		i = t.End
		if t.Kind == "EOF" && r < 0 {
			return x
		}
	}
}

// Pos is the line and column of an offset.
func Pos(src []byte, off int) (line, col int) {
	line, col = 1, 1
	for i := 0; i < off; i++ {
		col++
		if src[i] == '\n' {
			line, col = line+1, 1
		}
	}
	return
}
