// Package top proves what binds the scanner and the parser together: comments
// are passed over, and every error found by either is in the error returned.
package top

import (
	gotoken "go/token"
	"sort"

	"vspec/gv"

	tf "github.com/itstarsun/go-thrift/tools/thriftfile"
)

// mon follows the parser.
type mon struct {
	n, base int // the file
	eaten   int // tokens scanned
	tok     tf.VerifToken
	any     bool // a token has been scanned by the call at hand

	// errors
	file    *gotoken.File
	src     []byte
	started int // times the scanner has been started
	nexts   int // calls of next
	parsed  int // files parsed
	result  *tf.File
	errs    []*tf.VerifError // the errors added
	due     int              // errors yet to be added
	off     int              // where
	msg     string
	anymsg  bool
	sorted  int // length of the list when it was sorted last, or -1
}

var cur *mon

func someToken() tf.VerifToken {
	t := tf.VerifToken(gv.Byte())
	gv.Assume(t < tf.VerifLast)
	gv.Assume(t != tf.VerifMark1)
	gv.Assume(t != tf.VerifMark2)
	gv.Assume(t != tf.VerifMark3)
	gv.Assume(t != tf.VerifMark4)
	gv.Assume(t != tf.VerifMark5)
	return t
}

// snext scans a token.
//
//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.scanner).next
func snext(s *tf.VerifScanner) {
	m := cur
	gv.Ensure("C20", "only comments are passed over", !m.any || m.tok == tf.VerifCOMMENT)
	m.any = true
	gv.Assume(m.eaten < 1<<60) // there are no more tokens than bytes
	m.eaten++
	m.tok = someToken()
	tf.VerifSetTok(s, m.tok, gotoken.Pos(gv.Int()))
}

// HNextToken: the parser passes over a token and the comments after it.
//
//gv:harness top/NextToken props=C19,C20 default=C19
//gv:symbolic
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).next
func HNextToken() {
	m := &mon{eaten: gv.Int()}
	gv.Assume(0 <= m.eaten && m.eaten < 1<<59)
	cur = m
	gv.Progress("C19", "parsing advances", &m.eaten)
	p := tf.VerifNewParser(new(gotoken.File), tf.VerifToken(gv.Byte()), 1, 0)
	tf.VerifParserNext(p)
	tok, _ := tf.VerifParserTok(p)
	gv.Ensure("C20", "the parser is at the next token", m.any && tok == m.tok)
	gv.Ensure("C20", "comments are passed over", tok != tf.VerifCOMMENT)
}

//gv:contract (*go/token.File).Pos
func filePos(f *gotoken.File, off int) gotoken.Pos {
	gv.Ensure("C19,C21", "a position is one of the file", 0 <= off && off <= cur.n)
	return gotoken.Pos(cur.base + off)
}

//gv:contract (*go/token.File).Position
func filePosition(f *gotoken.File, p gotoken.Pos) gotoken.Position {
	gv.Ensure("C19,C21", "a position is one of the file", cur.base <= int(p) && int(p) <= cur.base+cur.n)
	return gotoken.Position{Offset: int(p) - cur.base}
}

func (m *mon) in() {
	m.n, m.base = gv.Int(), gv.Int()
	gv.Assume(0 <= m.n && m.n <= 1<<40 && 1 <= m.base && m.base <= 1<<40)
	cur = m
}

// list is an arbitrary list of errors.
func list() (l tf.VerifErrors) {
	for gv.Loop() {
		l = append(l, some())
	}
	return l
}

func some() *tf.VerifError { return tf.VerifNewError(somewhere(), gv.String()) }

func somewhere() gotoken.Position {
	return gotoken.Position{Filename: gv.String(), Offset: gv.Int(), Line: gv.Int(), Column: gv.Int()}
}

// HLess: errors are ordered by file, line, column and message.
//
//gv:harness top/Less props=C21 default=C21
//gv:symbolic
//gv:real (github.com/itstarsun/go-thrift/tools/thriftfile.errors_).Less
func HLess() {
	a, b := some(), some()
	l := tf.VerifErrors{a, b}
	i, j := 0, 1
	if gv.Bool() {
		i, j = j, i
	}
	p, pm := tf.VerifErrorOf(l[i])
	q, qm := tf.VerifErrorOf(l[j])
	want := p.Filename < q.Filename ||
		p.Filename == q.Filename && (p.Line < q.Line ||
			p.Line == q.Line && (p.Column < q.Column ||
				p.Column == q.Column && pm < qm))
	gv.Ensure("C21", "errors are ordered by file, line, column and message", tf.VerifLess(l, i, j) == want)
	gv.Ensure("C21", "the length is that of the list", tf.VerifLen(l) == 2)
	tf.VerifSwap(l, i, j)
	gv.Ensure("C21", "sorting exchanges errors", l[0] == b && l[1] == a)
}

// sorting sorts a list. What it does to it is decided by Len, Less and Swap.
//
//gv:contract sort.Sort
func sorting(data sort.Interface) { sorted(data) }

//gv:contract sort.Stable
func stable(data sort.Interface) { sorted(data) }

func sorted(data sort.Interface) {
	l, ok := data.(tf.VerifErrors)
	gv.Ensure("C21", "errors are sorted in their order", ok)
	cur.sorted = len(l)
}

// adding adds an error.
//
//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.errors_).add
func adding(p *tf.VerifErrors, pos gotoken.Position, msg string) {
	cur.record(p, pos, msg)
}

// record: an error is recorded.
func (m *mon) record(p *tf.VerifErrors, pos gotoken.Position, msg string) {
	gv.Ensure("C21", "an error is recorded once", m.due == 1)
	gv.Ensure("C21", "an error is recorded where it is", pos.Offset == m.off)
	gv.Ensure("C21", "an error is recorded as it is", m.anymsg || msg == m.msg)
	m.due--
	e := tf.VerifNewError(pos, msg)
	*p = append(*p, e)
	m.errs = append(m.errs, e)
}

// perror is an error of the parser.
//
//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).error
func perror(p *tf.VerifParser, pos gotoken.Pos, msg string) {
	cur.record(tf.VerifErrs(p), filePosition(nil, pos), msg)
}

// HAdd: an error is added to the list, and the list is an error unless it is
// empty.
//
//gv:harness top/Add props=C21 default=C21
//gv:symbolic
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.errors_).add
func HAdd() {
	l := list()
	n := len(l)
	gv.Ensure("C21", "an error is returned exactly if there is one", (tf.VerifErr(l) == nil) == (n == 0))
	if n > 0 {
		e, ok := tf.VerifErr(l).(tf.VerifErrors)
		gv.Ensure("C21", "every error is returned", ok && len(e) == n)
	}
	i := gv.Int()
	gv.Assume(0 <= i && i < n)
	x := l[i]
	pos, msg := somewhere(), gv.String()
	tf.VerifAdd(&l, pos, msg)
	gv.Ensure("C21", "an error is added", len(l) == n+1)
	gv.Ensure("C21", "the others stay", l[i] == x)
	q, qm := tf.VerifErrorOf(l[n])
	gv.Ensure("C21", "the error is recorded as it is", q == pos && qm == msg)
}

// HError: an error of the parser is recorded at its position.
//
//gv:harness top/Error props=C21 default=C21
//gv:symbolic
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).error
func HError() {
	m := new(mon)
	m.in()
	m.off, m.due, m.msg = gv.Int(), 1, gv.String()
	gv.Assume(0 <= m.off && m.off <= m.n)
	p := tf.VerifNewParser(new(gotoken.File), someToken(), 1, 0)
	*tf.VerifErrs(p) = list()
	tf.VerifParserError(p, gotoken.Pos(m.base+m.off), m.msg)
	gv.Ensure("C21", "an error is recorded once", m.due == 0)
}

// lit is the text of a token.
//
//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.scanner).lit
func lit(s *tf.VerifScanner) string { return gv.String() }

// String names a token. That it names every token is proved with the codes.
//
//gv:contract (github.com/itstarsun/go-thrift/tools/thriftfile.token).String
func tokenString(t tf.VerifToken) string { return gv.String() }

// HErrorExpected: a syntax error is recorded at its position.
//
//gv:harness top/ErrorExpected props=C19,C21 default=C19
//gv:symbolic
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).errorExpected
func HErrorExpected() {
	m := new(mon)
	m.in()
	m.off, m.due, m.anymsg = gv.Int(), 1, true
	gv.Assume(0 <= m.off && m.off <= m.n)
	p := tf.VerifNewParser(new(gotoken.File), someToken(), gotoken.Pos(gv.Int()), 0)
	*tf.VerifErrs(p) = list()
	tf.VerifErrorExpected(p, gotoken.Pos(m.base+m.off), gv.String())
	gv.Ensure("C21", "an error is recorded once", m.due == 0)
}

// AddFile adds the file to a set.
//
//gv:contract (*go/token.FileSet).AddFile
func addFile(s *gotoken.FileSet, name string, base, size int) *gotoken.File {
	m := cur
	gv.Ensure("C21", "the file is the one that is parsed", m.file == nil && name == m.msg)
	gv.Ensure("C19,C21", "the file is as large as it is", base == -1 && size == m.n)
	m.file = new(gotoken.File)
	return m.file
}

// scan finds any number of errors anywhere in the source.
func (m *mon) scan(s *tf.VerifScanner) {
	err := tf.VerifErrFunc(s)
	for gv.Loop() {
		m.due, m.off = 1, gv.Int()
		gv.Assume(0 <= m.off && m.off <= m.n)
		m.msg = gv.String()
		err(gotoken.Position{Offset: m.off}, m.msg)
		gv.Ensure("C21", "no error is dropped", m.due == 0)
	}
}

// sinit starts the scanner, which may find errors already.
//
//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.scanner).init
func sinit(s *tf.VerifScanner, file *gotoken.File, src []byte, err func(pos gotoken.Position, msg string)) {
	m := cur
	m.started++
	gv.Ensure("C20,C21", "what is scanned is the file", m.started == 1 && file != nil && file == m.file && len(src) == m.n && gv.EqBytes(src, m.src))
	tf.VerifSetErrFunc(s, file, err)
	m.scan(s)
}

//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).next
func pnext(p *tf.VerifParser) {
	m := cur
	m.nexts++
	gv.Ensure("C20", "parsing begins with the first token", m.started == 1 && m.nexts == 1)
	m.scan(tf.VerifScannerOf(p))
}

//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).file_
func file(p *tf.VerifParser) *tf.File {
	m := cur
	m.parsed++
	gv.Ensure("C20", "parsing begins with the first token", m.nexts == 1 && m.parsed == 1)
	m.scan(tf.VerifScannerOf(p))
	for gv.Loop() {
		m.due, m.off = 1, gv.Int()
		gv.Assume(0 <= m.off && m.off <= m.n)
		m.msg = gv.String()
		tf.VerifParserError(p, gotoken.Pos(m.base+m.off), m.msg)
	}
	m.result = new(tf.File)
	return m.result
}

// HParse: the file is parsed, and all its errors are returned.
//
//gv:harness top/Parse props=C19,C20,C21 default=C19
//gv:symbolic
//gv:real github.com/itstarsun/go-thrift/tools/thriftfile.Parse
func HParse() {
	m := new(mon)
	m.in()
	m.src = gv.Bytes()
	gv.Assume(len(m.src) == m.n)
	m.sorted = -1
	m.msg = gv.String()
	f, err := tf.Parse(new(gotoken.FileSet), m.msg, m.src)
	gv.Ensure("C19,C20", "the file is what was parsed", f != nil && f == m.result && m.parsed == 1)
	gv.Ensure("C21", "the error is nil exactly if there is none", (err == nil) == (len(m.errs) == 0))
	if err == nil {
		gv.Reach("no errors")
		return
	}
	e, ok := err.(tf.VerifErrors)
	gv.Ensure("C21", "every error is returned", ok && len(e) == len(m.errs))
	gv.Ensure("C21", "the errors are sorted", m.sorted == len(e))
	if i := gv.Int(); 0 <= i && i < len(e) {
		gv.Reach("error")
		gv.Ensure("C21", "every error is returned", e[i] == m.errs[i])
	}
}
