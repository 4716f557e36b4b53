// Package parse proves the parser: every production consumes exactly the
// tokens of a phrase of its grammar and records it in its node, or reports an
// error where the source departs from the grammar.
package parse

import (
	gotoken "go/token"

	"vspec/gv"

	tf "github.com/itstarsun/go-thrift/tools/thriftfile"
)

// The symbols of the grammar are the tokens and the phrases.
const (
	nName = 1000 + iota // the name of a field: an identifier or a keyword
	nType
	nValue
	nFields // { fields }
	nParams // ( fields )
	nField
	nEnumValues
	nEnumValue
	nMethods
	nMethod
	nAnnotations
	nAnnotation
	nPair
	nHeader
	nConst
	nTypedef
	nEnum
	nStruct
	nService
	nDef
)

// A rule is a transition of the automaton of a production.
type rule struct{ from, sym, to int }

// A grammar is the automaton of a production: it starts in state 0 and ends
// in one of its final states.
type grammar struct {
	rules []rule
	final []int
}

func (g *grammar) step(at, sym int) int {
	for _, r := range g.rules {
		if r.from == at && r.sym == sym {
			return r.to
		}
	}
	return -1
}

func keyword(t tf.VerifToken) bool {
	switch t {
	case tf.VerifINCLUDE, tf.VerifNAMESPACE, tf.VerifCONST, tf.VerifTYPEDEF, tf.VerifENUM, tf.VerifSTRUCT,
		tf.VerifUNION, tf.VerifEXCEPTION, tf.VerifSERVICE, tf.VerifREQUIRED, tf.VerifOPTIONAL, tf.VerifEXTENDS,
		tf.VerifONEWAY, tf.VerifVOID, tf.VerifTHROWS, tf.VerifMAP, tf.VerifSET, tf.VerifLIST:
		return true
	}
	return false
}

func definition(t tf.VerifToken) bool {
	switch t {
	case tf.VerifCONST, tf.VerifTYPEDEF, tf.VerifENUM, tf.VerifSTRUCT,
		tf.VerifUNION, tf.VerifEXCEPTION, tf.VerifSERVICE:
		return true
	}
	return false
}

func typ(t tf.VerifToken) bool {
	return t == tf.VerifIDENT || t == tf.VerifMAP || t == tf.VerifSET || t == tf.VerifLIST
}

func value(t tf.VerifToken) bool {
	return t == tf.VerifIDENT || t == tf.VerifINT || t == tf.VerifFLOAT || t == tf.VerifSTRING ||
		t == tf.VerifLBRACK || t == tf.VerifLBRACE
}

// first: the phrase can begin with the token.
func first(sym int, t tf.VerifToken) bool {
	switch sym {
	case nName:
		return t == tf.VerifIDENT || keyword(t)
	case nType:
		return typ(t)
	case nValue, nPair:
		return value(t)
	case nFields, nEnumValues, nMethods:
		return t == tf.VerifLBRACE
	case nParams, nAnnotations:
		return t == tf.VerifLPAREN
	case nField:
		return typ(t) || t == tf.VerifINT || t == tf.VerifREQUIRED || t == tf.VerifOPTIONAL
	case nEnumValue, nAnnotation:
		return t == tf.VerifIDENT
	case nMethod:
		return typ(t) || t == tf.VerifONEWAY || t == tf.VerifVOID
	case nHeader:
		return t == tf.VerifINCLUDE || t == tf.VerifNAMESPACE
	case nConst:
		return t == tf.VerifCONST
	case nTypedef:
		return t == tf.VerifTYPEDEF
	case nEnum:
		return t == tf.VerifENUM
	case nStruct:
		return t == tf.VerifSTRUCT || t == tf.VerifUNION || t == tf.VerifEXCEPTION
	case nService:
		return t == tf.VerifSERVICE
	case nDef:
		return definition(t)
	}
	return sym == int(t)
}

// mon follows a production.
type mon struct {
	g     *grammar
	at    int // state of the automaton, or -1 after an error has been reported
	eaten int // tokens consumed
	tok   tf.VerifToken
	pos   gotoken.Pos
	lit   string // text of the token
	lits  [16]string
	seen  [16]bool // states passed through
	start int      // tokens consumed before
	depth int      // depth at which the production was entered
	rec   bool     // phrases in it are deeper
	gone  bool     // the definition has been abandoned
	file  bool     // the depth does not matter

	typs    [3]tf.Type
	vals    [3]tf.Value
	ntyp    int
	nval    int
	anns    *tf.AnnotationList
	fields  *tf.FieldList
	throws  *tf.FieldList
	enums   *tf.EnumValueList
	methods *tf.MethodList

	fieldList  []*tf.Field
	enumList   []*tf.EnumValue
	methodList []*tf.Method
	annList    []*tf.Annotation
	valueList  []tf.Value
	pairList   []*tf.KeyValuePair
	headers    []tf.Header // all headers
	earlier    []tf.Header // all headers, but the latest until it has been dealt with
	latest     tf.Header
	defs       []tf.Def
}

var cur *mon

// accepts: the source may go on with the token.
func (m *mon) accepts(t tf.VerifToken) bool {
	for _, r := range m.g.rules {
		if r.from == m.at && first(r.sym, t) {
			return true
		}
	}
	return false
}

// advance moves the parser to an arbitrary token.
func (m *mon) advance(p *tf.VerifParser) {
	if m.tok == tf.VerifEOF {
		return // there is nothing to pass over
	}
	gv.Assume(m.eaten < 1<<60) // there are no more tokens than bytes
	m.eaten++
	m.tok, m.pos = someToken(), gotoken.Pos(gv.Int())
	m.lit = gv.String()
	tf.VerifParserSet(p, m.tok, m.pos)
}

func someToken() tf.VerifToken {
	t := tf.VerifToken(gv.Byte())
	gv.Assume(t < tf.VerifLast)
	gv.Assume(t != tf.VerifCOMMENT)
	gv.Assume(t != tf.VerifMark1)
	gv.Assume(t != tf.VerifMark2)
	gv.Assume(t != tf.VerifMark3)
	gv.Assume(t != tf.VerifMark4)
	gv.Assume(t != tf.VerifMark5)
	return t
}

// own: the parser has not moved by itself.
func (m *mon) own(p *tf.VerifParser) {
	tok, pos := tf.VerifParserTok(p)
	gv.Ensure("", "the parser's token is its own", tok == m.tok && pos == m.pos)
}

// next passes over a token and the comments after it.
//
//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).next
func next(p *tf.VerifParser) {
	m := cur
	m.own(p)
	if m.at >= 0 {
		to := m.g.step(m.at, int(m.tok))
		if to < 0 && first(nName, m.tok) {
			to = m.g.step(m.at, nName)
		}
		gv.Ensure("C20,C21", "a token is passed over only where the grammar has it, or an error is reported", to >= 0)
		if to >= 0 {
			m.lits[to] = m.lit
			m.seen[to] = true
		}
		m.at = to
	}
	gv.Ensure("C19", "parsing resumes at the next definition", !m.gone || !definition(m.tok))
	m.advance(p)
}

// lit is the text of the current token.
//
//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.scanner).lit
func lit(s *tf.VerifScanner) string { return cur.lit }

// report: an error is reported at the current token.
func (m *mon) report(p *tf.VerifParser) {
	if m.at >= 0 {
		deep := tf.VerifDepth(p) > 1000
		gv.Ensure("C20,C21", "an error is reported only where the source departs from the grammar", deep || !m.accepts(m.tok))
	}
	m.at = -1
	l := tf.VerifErrs(p)
	*l = append(*l, some())
}

// An error of the parser.
//
//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).error
func perror(p *tf.VerifParser, pos gotoken.Pos, msg string) {
	cur.own(p)
	gv.Ensure("C21", "an error is reported where it is", pos == cur.pos)
	cur.report(p)
}

//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).errorExpected
func errorExpected(p *tf.VerifParser, pos gotoken.Pos, msg string) {
	cur.own(p)
	gv.Ensure("C21", "an error is reported where it is", pos == cur.pos)
	cur.report(p)
}

// abandon gives up the definition.
func (m *mon) abandon(p *tf.VerifParser) {
	m.gone = true
	tf.VerifSetDepth(p, gv.Int())
	panic(tf.VerifBadDef{})
}

// phrase consumes a phrase, which begins with one of its first tokens. An
// ill-formed phrase is reported, and the definition abandoned or not. Phrases
// are deeper than the recursive production that uses them, and not too deep.
func (m *mon) phrase(p *tf.VerifParser, sym int, abandons bool) {
	m.own(p)
	d := tf.VerifDepth(p)
	gv.Ensure("C19", "nesting is bounded", m.file || m.depth <= d && d <= 1<<20 && (!m.rec || d > m.depth && m.eaten > m.start))
	if !first(sym, m.tok) {
		m.report(p)
		if abandons && gv.Bool() {
			m.abandon(p)
		}
		m.advance(p)
		return
	}
	if m.at >= 0 {
		to := m.g.step(m.at, sym)
		gv.Ensure("C20,C21", "a phrase is passed over only where the grammar has it", to >= 0)
		m.at = to
	}
	m.advance(p)
	if m.at >= 0 && gv.Bool() {
		return
	}
	m.at = -1
	if abandons && gv.Bool() {
		m.abandon(p)
	}
}

//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).type_
func type_(p *tf.VerifParser) tf.Type {
	m := cur
	m.phrase(p, nType, true)
	t := new(tf.TypeRef)
	if m.ntyp < 3 {
		m.typs[m.ntyp] = t
	}
	m.ntyp++
	return t
}

//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).value
func value_(p *tf.VerifParser) tf.Value {
	m := cur
	m.phrase(p, nValue, true)
	v := new(tf.Int)
	if m.nval < 3 {
		m.vals[m.nval] = v
	}
	m.nval++
	m.valueList = append(m.valueList, v)
	return v
}

//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).annotations
func annotations(p *tf.VerifParser) *tf.AnnotationList {
	m := cur
	m.own(p)
	m.anns = nil
	if m.tok != tf.VerifLPAREN {
		if to := m.g.step(m.at, nAnnotations); to >= 0 {
			m.at = to
		}
		return nil
	}
	m.phrase(p, nAnnotations, false)
	m.anns = new(tf.AnnotationList)
	return m.anns
}

//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).fields
func fields(p *tf.VerifParser, open, close tf.VerifToken) *tf.FieldList {
	m := cur
	f := new(tf.FieldList)
	switch {
	case open == tf.VerifLBRACE && close == tf.VerifRBRACE:
		m.phrase(p, nFields, true)
	case open == tf.VerifLPAREN && close == tf.VerifRPAREN:
		m.phrase(p, nParams, true)
	default:
		gv.Ensure("C20", "fields are enclosed in parentheses or braces", false)
	}
	if m.fields == nil {
		m.fields = f
	} else {
		m.throws = f
	}
	return f
}

//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).enumValues
func enumValues(p *tf.VerifParser) *tf.EnumValueList {
	m := cur
	m.phrase(p, nEnumValues, false)
	m.enums = new(tf.EnumValueList)
	return m.enums
}

//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).methods
func methods(p *tf.VerifParser) *tf.MethodList {
	m := cur
	m.phrase(p, nMethods, true)
	m.methods = new(tf.MethodList)
	return m.methods
}

//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).field
func field(p *tf.VerifParser) *tf.Field {
	m := cur
	m.phrase(p, nField, true)
	f := new(tf.Field)
	m.fieldList = append(m.fieldList, f)
	return f
}

//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).enumValue
func enumValue(p *tf.VerifParser) *tf.EnumValue {
	m := cur
	m.phrase(p, nEnumValue, false)
	f := new(tf.EnumValue)
	m.enumList = append(m.enumList, f)
	return f
}

//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).method
func method(p *tf.VerifParser) *tf.Method {
	m := cur
	m.phrase(p, nMethod, true)
	f := new(tf.Method)
	m.methodList = append(m.methodList, f)
	return f
}

//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).annotation
func annotation(p *tf.VerifParser) *tf.Annotation {
	m := cur
	m.phrase(p, nAnnotation, false)
	f := new(tf.Annotation)
	m.annList = append(m.annList, f)
	return f
}

//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).keyValuePair
func keyValuePair(p *tf.VerifParser) *tf.KeyValuePair {
	m := cur
	m.phrase(p, nPair, true)
	f := new(tf.KeyValuePair)
	m.pairList = append(m.pairList, f)
	return f
}

// header is a header, or nil.
//
//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).header
func header(p *tf.VerifParser) tf.Header {
	m := cur
	m.own(p)
	m.flush()
	if !first(nHeader, m.tok) {
		if m.at == 0 {
			m.at = 1 // there are no more headers
		}
		return nil
	}
	m.phrase(p, nHeader, false)
	h := new(tf.Include)
	m.headers = append(m.headers, h)
	m.latest = h
	return h
}

// flush: the latest header has been dealt with.
func (m *mon) flush() {
	if m.latest != nil {
		m.earlier = append(m.earlier, m.latest)
		m.latest = nil
	}
}

//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).def
func def(p *tf.VerifParser) tf.Def {
	m := cur
	m.phrase(p, nDef, false)
	d := new(tf.Enum)
	m.defs = append(m.defs, d)
	return d
}

//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).const_
func const_(p *tf.VerifParser) *tf.Const {
	m := cur
	m.phrase(p, nConst, true)
	d := new(tf.Const)
	m.defs = append(m.defs, d)
	return d
}

//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).typedef
func typedef(p *tf.VerifParser) *tf.Typedef {
	m := cur
	m.phrase(p, nTypedef, true)
	d := new(tf.Typedef)
	m.defs = append(m.defs, d)
	return d
}

//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).enum
func enum(p *tf.VerifParser) *tf.Enum {
	m := cur
	m.phrase(p, nEnum, false)
	d := new(tf.Enum)
	m.defs = append(m.defs, d)
	return d
}

//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).struct_
func struct_(p *tf.VerifParser, tok tf.VerifToken) *tf.Struct {
	m := cur
	gv.Ensure("C20", "a struct is of the kind of its keyword", tok == m.tok)
	m.phrase(p, nStruct, true)
	d := new(tf.Struct)
	m.defs = append(m.defs, d)
	return d
}

//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).service
func service(p *tf.VerifParser) *tf.Service {
	m := cur
	m.phrase(p, nService, true)
	d := new(tf.Service)
	m.defs = append(m.defs, d)
	return d
}

func separates(t tf.VerifToken) bool { return t == tf.VerifCOMMA || t == tf.VerifSEMICOLON }

// separator passes over separators; wherever the grammar has one, it has any
// number.
//
//gv:contract (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).separator
func separator(p *tf.VerifParser) {
	m := cur
	m.own(p)
	if !separates(m.tok) {
		return
	}
	if m.at >= 0 {
		m.at = m.g.step(m.at, int(m.tok))
		gv.Ensure("C20,C21", "a separator is passed over only where the grammar has it", m.at >= 0)
	}
	eaten := m.eaten
	m.advance(p)
	m.eaten = eaten // not counted on
	gv.Assume(m.tok != tf.VerifCOMMA)
	gv.Assume(m.tok != tf.VerifSEMICOLON)
}
