package thriftfile

import gotoken "go/token"

// VerifParser is the parser.
type VerifParser = parser

// VerifErrors is a list of errors.
type VerifErrors = errors_

// VerifError is an error.
type VerifError = error_

// VerifBadDef is what abandons a definition.
type VerifBadDef = badDef

// More kinds of tokens.
const (
	VerifILLEGAL = _ILLEGAL
	VerifLast    = keyword_end
)

// Constants that only delimit kinds of tokens.
const (
	VerifMark1 = literal_beg
	VerifMark2 = literal_end
	VerifMark3 = keyword_beg
	VerifMark4 = definition_beg
	VerifMark5 = definition_end
)

// VerifNewParser makes a parser at a token.
func VerifNewParser(file *gotoken.File, tok token, pos gotoken.Pos, depth int) *parser {
	p := &parser{depth: depth}
	p.file = file
	p.tok = tok
	p.pos = pos
	return p
}

// VerifParserTok is the token the parser is at.
func VerifParserTok(p *parser) (token, gotoken.Pos) { return p.tok, p.pos }

// VerifParserSet moves the parser to a token.
func VerifParserSet(p *parser, tok token, pos gotoken.Pos) { p.tok, p.pos = tok, pos }

// VerifDepth is the nesting depth.
func VerifDepth(p *parser) int { return p.depth }

// VerifSetDepth sets it.
func VerifSetDepth(p *parser, d int) { p.depth = d }

// VerifNewError makes an error.
func VerifNewError(pos gotoken.Position, msg string) *error_ { return &error_{pos, msg} }

// VerifErrorOf takes it apart.
func VerifErrorOf(e *error_) (gotoken.Position, string) { return e.pos, e.msg }

// VerifErrs is the list of errors.
func VerifErrs(p *parser) *errors_ { return &p.errs }

// VerifAdd, VerifErr, VerifSort are the operations on the list of errors.
func VerifAdd(p *errors_, pos gotoken.Position, msg string) { p.add(pos, msg) }
func VerifErr(p errors_) error                              { return p.err() }
func VerifSort(p errors_)                                   { p.sort() }

// VerifErrFunc is what a scanner reports errors to.
func VerifErrFunc(s *scanner) func(gotoken.Position, string) { return s.err }

// VerifSetErrFunc sets it.
func VerifSetErrFunc(s *scanner, file *gotoken.File, f func(gotoken.Position, string)) {
	s.file, s.err = file, f
}

// VerifScannerOf is the parser's scanner.
func VerifScannerOf(p *parser) *scanner { return &p.scanner }

// The productions.
func VerifInclude(p *parser) *Include                         { return p.include() }
func VerifNamespace(p *parser) *Namespace                     { return p.namespace() }
func VerifHeader(p *parser) Header                            { return p.header() }
func VerifFile(p *parser) *File                               { return p.file_() }
func VerifDef(p *parser) Def                                  { return p.def() }
func VerifConst(p *parser) *Const                             { return p.const_() }
func VerifTypedef(p *parser) *Typedef                         { return p.typedef() }
func VerifEnum(p *parser) *Enum                               { return p.enum() }
func VerifEnumValue(p *parser) *EnumValue                     { return p.enumValue() }
func VerifEnumValues(p *parser) *EnumValueList                { return p.enumValues() }
func VerifStruct(p *parser, tok token) *Struct                { return p.struct_(tok) }
func VerifField(p *parser) *Field                             { return p.field() }
func VerifFields(p *parser, open, close token) *FieldList     { return p.fields(open, close) }
func VerifService(p *parser) *Service                         { return p.service() }
func VerifMethod(p *parser) *Method                           { return p.method() }
func VerifMethods(p *parser) *MethodList                      { return p.methods() }
func VerifType(p *parser) Type                                { return p.type_() }
func VerifValue(p *parser) Value                              { return p.value() }
func VerifKeyValuePair(p *parser) *KeyValuePair               { return p.keyValuePair() }
func VerifAnnotation(p *parser) *Annotation                   { return p.annotation() }
func VerifAnnotations(p *parser) *AnnotationList              { return p.annotations() }
func VerifParserNext(p *parser)                               { p.next() }
func VerifParserError(p *parser, pos gotoken.Pos, m string)   { p.error(pos, m) }
func VerifErrorExpected(p *parser, pos gotoken.Pos, m string) { p.errorExpected(pos, m) }

func VerifSeparator(p *parser) { p.separator() }

// VerifLess, VerifSwap, VerifLen are what a list of errors is sorted by.
func VerifLess(p errors_, i, j int) bool { return p.Less(i, j) }
func VerifSwap(p errors_, i, j int)      { p.Swap(i, j) }
func VerifLen(p errors_) int             { return p.Len() }

// VerifSrc is the text of the file being scanned.
func VerifSrc(s *scanner) (*gotoken.File, []byte) { return s.file, s.src }
