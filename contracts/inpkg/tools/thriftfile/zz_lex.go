package thriftfile

import gotoken "go/token"

// VerifScanner is the scanner.
type VerifScanner = scanner

// VerifToken is the kind of a token.
type VerifToken = token

// VerifLexer makes a scanner in the given state.
func VerifLexer(file *gotoken.File, src []byte, err func(gotoken.Position, string), ch rune, offset, rd int) *scanner {
	return &scanner{file: file, src: src, err: err, ch: ch, offset: offset, rdOffset: rd}
}

// VerifAt is the rune that is next, its offset and the offset after it.
func VerifAt(s *scanner) (ch rune, offset, rd int) { return s.ch, s.offset, s.rdOffset }

// VerifMove changes them.
func VerifMove(s *scanner, ch rune, offset, rd int) { s.ch, s.offset, s.rdOffset = ch, offset, rd }

// VerifTok is the token scanned last.
func VerifTok(s *scanner) (token, gotoken.Pos) { return s.tok, s.pos }

// VerifSetTok sets it.
func VerifSetTok(s *scanner, tok token, pos gotoken.Pos) { s.tok, s.pos = tok, pos }

// VerifNext scans a token.
func VerifNext(s *scanner) { s.next() }

// VerifNextch reads a rune.
func VerifNextch(s *scanner) { s.nextch() }

// VerifLit is the text of the token.
func VerifLit(s *scanner) string { return s.lit() }

// VerifInit starts scanning a file.
func VerifInit(s *scanner, file *gotoken.File, src []byte, err func(gotoken.Position, string)) {
	s.init(file, src, err)
}

// The kinds of tokens.
const (
	VerifEOF       = _EOF
	VerifCOMMENT   = _COMMENT
	VerifIDENT     = _IDENT
	VerifINT       = _INT
	VerifFLOAT     = _FLOAT
	VerifSTRING    = _STRING
	VerifADD       = _ADD
	VerifSUB       = _SUB
	VerifMUL       = _MUL
	VerifQUO       = _QUO
	VerifREM       = _REM
	VerifAND       = _AND
	VerifOR        = _OR
	VerifXOR       = _XOR
	VerifEQL       = _EQL
	VerifLSS       = _LSS
	VerifGTR       = _GTR
	VerifASSIGN    = _ASSIGN
	VerifNOT       = _NOT
	VerifLPAREN    = _LPAREN
	VerifLBRACK    = _LBRACK
	VerifLBRACE    = _LBRACE
	VerifCOMMA     = _COMMA
	VerifPERIOD    = _PERIOD
	VerifRPAREN    = _RPAREN
	VerifRBRACK    = _RBRACK
	VerifRBRACE    = _RBRACE
	VerifSEMICOLON = _SEMICOLON
	VerifCOLON     = _COLON
	VerifINCLUDE   = _INCLUDE
	VerifNAMESPACE = _NAMESPACE
	VerifCONST     = _CONST
	VerifTYPEDEF   = _TYPEDEF
	VerifENUM      = _ENUM
	VerifSTRUCT    = _STRUCT
	VerifUNION     = _UNION
	VerifEXCEPTION = _EXCEPTION
	VerifSERVICE   = _SERVICE
	VerifREQUIRED  = _REQUIRED
	VerifOPTIONAL  = _OPTIONAL
	VerifEXTENDS   = _EXTENDS
	VerifONEWAY    = _ONEWAY
	VerifVOID      = _VOID
	VerifTHROWS    = _THROWS
	VerifMAP       = _MAP
	VerifSET       = _SET
	VerifLIST      = _LIST
)
