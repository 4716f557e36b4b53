package errs

import (
	gotoken "go/token"
	"strings"

	"vspec/gv"

	tf "github.com/itstarsun/go-thrift/tools/thriftfile"
)

// place is where an error is, and its text.
var place struct {
	pos  gotoken.Position
	text string
}

//gv:contract (go/token.Position).String
func posString(p gotoken.Position) string {
	gv.Ensure("C21", "the position is that of the error", p == place.pos)
	return place.text
}

//gv:contract (*go/token.Position).String
func posPtrString(p *gotoken.Position) string { return posString(*p) }

// HSyntax verifies what a syntax error and a list of them say.
//
//gv:harness errs/Syntax props=C21 default=C21
//gv:symbolic
//gv:real (github.com/itstarsun/go-thrift/tools/thriftfile.error_).Error
//gv:real (github.com/itstarsun/go-thrift/tools/thriftfile.errors_).Error
func HSyntax() {
	msg, other := gv.String(), gv.String()
	digits = gv.String()
	place.pos = gotoken.Position{Filename: gv.String(), Offset: gv.Int(), Line: gv.Int(), Column: gv.Int()}
	place.text = gv.String()
	first := tf.VerifNewError(place.pos, msg)
	s := first.Error()
	s, ok := strings.CutPrefix(s, place.text)
	gv.Ensure("C21", "an error tells where it is", ok)
	_, ok = strings.CutSuffix(s, msg)
	gv.Ensure("C21", "an error tells what is wrong", ok)

	var rest tf.VerifErrors
	for gv.Loop() {
		rest = append(rest, tf.VerifNewError(gotoken.Position{Line: gv.Int()}, other))
	}
	l := append(tf.VerifErrors{first}, rest...)
	n := len(l)
	s = l.Error()
	s, ok = strings.CutPrefix(s, first.Error())
	gv.Ensure("C21", "a list of errors tells the first", ok)
	if n == 1 {
		gv.Ensure("C21", "a single error stands for itself", s == "")
		gv.Reach("one")
	} else {
		gv.Ensure("C21", "a list of errors tells how many there are", counted == n-1)
		gv.Reach("many")
	}
	e := tf.VerifErr(l)
	gv.Ensure("C21", "errors are reported as a list of them", e != nil && len(e.(tf.VerifErrors)) == n)
}
