// Package tags proves how the tag of a field is read.
package tags

import (
	"io"
	"reflect"
	"unicode"
	"unicode/utf8"

	"vspec/gv"

	"github.com/itstarsun/go-thrift/thrift"
)

// mon follows the reading of a tag.
type mon struct {
	has      bool   // there is a tag
	tag      string // empty if there is none
	exported bool
	probe    int  // an arbitrary place
	option   bool // an option is read
	start    bool // the part of the tag before the options is read

	pos    int // consumed so far
	asked  bool
	idOK   bool
	id     int16
	bad    bool // something is malformed
	req    bool
	seen   map[string]bool
	set    map[string]struct{}
	opt    string // the option at hand
	alike  bool   // it is "required" but for case and underscores
	low    bool   // it has been lowered
	strip  bool   // its underscores have been removed
	mapped string // by these
	run    int    // the length of the identifier at hand
	runs   bool
	first  rune // the first one of the tag
}

var cur *mon

// IndexByte is where a byte is met first.
//
//gv:contract strings.IndexByte
func IndexByte(s string, b byte) int {
	i := gv.Int()
	gv.Assume(-1 <= i && i < len(s))
	if i >= 0 {
		gv.Assume(s[i] == b)
	}
	if cur.option {
		gv.Assume(i == 0 || len(s) == 0 || s[0] != b)
	}
	if p := cur.probe; cur.start && p < len(s) && (p < i || i < 0) {
		gv.Assume(s[p] != b)
	}
	return i
}

//gv:contract strings.Index
func Index(s, sep string) int {
	gv.Ensure("C17", "a comma is sought", len(sep) == 1)
	return IndexByte(s, sep[0])
}

//gv:contract internal/stringslite.Index
func index(s, sep string) int { return Index(s, sep) }

//gv:contract strings.IndexRune
func IndexRune(s string, r rune) int {
	gv.Ensure("C17", "a comma is sought", r < utf8.RuneSelf)
	return IndexByte(s, byte(r))
}

//gv:contract strings.TrimLeftFunc
func TrimLeftFunc(s string, f func(rune) bool) string {
	m := cur
	r := rune(gv.Int32())
	gv.Ensure("C17", "an option is made of letters, digits and underscores", f(r) == (r == '_' || unicode.IsLetter(r) || unicode.IsNumber(r)))
	k := gv.Int()
	gv.Assume(0 <= k && k <= len(s))
	gv.Ensure("C17", "the identifier is sought in the whole rest", !m.runs && s == m.tag)
	r = m.first
	gv.Assume((k > 0) == (len(s) > 0 && (r == '_' || unicode.IsLetter(r) || unicode.IsNumber(r))))
	m.run, m.runs = k, true
	return s[k:]
}

//gv:contract unicode/utf8.DecodeRuneInString
func DecodeRune(s string) (rune, int) {
	m := cur
	gv.Ensure("C17", "the option starts at the start", s == m.tag)
	if len(s) == 0 {
		return utf8.RuneError, 0
	}
	n := gv.Int()
	gv.Assume(1 <= n && n <= 4 && n <= len(s))
	gv.Assume((m.first < utf8.RuneSelf) == (s[0] < utf8.RuneSelf))
	gv.Assume(m.first >= utf8.RuneSelf || m.first == rune(s[0]) && n == 1)
	return m.first, n
}

// HOption verifies consumeTagOption.
//
//gv:harness tags/Option props=C17 default=C17
//gv:symbolic
//gv:whole
//gv:real github.com/itstarsun/go-thrift/thrift.consumeTagOption
func HOption() {
	m := &mon{option: true, tag: gv.String(), first: rune(gv.Int32())}
	cur = m
	in, r := m.tag, m.first
	gv.Assume(0 <= r && r <= unicode.MaxRune)
	letter := len(in) > 0 && (r == '_' || unicode.IsLetter(r))
	gv.Assume(!unicode.IsLetter(utf8.RuneError)) // it is not
	opt, n, err := thrift.TagsOption(in)
	gv.Ensure("C17", "what is consumed is there", 0 <= n && n <= len(in))
	gv.Ensure("C17", "the option is what is consumed", opt == in[:n])
	gv.Ensure("C17", "an option starts with a letter or an underscore", (err == nil) == letter)
	if letter {
		gv.Ensure("C17", "an option is the longest identifier", m.runs && n == m.run && n > 0)
		gv.Reach("option")
	} else {
		gv.Ensure("C17", "what is no option is passed over", n > 0 || len(in) == 0 || in[0] == ',')
		gv.Reach("no option")
	}
}

//gv:contract (reflect.StructTag).Lookup
func TagLookup(t reflect.StructTag, key string) (string, bool) {
	gv.Ensure("C17", "the tag is the one of this package", key == "thrift")
	return cur.tag, cur.has
}

//gv:contract (reflect.StructTag).Get
func TagGet(t reflect.StructTag, key string) string {
	gv.Ensure("C17", "the tag is the one of this package", key == "thrift")
	return cur.tag
}

//gv:contract (reflect.StructField).IsExported
func IsExported(f reflect.StructField) bool { return cur.exported }

//gv:contract strconv.ParseInt
func ParseInt(s string, base, bits int) (int64, error) {
	m := cur
	gv.Ensure("C17", "an id is decimal and has 16 bits", base == 10 && bits == 16)
	gv.Ensure("C17", "the id is read once, before the options", !m.asked && m.pos == 0)
	gv.Ensure("C17", "the id is what precedes the first comma", s == m.tag[:len(s)] && (len(s) == len(m.tag) || m.tag[len(s)] == ','))
	gv.Ensure("C17", "the id is what precedes the first comma", !m.start || m.probe >= len(s) || m.tag[m.probe] != ',')
	m.asked, m.pos = true, len(s)
	if gv.Bool() {
		m.idOK, m.id = true, gv.Int16()
		return int64(m.id), nil
	}
	return int64(gv.Int16()), gv.Error()
}

// Option is what HOption shows of consumeTagOption.
//
//gv:contract github.com/itstarsun/go-thrift/thrift.consumeTagOption
func Option(in string) (string, int, error) {
	m := cur
	gv.Assume(!m.start)
	at := len(m.tag) - len(in)
	gv.Ensure("C17", "the options follow the id", m.asked && m.idOK)
	gv.Ensure("C17", "the tag is read from left to right", m.pos <= at && at <= m.pos+1)
	gv.Ensure("C17", "the tag is read from left to right", in == m.tag[at:])
	if m.pos < len(m.tag) && m.tag[m.pos] == ',' {
		gv.Ensure("C17", "a comma separates the options", at == m.pos+1)
	} else {
		gv.Ensure("C17", "what is not a comma is not passed over", at == m.pos)
		m.bad = true
	}
	n := gv.Int()
	gv.Assume(0 <= n && n <= len(in))
	m.pos = at + n
	m.opt = in[:n]
	m.low, m.strip = false, false
	m.alike = gv.Bool()
	if m.opt == "required" {
		gv.Assume(m.alike)
		m.req = true
	} else if m.alike {
		m.bad = true
	}
	// the options so far, kept twice; what holds of both is known
	v, ok := m.seen[m.opt]
	_, in2 := m.set[m.opt]
	gv.Assume(v == ok && ok == in2)
	if ok {
		m.bad = true
		gv.Assume(m.seen[m.opt]) // (a path of its own)
	}
	m.seen[m.opt], m.set[m.opt] = true, struct{}{}
	if len(in) == 0 {
		m.bad = true
		return in, 0, io.ErrUnexpectedEOF
	}
	if gv.Bool() {
		gv.Assume(n > 0 || in[0] == ',')
		m.bad = true
		return m.opt, n, gv.Error()
	}
	gv.Assume(n > 0)
	return m.opt, n, nil
}

func (m *mon) given(s string) bool {
	if m.low || m.strip {
		return s == m.mapped
	}
	return s == m.opt
}

func (m *mon) give() string {
	m.mapped = gv.String()
	if m.low && m.strip {
		if m.alike {
			m.mapped = "required"
		} else {
			gv.Assume(m.mapped != "required")
		}
	}
	return m.mapped
}

//gv:contract strings.ToLower
func ToLower(s string) string {
	gv.Ensure("C17", "case is ignored", cur.given(s))
	cur.low = true
	return cur.give()
}

//gv:contract strings.ReplaceAll
func ReplaceAll(s, old, new string) string {
	gv.Ensure("C17", "underscores are ignored", cur.given(s) && old == "_" && new == "")
	cur.strip = true
	return cur.give()
}

// HStart verifies parseFieldOptions up to the options.
//
//gv:harness tags/Start props=C17 default=C17
//gv:symbolic
//gv:whole
//gv:real github.com/itstarsun/go-thrift/thrift.parseFieldOptions
func HStart() {
	m := newMon()
	m.start = true
	m.field()
}

// HField verifies parseFieldOptions.
//
//gv:harness tags/Field props=C17 default=C17
//gv:symbolic
//gv:whole
//gv:real github.com/itstarsun/go-thrift/thrift.parseFieldOptions
func HField() {
	m := newMon()
	m.has, m.exported = true, true
	m.field()
}

func newMon() *mon {
	m := &mon{has: gv.Bool(), tag: gv.String(), exported: gv.Bool(), probe: gv.Int(), seen: map[string]bool{}, set: map[string]struct{}{}}
	gv.Assume(m.has || len(m.tag) == 0)
	gv.Assume(0 <= m.probe)
	cur = m
	return m
}

func (m *mon) field() {
	gv.Progress("C17", "reading the tag advances", &m.pos)
	sf := reflect.StructField{Name: gv.String()}
	id, name, required, ignored, err := thrift.TagsParse(sf)
	switch {
	case m.tag == "-":
		gv.Ensure("C17", "a field tagged - is ignored", ignored && err == nil)
		gv.Reach("dash")
	case !m.exported:
		gv.Ensure("C17", "an untagged unexported field is ignored", ignored)
		gv.Ensure("C17", "a tagged field must be exported", (err != nil) == m.has)
	default:
		gv.Ensure("C17", "every field has an id", m.asked)
		if !m.idOK {
			gv.Ensure("C17", "a malformed id is rejected", err != nil)
			gv.Reach("no id")
			return
		}
		if m.pos < len(m.tag) {
			gv.Ensure("C17", "the whole tag is read", m.pos == len(m.tag)-1 && m.tag[m.pos] == ',')
			m.bad = true
		}
		gv.Ensure("C17", "a tag is rejected exactly if it is malformed", (err != nil) == m.bad)
		if err == nil {
			gv.Ensure("C17", "the field is not ignored", !ignored)
			gv.Ensure("C17", "the id is the one of the tag", id == m.id)
			gv.Ensure("C17", "a field is required exactly if the tag says so", required == m.req)
			gv.Ensure("", "the name is the one of the field", name == sf.Name)
			gv.Reach("field")
		}
	}
}
