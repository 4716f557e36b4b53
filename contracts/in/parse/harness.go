package parse

import (
	gotoken "go/token"

	"vspec/gv"

	tf "github.com/itstarsun/go-thrift/tools/thriftfile"
)

// begin makes a parser at the beginning of a production.
func begin(g *grammar) (*mon, *tf.VerifParser) {
	m := &mon{g: g, tok: someToken(), pos: gotoken.Pos(gv.Int()), lit: gv.String(), eaten: gv.Int(), depth: gv.Int()}
	m.start = m.eaten
	gv.Assume(0 <= m.eaten && m.eaten < 1<<59 && 0 <= m.depth && m.depth <= 1<<20)
	cur = m
	p := tf.VerifNewParser(new(gotoken.File), m.tok, m.pos, m.depth)
	*tf.VerifErrs(p) = list()
	gv.Progress("C19", "parsing advances", &m.eaten)
	return m, p
}

// list is any list of errors.
func list() (l tf.VerifErrors) {
	for gv.Loop() {
		l = append(l, some())
	}
	return l
}

func some() *tf.VerifError {
	return tf.VerifNewError(gotoken.Position{Filename: gv.String(), Offset: gv.Int(), Line: gv.Int(), Column: gv.Int()}, gv.String())
}

// end tells whether a phrase of the production has been consumed.
func (m *mon) end(p *tf.VerifParser) bool {
	m.own(p)
	gv.Ensure("C19", "parsing advances", m.eaten > m.start || m.tok == tf.VerifEOF)
	gv.Ensure("C19", "the depth is as before", tf.VerifDepth(p) == m.depth)
	if m.at < 0 {
		gv.Reach("syntax error")
		return false
	}
	gv.Reach("phrase")
	final := false
	for _, f := range m.g.final {
		final = final || f == m.at
	}
	gv.Ensure("C20,C21", "what has been consumed is a whole phrase", final)
	gv.Ensure("C20", "what belongs to the phrase is consumed", !m.accepts(m.tok))
	return true
}

// abandon runs a production that may abandon the definition.
func abandon(m *mon, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			_, bad := r.(tf.VerifBadDef)
			gv.Ensure("C19", "only the definition is abandoned", bad)
			gv.Ensure("C21", "an abandoned definition is reported", m.at < 0)
			gv.Reach("abandoned")
			ok = false
		}
	}()
	f()
	return true
}

func is(x *tf.Ident, lit string) bool { return x != nil && x.Name == lit }

// number: the node of an integer, if there is one.
func number(x *tf.Int, there bool, lit string) bool {
	if !there {
		return x == nil
	}
	return x != nil && x.Value == lit
}

// HConst: const type name = value, with separators.
//
//gv:harness parse/Const props=C19,C20,C21 default=C19
//gv:symbolic
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).const_
func HConst() {
	m, p := begin(&grammar{
		rules: []rule{
			{0, int(tf.VerifCONST), 1}, {1, nType, 2}, {2, int(tf.VerifIDENT), 3}, {3, int(tf.VerifASSIGN), 4},
			{4, nValue, 5}, {5, int(tf.VerifCOMMA), 5}, {5, int(tf.VerifSEMICOLON), 5},
		},
		final: []int{5},
	})
	gv.Assume(m.tok == tf.VerifCONST)
	var x *tf.Const
	if !abandon(m, func() { x = tf.VerifConst(p) }) {
		return
	}
	if !m.end(p) {
		return
	}
	gv.Ensure("C20", "the node is what was parsed", x != nil && x.Type == m.typs[0] && is(x.Name, m.lits[3]) && x.Value == m.vals[0])
}

// HTypedef: typedef type name, with annotations and separators.
//
//gv:harness parse/Typedef props=C19,C20,C21 default=C19
//gv:symbolic
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).typedef
func HTypedef() {
	m, p := begin(&grammar{
		rules: []rule{
			{0, int(tf.VerifTYPEDEF), 1}, {1, nType, 2}, {2, int(tf.VerifIDENT), 3}, {3, nAnnotations, 4},
			{3, int(tf.VerifCOMMA), 5}, {4, int(tf.VerifCOMMA), 5}, {5, int(tf.VerifCOMMA), 5}, {3, int(tf.VerifSEMICOLON), 5},
			{4, int(tf.VerifSEMICOLON), 5}, {5, int(tf.VerifSEMICOLON), 5},
		},
		final: []int{3, 4, 5},
	})
	gv.Assume(m.tok == tf.VerifTYPEDEF)
	var x *tf.Typedef
	if !abandon(m, func() { x = tf.VerifTypedef(p) }) {
		return
	}
	if !m.end(p) {
		return
	}
	gv.Ensure("C20", "the node is what was parsed", x != nil && x.Type == m.typs[0] && is(x.Name, m.lits[3]) && x.Annotations == m.anns)
}

// HEnum: enum name values, with annotations.
//
//gv:harness parse/Enum props=C19,C20,C21 default=C19
//gv:symbolic
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).enum
func HEnum() {
	m, p := begin(&grammar{
		rules: []rule{
			{0, int(tf.VerifENUM), 1}, {1, int(tf.VerifIDENT), 2}, {2, nEnumValues, 3}, {3, nAnnotations, 4},
		},
		final: []int{3, 4},
	})
	gv.Assume(m.tok == tf.VerifENUM)
	x := tf.VerifEnum(p)
	if !m.end(p) {
		return
	}
	gv.Ensure("C20", "the node is what was parsed", x != nil && is(x.Name, m.lits[2]) && x.Values == m.enums && x.Annotations == m.anns)
}

// HEnumValue: name = value, with annotations.
//
//gv:harness parse/EnumValue props=C19,C20,C21 default=C19
//gv:symbolic
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).enumValue
func HEnumValue() {
	m, p := begin(&grammar{
		rules: []rule{
			{0, int(tf.VerifIDENT), 1}, {1, int(tf.VerifASSIGN), 2}, {2, int(tf.VerifINT), 3}, {1, nAnnotations, 4},
			{3, nAnnotations, 4},
		},
		final: []int{1, 3, 4},
	})
	x := tf.VerifEnumValue(p)
	if !m.end(p) {
		return
	}
	gv.Ensure("C20", "the node is what was parsed", x != nil && is(x.Name, m.lits[1]) && number(x.Value, m.seen[3], m.lits[3]) && x.Annotations == m.anns)
}

// HStruct: struct, union or exception, name, fields, with annotations.
//
//gv:harness parse/Struct props=C19,C20,C21 default=C19
//gv:symbolic
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).struct_
func HStruct() {
	m, p := begin(&grammar{
		rules: []rule{
			{0, int(tf.VerifSTRUCT), 1}, {0, int(tf.VerifUNION), 2}, {0, int(tf.VerifEXCEPTION), 3}, {1, int(tf.VerifIDENT), 4},
			{2, int(tf.VerifIDENT), 4}, {3, int(tf.VerifIDENT), 4}, {4, nFields, 5}, {5, nAnnotations, 6},
		},
		final: []int{5, 6},
	})
	gv.Assume(first(nStruct, m.tok))
	var x *tf.Struct
	if !abandon(m, func() { x = tf.VerifStruct(p, m.tok) }) {
		return
	}
	if !m.end(p) {
		return
	}
	gv.Ensure("C20", "the node is what was parsed", x != nil && x.Union == m.seen[2] && x.Exception == m.seen[3] && is(x.Name, m.lits[4]) && x.Fields == m.fields && x.Annotations == m.anns)
}

// HField: id: required type & name = value, with annotations.
//
//gv:harness parse/Field props=C19,C20,C21 default=C19
//gv:symbolic
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).field
func HField() {
	m, p := begin(&grammar{
		rules: []rule{
			{0, int(tf.VerifINT), 1}, {1, int(tf.VerifCOLON), 2}, {0, int(tf.VerifREQUIRED), 3}, {2, int(tf.VerifREQUIRED), 3},
			{0, int(tf.VerifOPTIONAL), 4}, {2, int(tf.VerifOPTIONAL), 4}, {0, nType, 5}, {2, nType, 5},
			{3, nType, 5}, {4, nType, 5}, {5, int(tf.VerifAND), 6}, {5, nName, 7},
			{6, nName, 7}, {7, int(tf.VerifASSIGN), 8}, {8, nValue, 9}, {7, nAnnotations, 10},
			{9, nAnnotations, 10},
		},
		final: []int{7, 9, 10},
	})
	var x *tf.Field
	if !abandon(m, func() { x = tf.VerifField(p) }) {
		return
	}
	if !m.end(p) {
		return
	}
	gv.Ensure("C20", "the node is what was parsed", x != nil && number(x.ID, m.seen[1], m.lits[1]) && x.Required == m.seen[3] && x.Optional == m.seen[4])
	gv.Ensure("C20", "the node is what was parsed", x.Type == m.typs[0] && x.Reference == m.seen[6] && is(x.Name, m.lits[7]) && x.Default == m.vals[0] && x.Annotations == m.anns)
}

// HService: service name extends name, methods, with annotations.
//
//gv:harness parse/Service props=C19,C20,C21 default=C19
//gv:symbolic
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).service
func HService() {
	m, p := begin(&grammar{
		rules: []rule{
			{0, int(tf.VerifSERVICE), 1}, {1, int(tf.VerifIDENT), 2}, {2, int(tf.VerifEXTENDS), 3}, {3, int(tf.VerifIDENT), 4},
			{2, nMethods, 5}, {4, nMethods, 5}, {5, nAnnotations, 6},
		},
		final: []int{5, 6},
	})
	gv.Assume(m.tok == tf.VerifSERVICE)
	var x *tf.Service
	if !abandon(m, func() { x = tf.VerifService(p) }) {
		return
	}
	if !m.end(p) {
		return
	}
	gv.Ensure("C20", "the node is what was parsed", x != nil && is(x.Name, m.lits[2]) && x.Methods == m.methods && x.Annotations == m.anns)
	gv.Ensure("C20", "the node is what was parsed", !m.seen[4] && x.Extends == nil || m.seen[4] && is(x.Extends, m.lits[4]))
}

// HMethod: oneway type name arguments throws fields, with annotations.
//
//gv:harness parse/Method props=C19,C20,C21 default=C19
//gv:symbolic
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).method
func HMethod() {
	m, p := begin(&grammar{
		rules: []rule{
			{0, int(tf.VerifONEWAY), 1}, {0, int(tf.VerifVOID), 2}, {1, int(tf.VerifVOID), 2}, {0, nType, 3},
			{1, nType, 3}, {2, int(tf.VerifIDENT), 4}, {3, int(tf.VerifIDENT), 4}, {4, nParams, 5},
			{5, int(tf.VerifTHROWS), 6}, {6, nParams, 7}, {5, nAnnotations, 8}, {7, nAnnotations, 8},
		},
		final: []int{5, 7, 8},
	})
	var x *tf.Method
	if !abandon(m, func() { x = tf.VerifMethod(p) }) {
		return
	}
	if !m.end(p) {
		return
	}
	gv.Ensure("C20", "the node is what was parsed", x != nil && x.OneWay == m.seen[1] && x.Void == m.seen[2] && x.Return == m.typs[0] && is(x.Name, m.lits[4]))
	gv.Ensure("C20", "the node is what was parsed", x.Arguments == m.fields && x.Throws == m.throws && x.Annotations == m.anns)
}

// HAnnotation: name = string.
//
//gv:harness parse/Annotation props=C19,C20,C21 default=C19
//gv:symbolic
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).annotation
func HAnnotation() {
	m, p := begin(&grammar{
		rules: []rule{
			{0, int(tf.VerifIDENT), 1}, {1, int(tf.VerifASSIGN), 2}, {2, int(tf.VerifSTRING), 3},
		},
		final: []int{1, 3},
	})
	x := tf.VerifAnnotation(p)
	if !m.end(p) {
		return
	}
	gv.Ensure("C20", "the node is what was parsed", x != nil && is(x.Name, m.lits[1]) && (!m.seen[3] && x.Value == nil || m.seen[3] && x.Value != nil && x.Value.Value == m.lits[3]))
}

// HPair: value: value.
//
//gv:harness parse/Pair props=C19,C20,C21 default=C19
//gv:symbolic
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).keyValuePair
func HPair() {
	m, p := begin(&grammar{
		rules: []rule{
			{0, nValue, 1}, {1, int(tf.VerifCOLON), 2}, {2, nValue, 3},
		},
		final: []int{3},
	})
	var x *tf.KeyValuePair
	if !abandon(m, func() { x = tf.VerifKeyValuePair(p) }) {
		return
	}
	if !m.end(p) {
		return
	}
	gv.Ensure("C20", "the node is what was parsed", x != nil && x.Key == m.vals[0] && x.Value == m.vals[1])
}

// HFields: { fields }.
//
//gv:harness parse/Fields props=C19,C20,C21 default=C19
//gv:symbolic
//gv:peel
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).fields
func HFields() {
	m, p := begin(&grammar{
		rules: []rule{
			{0, int(tf.VerifLBRACE), 1}, {1, nField, 2}, {2, nField, 2}, {2, int(tf.VerifCOMMA), 2},
			{2, int(tf.VerifSEMICOLON), 2}, {1, int(tf.VerifRBRACE), 3}, {2, int(tf.VerifRBRACE), 3},
		},
		final: []int{3},
	})
	var x *tf.FieldList
	if !abandon(m, func() { x = tf.VerifFields(p, tf.VerifLBRACE, tf.VerifRBRACE) }) {
		return
	}
	if !m.end(p) {
		return
	}
	gv.Ensure("C20", "there is a node", x != nil)
	gv.Ensure("C20", "every element is recorded", len(x.List) == len(m.fieldList))
	if i := gv.Int(); 0 <= i && i < len(x.List) {
		gv.Reach("element")
		gv.Ensure("C20", "every element is recorded in order", x.List[i] == m.fieldList[i])
	}
}

// HParams: ( fields ).
//
//gv:harness parse/Params props=C19,C20,C21 default=C19
//gv:symbolic
//gv:peel
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).fields
func HParams() {
	m, p := begin(&grammar{
		rules: []rule{
			{0, int(tf.VerifLPAREN), 1}, {1, nField, 2}, {2, nField, 2}, {2, int(tf.VerifCOMMA), 2},
			{2, int(tf.VerifSEMICOLON), 2}, {1, int(tf.VerifRPAREN), 3}, {2, int(tf.VerifRPAREN), 3},
		},
		final: []int{3},
	})
	var x *tf.FieldList
	if !abandon(m, func() { x = tf.VerifFields(p, tf.VerifLPAREN, tf.VerifRPAREN) }) {
		return
	}
	if !m.end(p) {
		return
	}
	gv.Ensure("C20", "there is a node", x != nil)
	gv.Ensure("C20", "every element is recorded", len(x.List) == len(m.fieldList))
	if i := gv.Int(); 0 <= i && i < len(x.List) {
		gv.Reach("element")
		gv.Ensure("C20", "every element is recorded in order", x.List[i] == m.fieldList[i])
	}
}

// HEnumValues: { values }.
//
//gv:harness parse/EnumValues props=C19,C20,C21 default=C19
//gv:symbolic
//gv:peel
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).enumValues
func HEnumValues() {
	m, p := begin(&grammar{
		rules: []rule{
			{0, int(tf.VerifLBRACE), 1}, {1, nEnumValue, 2}, {2, nEnumValue, 2}, {2, int(tf.VerifCOMMA), 2},
			{2, int(tf.VerifSEMICOLON), 2}, {1, int(tf.VerifRBRACE), 3}, {2, int(tf.VerifRBRACE), 3},
		},
		final: []int{3},
	})
	x := tf.VerifEnumValues(p)
	if !m.end(p) {
		return
	}
	gv.Ensure("C20", "there is a node", x != nil)
	gv.Ensure("C20", "every element is recorded", len(x.List) == len(m.enumList))
	if i := gv.Int(); 0 <= i && i < len(x.List) {
		gv.Reach("element")
		gv.Ensure("C20", "every element is recorded in order", x.List[i] == m.enumList[i])
	}
}

// HMethods: { methods }.
//
//gv:harness parse/Methods props=C19,C20,C21 default=C19
//gv:symbolic
//gv:peel
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).methods
func HMethods() {
	m, p := begin(&grammar{
		rules: []rule{
			{0, int(tf.VerifLBRACE), 1}, {1, nMethod, 2}, {2, nMethod, 2}, {2, int(tf.VerifCOMMA), 2},
			{2, int(tf.VerifSEMICOLON), 2}, {1, int(tf.VerifRBRACE), 3}, {2, int(tf.VerifRBRACE), 3},
		},
		final: []int{3},
	})
	var x *tf.MethodList
	if !abandon(m, func() { x = tf.VerifMethods(p) }) {
		return
	}
	if !m.end(p) {
		return
	}
	gv.Ensure("C20", "there is a node", x != nil)
	gv.Ensure("C20", "every element is recorded", len(x.List) == len(m.methodList))
	if i := gv.Int(); 0 <= i && i < len(x.List) {
		gv.Reach("element")
		gv.Ensure("C20", "every element is recorded in order", x.List[i] == m.methodList[i])
	}
}

// HAnnotations: ( annotations ).
//
//gv:harness parse/Annotations props=C19,C20,C21 default=C19
//gv:symbolic
//gv:peel
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).annotations
func HAnnotations() {
	m, p := begin(&grammar{
		rules: []rule{
			{0, int(tf.VerifLPAREN), 1}, {1, nAnnotation, 2}, {2, nAnnotation, 2}, {2, int(tf.VerifCOMMA), 2},
			{2, int(tf.VerifSEMICOLON), 2}, {1, int(tf.VerifRPAREN), 3}, {2, int(tf.VerifRPAREN), 3},
		},
		final: []int{3},
	})
	gv.Assume(m.tok == tf.VerifLPAREN)
	x := tf.VerifAnnotations(p)
	if !m.end(p) {
		return
	}
	gv.Ensure("C20", "there is a node", x != nil)
	gv.Ensure("C20", "every element is recorded", len(x.List) == len(m.annList))
	if i := gv.Int(); 0 <= i && i < len(x.List) {
		gv.Reach("element")
		gv.Ensure("C20", "every element is recorded in order", x.List[i] == m.annList[i])
	}
}

// HType: map<type, type>, set<type>, list<type> or a name, with annotations.
//
//gv:harness parse/Type props=C19,C20,C21 default=C19
//gv:symbolic
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).type_
func HType() {
	m, p := begin(&grammar{
		rules: []rule{
			{0, int(tf.VerifIDENT), 1}, {0, int(tf.VerifMAP), 2}, {2, int(tf.VerifLSS), 3}, {3, nType, 4},
			{4, int(tf.VerifCOMMA), 5}, {5, nType, 6}, {6, int(tf.VerifGTR), 7}, {0, int(tf.VerifSET), 8},
			{8, int(tf.VerifLSS), 9}, {9, nType, 10}, {0, int(tf.VerifLIST), 11}, {11, int(tf.VerifLSS), 12},
			{12, nType, 13}, {10, int(tf.VerifGTR), 14}, {13, int(tf.VerifGTR), 14}, {1, nAnnotations, 15},
			{7, nAnnotations, 15}, {14, nAnnotations, 15},
		},
		final: []int{1, 7, 14, 15},
	})
	m.rec = true
	var x tf.Type
	if !abandon(m, func() { x = tf.VerifType(p) }) {
		return
	}
	if !m.end(p) {
		return
	}
	switch {
	case m.seen[1]:
		y, ok := x.(*tf.TypeRef)
		gv.Ensure("C20", "the node is what was parsed", ok && y != nil && is(y.Name, m.lits[1]) && y.Annotations == m.anns)
	case m.seen[2]:
		y, ok := x.(*tf.Map)
		gv.Ensure("C20", "the node is what was parsed", ok && y != nil && y.Key == m.typs[0] && y.Value == m.typs[1] && y.Annotations == m.anns)
	case m.seen[8]:
		y, ok := x.(*tf.Set)
		gv.Ensure("C20", "the node is what was parsed", ok && y != nil && y.Element == m.typs[0] && y.Annotations == m.anns)
	default:
		y, ok := x.(*tf.List)
		gv.Ensure("C20", "the node is what was parsed", ok && y != nil && y.Element == m.typs[0] && y.Annotations == m.anns)
	}
}

// HValue: a name, a literal, a list or a map.
//
//gv:harness parse/Value props=C19,C20,C21 default=C19
//gv:symbolic
//gv:peel
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).value
func HValue() {
	m, p := begin(&grammar{
		rules: []rule{
			{0, int(tf.VerifIDENT), 1}, {0, int(tf.VerifINT), 2}, {0, int(tf.VerifFLOAT), 3}, {0, int(tf.VerifSTRING), 4},
			{0, int(tf.VerifLBRACK), 5}, {5, nValue, 6}, {6, nValue, 6}, {6, int(tf.VerifCOMMA), 6},
			{6, int(tf.VerifSEMICOLON), 6}, {5, int(tf.VerifRBRACK), 7}, {6, int(tf.VerifRBRACK), 7}, {0, int(tf.VerifLBRACE), 8},
			{8, nPair, 9}, {9, nPair, 9}, {9, int(tf.VerifCOMMA), 9}, {9, int(tf.VerifSEMICOLON), 9},
			{8, int(tf.VerifRBRACE), 10}, {9, int(tf.VerifRBRACE), 10},
		},
		final: []int{1, 2, 3, 4, 7, 10},
	})
	m.rec = true
	var x tf.Value
	if !abandon(m, func() { x = tf.VerifValue(p) }) {
		return
	}
	if !m.end(p) {
		return
	}
	switch m.at {
	case 1:
		y, ok := x.(*tf.Ident)
		gv.Ensure("C20", "the node is what was parsed", ok && is(y, m.lits[1]))
	case 2:
		y, ok := x.(*tf.Int)
		gv.Ensure("C20", "the node is what was parsed", ok && number(y, true, m.lits[2]))
	case 3:
		y, ok := x.(*tf.Float)
		gv.Ensure("C20", "the node is what was parsed", ok && y != nil && y.Value == m.lits[3])
	case 4:
		y, ok := x.(*tf.String)
		gv.Ensure("C20", "the node is what was parsed", ok && y != nil && y.Value == m.lits[4])
	case 7:
		y, ok := x.(*tf.ValueList)
		gv.Ensure("C20", "every element is recorded", ok && y != nil && len(y.List) == len(m.valueList))
		if i := gv.Int(); 0 <= i && i < len(y.List) {
			gv.Reach("element")
			gv.Ensure("C20", "every element is recorded in order", y.List[i] == m.valueList[i])
		}
	case 10:
		y, ok := x.(*tf.KeyValuePairList)
		gv.Ensure("C20", "every element is recorded", ok && y != nil && len(y.List) == len(m.pairList))
		if i := gv.Int(); 0 <= i && i < len(y.List) {
			gv.Reach("pair")
			gv.Ensure("C20", "every element is recorded in order", y.List[i] == m.pairList[i])
		}
	}
}

// HSeparator: any number of separators.
//
//gv:harness parse/Separator props=C19,C20,C21 default=C19
//gv:symbolic
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).separator
func HSeparator() {
	m, p := begin(&grammar{
		rules: []rule{{0, int(tf.VerifCOMMA), 0}, {0, int(tf.VerifSEMICOLON), 0}},
		final: []int{0},
	})
	tf.VerifSeparator(p)
	m.own(p)
	gv.Ensure("C20", "every separator is consumed, and nothing else", m.at == 0 && !separates(m.tok))
	gv.Ensure("C19", "the depth is as before", tf.VerifDepth(p) == m.depth)
	gv.Ensure("C19", "parsing does not go back", m.eaten >= m.start)
}

// HHeader: include string, or namespace scope name, with annotations; nil
// if the source is not at a header.
//
//gv:harness parse/Header props=C19,C20,C21 default=C19
//gv:symbolic
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).header
func HHeader() {
	m, p := begin(&grammar{
		rules: []rule{
			{0, int(tf.VerifINCLUDE), 1}, {1, int(tf.VerifSTRING), 2},
			{0, int(tf.VerifNAMESPACE), 3}, {3, int(tf.VerifMUL), 4}, {3, int(tf.VerifIDENT), 5},
			{4, int(tf.VerifIDENT), 6}, {5, int(tf.VerifIDENT), 6}, {6, nAnnotations, 7},
		},
		final: []int{2, 6, 7},
	})
	if !first(nHeader, m.tok) {
		h := tf.VerifHeader(p)
		m.own(p)
		gv.Ensure("C20", "there is no header where there is none", h == nil && m.at == 0 && m.eaten == m.start)
		gv.Reach("no header")
		return
	}
	h := tf.VerifHeader(p)
	gv.Ensure("C20", "there is a node", h != nil)
	if !m.end(p) {
		return
	}
	if m.seen[1] {
		x, ok := h.(*tf.Include)
		gv.Ensure("C20", "the node is what was parsed", ok && x != nil && x.Path != nil && x.Path.Value == m.lits[2])
		return
	}
	x, ok := h.(*tf.Namespace)
	gv.Ensure("C20", "the node is what was parsed", ok && x != nil && is(x.Name, m.lits[6]) && x.Annotations == m.anns)
	gv.Ensure("C20", "the node is what was parsed", m.seen[4] && x.Scope == nil || m.seen[5] && is(x.Scope, m.lits[5]))
}

// HDef: a definition, or what is abandoned up to the next one.
//
//gv:harness parse/Def props=C19,C20,C21 default=C19
//gv:symbolic
//gv:peel
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).def
func HDef() {
	m, p := begin(&grammar{
		rules: []rule{{0, nConst, 1}, {0, nTypedef, 1}, {0, nEnum, 1}, {0, nStruct, 1}, {0, nService, 1}},
		final: []int{1},
	})
	gv.Assume(m.tok != tf.VerifEOF)
	m.depth = 0 // that of the phrases in it
	m.eaten, m.start = 0, 0
	pos := m.pos
	d := tf.VerifDef(p)
	m.own(p)
	gv.Ensure("C19,C20", "there is a node", d != nil)
	gv.Ensure("C19", "parsing advances", m.eaten > m.start)
	if m.at >= 0 {
		gv.Reach("definition")
		gv.Ensure("C20,C21", "what has been consumed is a whole definition", m.at == 1 && !m.gone)
	}
	if m.gone {
		gv.Reach("abandoned")
		gv.Ensure("C19", "parsing resumes at the next definition", m.tok == tf.VerifEOF || definition(m.tok))
	}
	if !m.gone && len(m.defs) == 1 {
		gv.Ensure("C20", "the node is what was parsed", d == m.defs[0])
		return
	}
	x, ok := d.(*tf.BadDef)
	gv.Ensure("C20,C21", "an abandoned definition is recorded as such", ok && x != nil && m.at < 0)
	gv.Ensure("C20", "an abandoned definition is recorded where it is", x.From == pos && x.To == m.pos)
}

// HFile: headers and definitions up to the end of the source.
//
//gv:harness parse/File props=C19,C20,C21 default=C19
//gv:symbolic
//gv:real (*github.com/itstarsun/go-thrift/tools/thriftfile.parser).file_
func HFile() {
	m, p := begin(&grammar{
		rules: []rule{{0, nHeader, 0}, {0, nDef, 1}, {1, nDef, 1}},
		final: []int{0, 1},
	})
	m.file = true
	x := tf.VerifFile(p)
	m.own(p)
	gv.Ensure("C19,C20", "there is a file", x != nil)
	gv.Ensure("C19,C20", "the whole source is parsed", m.tok == tf.VerifEOF)
	m.flush()
	gv.Ensure("C20", "every definition is recorded", len(x.Defs) == len(m.defs))
	all := len(x.Headers) == len(m.headers)
	but := len(x.Headers) == len(m.earlier)
	gv.Ensure("C20", "every header is recorded", all || but)
	if i := gv.Int(); 0 <= i && i < len(x.Headers) {
		gv.Reach("header")
		gv.Ensure("C20", "every header is recorded in order", all && x.Headers[i] == m.headers[i] || but && x.Headers[i] == m.earlier[i])
	}
	if i := gv.Int(); 0 <= i && i < len(x.Defs) {
		gv.Reach("definition")
		gv.Ensure("C20", "every definition is recorded in order", x.Defs[i] == m.defs[i])
	}
}
