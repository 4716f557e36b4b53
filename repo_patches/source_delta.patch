From d673d0a7fdfb63a47cbda2be67590acc6f2241d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 1/9] fix: thriftcompact: keep the destination on writer Reset
 so that Flush reaches it

---
 encoding/thriftcompact/thriftcompact.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index fc079ff..226eca1 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -534,6 +534,7 @@ func (x *writer) Reset(uw io.Writer) {
 	x.Writer.Reset(uw)
 	*x = writer{
 		Writer:       x.Writer,
+		uw:           uw,
 		lastFieldIDs: x.lastFieldIDs[:0],
 	}
 }
-- 
2.43.0


From e6be8167dfe88f8d0886f598673741e805d60738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 2/9] fix: thriftwire: do not wait for bytes beyond a varint

---
 encoding/thriftwire/varint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/thriftwire/varint.go b/encoding/thriftwire/varint.go
index 99163bb..265fca4 100644
--- a/encoding/thriftwire/varint.go
+++ b/encoding/thriftwire/varint.go
@@ -7,7 +7,7 @@ import (
 
 // ReadUvarint is like [binary.ReadUvarint] but optimized for [bufio.Reader].
 func ReadUvarint(b *bufio.Reader) (uint64, error) {
-	if buf, _ := b.Peek(binary.MaxVarintLen64); len(buf) > 0 {
+	if buf, _ := b.Peek(min(b.Buffered(), binary.MaxVarintLen64)); len(buf) > 0 {
 		if x, n := binary.Uvarint(buf); n > 0 {
 			_, err := b.Discard(n)
 			return x, err
@@ -18,7 +18,7 @@ func ReadUvarint(b *bufio.Reader) (uint64, error) {
 
 // ReadVarint is like [binary.ReadVarint] but optimized for [bufio.Reader].
 func ReadVarint(b *bufio.Reader) (int64, error) {
-	if buf, _ := b.Peek(binary.MaxVarintLen64); len(buf) > 0 {
+	if buf, _ := b.Peek(min(b.Buffered(), binary.MaxVarintLen64)); len(buf) > 0 {
 		if x, n := binary.Varint(buf); n > 0 {
 			_, err := b.Discard(n)
 			return x, err
-- 
2.43.0


From bdded42ae57240c966cb7040ed01f1a60af34ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 3/9] fix: thriftcompact: encode negative message ids as
 unsigned 32-bit varints

---
 encoding/thriftcompact/thriftcompact.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 226eca1..9312392 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -312,7 +312,7 @@ func (x *writer) WriteMessageBegin(h thriftwire.MessageHeader) (err error) {
 	if err != nil {
 		return err
 	}
-	err = x.writeUvarint(uint64(h.ID))
+	err = x.writeUvarint(uint64(uint32(h.ID)))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 1590700091575e5aa3c71b550393197c82567ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 4/9] fix: thriftcompact: compute field id deltas without
 overflow

---
 encoding/thriftcompact/thriftcompact.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 9312392..8c8aee8 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -361,7 +361,7 @@ func appendFieldHeader(buf []byte, opts appendFieldHeaderOptions) (_ []byte, err
 			return buf, err
 		}
 	}
-	if delta := opts.h.ID - opts.lastFieldID; delta > 0 && delta <= 15 {
+	if delta := int32(opts.h.ID) - int32(opts.lastFieldID); delta > 0 && delta <= 15 {
 		return append(buf, byte(delta<<4)|byte(t)), nil
 	}
 	buf = append(buf, byte(t))
-- 
2.43.0


From fb8666233e851c48746cad3499c5185adb0dfdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 5/9] fix: thriftwire: bound the nesting depth of Skip

---
 encoding/thriftwire/skip.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/encoding/thriftwire/skip.go b/encoding/thriftwire/skip.go
index 17a2639..070e76e 100644
--- a/encoding/thriftwire/skip.go
+++ b/encoding/thriftwire/skip.go
@@ -1,7 +1,22 @@
 package thriftwire
 
+import "errors"
+
+// maxSkipDepth is the maximum nesting depth of the values skipped by [Skip].
+const maxSkipDepth = 10000
+
+var errSkipDepth = errors.New("thriftwire: exceeded max nesting depth")
+
 // Skip skips over the next value.
-func Skip(r Reader, t Type) (err error) {
+func Skip(r Reader, t Type) error {
+	return skip(r, t, maxSkipDepth)
+}
+
+func skip(r Reader, t Type, depth int) (err error) {
+	if depth <= 0 {
+		return errSkipDepth
+	}
+	depth--
 	switch t {
 	default:
 		return InvalidTypeError(t)
@@ -31,7 +46,7 @@ func Skip(r Reader, t Type) (err error) {
 			if h.Type == Stop {
 				break
 			}
-			if err := Skip(r, h.Type); err != nil {
+			if err := skip(r, h.Type, depth); err != nil {
 				return err
 			}
 			if err := r.ReadFieldEnd(); err != nil {
@@ -45,10 +60,10 @@ func Skip(r Reader, t Type) (err error) {
 			return err
 		}
 		for i := 0; i < h.Size; i++ {
-			if err := Skip(r, h.Key); err != nil {
+			if err := skip(r, h.Key, depth); err != nil {
 				return err
 			}
-			if err := Skip(r, h.Value); err != nil {
+			if err := skip(r, h.Value, depth); err != nil {
 				return err
 			}
 		}
@@ -59,7 +74,7 @@ func Skip(r Reader, t Type) (err error) {
 			return err
 		}
 		for i := 0; i < h.Size; i++ {
-			if err := Skip(r, h.Element); err != nil {
+			if err := skip(r, h.Element, depth); err != nil {
 				return err
 			}
 		}
@@ -70,7 +85,7 @@ func Skip(r Reader, t Type) (err error) {
 			return err
 		}
 		for i := 0; i < h.Size; i++ {
-			if err := Skip(r, h.Element); err != nil {
+			if err := skip(r, h.Element, depth); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 9810e3d9d09f95209ae93c3f2518a357def95179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:50 +0000
Subject: [PATCH 6/9] fix: thrift: bound the nesting depth of values
 (un)marshaled

---
 thrift/arshal.go         | 13 +++++++++++--
 thrift/arshal_default.go | 18 ++++++++++++++++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/thrift/arshal.go b/thrift/arshal.go
index 42e7700..820d184 100644
--- a/thrift/arshal.go
+++ b/thrift/arshal.go
@@ -8,7 +8,14 @@ import (
 	"github.com/itstarsun/go-thrift/encoding/thriftwire"
 )
 
-type marshalOptions struct{}
+// maxDepth is the maximum nesting depth of the values (un)marshaled.
+const maxDepth = 10000
+
+var errMaxDepth = errors.New("exceeded max nesting depth")
+
+type marshalOptions struct {
+	depth int // nesting depth of the value being marshaled
+}
 
 // Marshal serializes a Go value into a [thriftwire.Writer].
 func Marshal(out thriftwire.Writer, in any) error {
@@ -37,7 +44,9 @@ func (mo marshalOptions) Marshal(out thriftwire.Writer, in any) error {
 	return fncs.marshal(out, va, mo)
 }
 
-type unmarshalOptions struct{}
+type unmarshalOptions struct {
+	depth int // nesting depth of the value being unmarshaled
+}
 
 // Unmarshal deserializes a Go value from a [thriftwire.Reader].
 func Unmarshal(in thriftwire.Reader, out any) error {
diff --git a/thrift/arshal_default.go b/thrift/arshal_default.go
index dc6854b..05bd824 100644
--- a/thrift/arshal_default.go
+++ b/thrift/arshal_default.go
@@ -273,6 +273,9 @@ func makeStructArshaler(t reflect.Type) *arshaler {
 			err.action = "marshal"
 			return &err
 		}
+		if mo.depth++; mo.depth > maxDepth {
+			return &SemanticError{action: "marshal", ThriftType: thriftwire.Struct, GoType: t, Err: errMaxDepth}
+		}
 		err := w.WriteStructBegin(thriftwire.StructHeader{
 			Name: t.Name(),
 		})
@@ -328,6 +331,9 @@ func makeStructArshaler(t reflect.Type) *arshaler {
 		if wt != thriftwire.Struct {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
+		if uo.depth++; uo.depth > maxDepth {
+			return &SemanticError{action: "unmarshal", ThriftType: thriftwire.Struct, GoType: t, Err: errMaxDepth}
+		}
 		_, err := r.ReadStructBegin()
 		if err != nil {
 			err := &wireError{action: "ReadStructBegin", err: err}
@@ -404,6 +410,9 @@ func makeMapArshaler(t reflect.Type) *arshaler {
 		if keyFncs.wireType == thriftwire.Stop || valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map, GoType: t}
 		}
+		if mo.depth++; mo.depth > maxDepth {
+			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map, GoType: t, Err: errMaxDepth}
+		}
 		n := va.Len()
 		err := w.WriteMapBegin(thriftwire.MapHeader{
 			Key:   keyFncs.wireType,
@@ -439,6 +448,9 @@ func makeMapArshaler(t reflect.Type) *arshaler {
 		if wt != thriftwire.Map {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
+		if uo.depth++; uo.depth > maxDepth {
+			return &SemanticError{action: "unmarshal", ThriftType: thriftwire.Map, GoType: t, Err: errMaxDepth}
+		}
 		h, err := r.ReadMapBegin()
 		if err != nil {
 			err := &wireError{action: "ReadMapBegin", err: err}
@@ -496,6 +508,9 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 		if valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: wireType, GoType: t}
 		}
+		if mo.depth++; mo.depth > maxDepth {
+			return &SemanticError{action: "marshal", ThriftType: wireType, GoType: t, Err: errMaxDepth}
+		}
 		n := va.Len()
 		err := writeBegin(w, H{
 			Element: valFncs.wireType,
@@ -522,6 +537,9 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 		if wt != wireType {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
+		if uo.depth++; uo.depth > maxDepth {
+			return &SemanticError{action: "unmarshal", ThriftType: wireType, GoType: t, Err: errMaxDepth}
+		}
 		h, err := readBegin(r)
 		if err != nil {
 			err := &wireError{action: readBeginAction, err: err}
-- 
2.43.0


From 6f18fe360f882eb8229028e87d3aba307df0a2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:07 +0000
Subject: [PATCH 7/9] fix: thrift: support recursive slice, map and pointer
 types

---
 thrift/arshal_default.go | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/thrift/arshal_default.go b/thrift/arshal_default.go
index 05bd824..84ff1cb 100644
--- a/thrift/arshal_default.go
+++ b/thrift/arshal_default.go
@@ -403,10 +403,18 @@ func (va addressableValue) indirect(mayAlloc bool) addressableValue {
 
 func makeMapArshaler(t reflect.Type) *arshaler {
 	var fncs arshaler
-	keyFncs := lookupArshaler(t.Key())
-	valFncs := lookupArshaler(t.Elem())
+	var (
+		once    sync.Once
+		keyFncs *arshaler
+		valFncs *arshaler
+	)
+	init := func() { // not before it is needed as t may be recursive
+		keyFncs = lookupArshaler(t.Key())
+		valFncs = lookupArshaler(t.Elem())
+	}
 	fncs.wireType = thriftwire.Map
 	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
+		once.Do(init)
 		if keyFncs.wireType == thriftwire.Stop || valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map, GoType: t}
 		}
@@ -445,6 +453,7 @@ func makeMapArshaler(t reflect.Type) *arshaler {
 		return nil
 	}
 	fncs.unmarshal = func(r thriftwire.Reader, va addressableValue, uo unmarshalOptions, wt thriftwire.Type) error {
+		once.Do(init)
 		if wt != thriftwire.Map {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
@@ -502,9 +511,16 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 	readEnd func(thriftwire.Reader) error,
 ) *arshaler {
 	var fncs arshaler
-	valFncs := lookupArshaler(t.Elem())
+	var (
+		once    sync.Once
+		valFncs *arshaler
+	)
+	init := func() { // not before it is needed as t may be recursive
+		valFncs = lookupArshaler(t.Elem())
+	}
 	fncs.wireType = wireType
 	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
+		once.Do(init)
 		if valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: wireType, GoType: t}
 		}
@@ -534,6 +550,7 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 		return nil
 	}
 	fncs.unmarshal = func(r thriftwire.Reader, va addressableValue, uo unmarshalOptions, wt thriftwire.Type) error {
+		once.Do(init)
 		if wt != wireType {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
@@ -613,6 +630,9 @@ func makeListArshaler(t reflect.Type) *arshaler {
 }
 
 func makePointerArshaler(t reflect.Type) *arshaler {
+	if isPointerCycle(t) {
+		return makeInvalidArshaler(t)
+	}
 	var fncs arshaler
 	valFncs := lookupArshaler(t.Elem())
 	fncs.wireType = valFncs.wireType
@@ -634,6 +654,18 @@ func makePointerArshaler(t reflect.Type) *arshaler {
 	return &fncs
 }
 
+// isPointerCycle reports whether t points to nothing but further pointers.
+func isPointerCycle(t reflect.Type) bool {
+	seen := make(map[reflect.Type]bool)
+	for ; t.Kind() == reflect.Pointer; t = t.Elem() {
+		if seen[t] {
+			return true
+		}
+		seen[t] = true
+	}
+	return false
+}
+
 func makeInvalidArshaler(t reflect.Type) *arshaler {
 	var fncs arshaler
 	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
-- 
2.43.0


From 1e941d44551b300071133580e4055936c0136cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 8/9] fix: thriftfile: bound the nesting depth of types and
 values

---
 tools/thriftfile/parser.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/tools/thriftfile/parser.go b/tools/thriftfile/parser.go
index 47ad980..b6ab7c9 100644
--- a/tools/thriftfile/parser.go
+++ b/tools/thriftfile/parser.go
@@ -75,9 +75,25 @@ func (p errors_) Error() string {
 	return fmt.Sprintf("%s (and %d more errors)", p[0], len(p)-1)
 }
 
+// maxDepth is the maximum nesting depth of types and values.
+const maxDepth = 10000
+
 type parser struct {
 	scanner
-	errs errors_
+	errs  errors_
+	depth int // nesting depth of the type or value being parsed
+}
+
+// nest enters a nested type or value. The caller must leave it by unnest.
+func (p *parser) nest() {
+	if p.depth++; p.depth > maxDepth {
+		p.error(p.pos, "exceeded max nesting depth")
+		panic(badDef{})
+	}
+}
+
+func (p *parser) unnest() {
+	p.depth--
 }
 
 func (p *parser) init(fset *gotoken.FileSet, filename string, src []byte) {
@@ -229,6 +245,7 @@ type badDef struct{}
 
 func (p *parser) def() (d Def) {
 	pos := p.pos
+	p.depth = 0
 	defer func() {
 		if r := recover(); r != nil {
 			if _, ok := r.(badDef); !ok {
@@ -401,6 +418,8 @@ func (p *parser) methods() *MethodList {
 }
 
 func (p *parser) type_() Type {
+	p.nest()
+	defer p.unnest()
 	switch p.tok {
 	case _MAP:
 		return p.map_()
@@ -456,6 +475,8 @@ func (p *parser) list_() *List {
 }
 
 func (p *parser) value() Value {
+	p.nest()
+	defer p.unnest()
 	switch p.tok {
 	case _IDENT:
 		return p.ident()
-- 
2.43.0


From 623408a2a0aa8a0d3cb29c1aec620fcd2f120e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 9/9] fix: thriftfile: do not treat definition_beg and
 definition_end as keywords

---
 tools/thriftfile/tokens.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/thriftfile/tokens.go b/tools/thriftfile/tokens.go
index bae47f8..1463f2d 100644
--- a/tools/thriftfile/tokens.go
+++ b/tools/thriftfile/tokens.go
@@ -83,6 +83,9 @@ var keywords map[string]token
 func init() {
 	keywords = make(map[string]token, keyword_end-(keyword_beg+1))
 	for i := keyword_beg + 1; i < keyword_end; i++ {
+		if i == definition_beg || i == definition_end {
+			continue // markers, not keywords
+		}
 		keywords[i.String()] = i
 	}
 }
-- 
2.43.0

