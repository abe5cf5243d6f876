From e084a6cd8517921dbc6d7c21b6a64edf47e28c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:16 +0000
Subject: [PATCH 01/51] fix: keep one listing entry per line when an op has
 surplus arguments

---
 process.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index ca3174a..c392f70 100644
--- a/process.go
+++ b/process.go
@@ -3182,7 +3182,10 @@ func Process(source string) *ProcessResult {
 			defer func() {
 				switch v := recover().(type) {
 				case recoverable:
-					c.emit(Empty) // consider replacing with Raw string expr
+					// keep a single listing entry per line: the op might have been emitted before the failure
+					if len(c.ops) == line {
+						c.emit(Empty) // consider replacing with Raw string expr
+					}
 				case nil:
 				default:
 					fmt.Printf("unrecoverable: %v", v)
-- 
2.43.0


From 95dfdbba0b11520b0bb03bb6cb1941ca06a631cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:04 +0000
Subject: [PATCH 02/51] fix: do not let an unterminated string swallow the
 following lines

---
 lexer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lexer.go b/lexer.go
index 44a2bc9..bff103d 100644
--- a/lexer.go
+++ b/lexer.go
@@ -162,10 +162,18 @@ func (z *Lexer) readValue() {
 		for {
 			if z.i == len(z.Source) {
 				z.fail("incomplete string")
+				z.emit(TokenValue)
 				return
 			}
 
 			c, n := utf8.DecodeRune(z.Source[z.i:])
+			if c == '\r' || c == '\n' {
+				// strings do not span lines
+				z.fail("incomplete string")
+				z.emit(TokenValue)
+				return
+			}
+
 			if c == '"' && p != '\\' {
 				z.inc(n)
 
-- 
2.43.0


From d37c7a8022cb81c42d5fc245f02772f4cbd1ed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:06 +0000
Subject: [PATCH 03/51] fix: an escaped backslash does not escape the closing
 quote

---
 lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index bff103d..0559290 100644
--- a/lexer.go
+++ b/lexer.go
@@ -195,7 +195,11 @@ func (z *Lexer) readValue() {
 
 			z.inc(n)
 
-			p = c
+			if c == '\\' && p == '\\' {
+				p = 0 // escaped backslash
+			} else {
+				p = c
+			}
 		}
 	} else {
 		for {
-- 
2.43.0


From 1bfcefdf0620b3309859c162b01731b7ac2ec921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:06 +0000
Subject: [PATCH 04/51] fix: reject a lone quote as a method signature

---
 process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/process.go b/process.go
index c392f70..82ad382 100644
--- a/process.go
+++ b/process.go
@@ -981,7 +981,7 @@ func (c *parserContext) mustReadSignature(name string) string {
 
 	b := 0
 	e := len(value) - 1
-	if value[b] != '"' || value[e] != '"' {
+	if len(value) < 2 || value[b] != '"' || value[e] != '"' {
 		c.failCurr(errors.New("missing quotes"))
 	}
 
-- 
2.43.0


From b4a1b0a6a47f1e37f06e7cd920809e705aff74b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:08 +0000
Subject: [PATCH 05/51] fix: argument lookup on an empty line

---
 process.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/process.go b/process.go
index 82ad382..849edbe 100644
--- a/process.go
+++ b/process.go
@@ -2857,6 +2857,10 @@ func (r ProcessResult) ArgAt(l int, ch int) (opItemArg, int, bool) {
 
 	ln := r.Lines[l]
 
+	if len(ln) == 0 {
+		return res, -1, false
+	}
+
 	curr := len(ln) - 1
 
 	_, idx, ok := ln.ImmAt(ch)
-- 
2.43.0


From c7ae4df793cc340a0d3394ca91882037e064e9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:01 +0000
Subject: [PATCH 06/51] fix: field lookup with a negative number no longer
 panics

---
 go_algorand.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/go_algorand.go b/go_algorand.go
index 9a99996..71d55fe 100644
--- a/go_algorand.go
+++ b/go_algorand.go
@@ -631,7 +631,7 @@ const (
 )
 
 func txnFieldSpecByField(f TxnField) (txnFieldSpec, bool) {
-	if int(f) >= len(txnFieldSpecs) {
+	if f < 0 || int(f) >= len(txnFieldSpecs) {
 		return txnFieldSpec{}, false
 	}
 	return txnFieldSpecs[f], true
@@ -1005,7 +1005,7 @@ var globalFieldSpecs = [...]globalFieldSpec{
 }
 
 func globalFieldSpecByField(f GlobalField) (globalFieldSpec, bool) {
-	if int(f) >= len(globalFieldSpecs) {
+	if f >= GlobalField(len(globalFieldSpecs)) {
 		return globalFieldSpec{}, false
 	}
 	return globalFieldSpecs[f], true
@@ -1068,7 +1068,7 @@ var ecdsaCurveSpecs = [...]ecdsaCurveSpec{
 }
 
 func ecdsaCurveSpecByField(c EcdsaCurve) (ecdsaCurveSpec, bool) {
-	if int(c) >= len(ecdsaCurveSpecs) {
+	if c < 0 || int(c) >= len(ecdsaCurveSpecs) {
 		return ecdsaCurveSpec{}, false
 	}
 	return ecdsaCurveSpecs[c], true
@@ -1114,7 +1114,7 @@ var base64EncodingSpecs = [...]base64EncodingSpec{
 }
 
 func base64EncodingSpecByField(e Base64Encoding) (base64EncodingSpec, bool) {
-	if int(e) >= len(base64EncodingSpecs) {
+	if e < 0 || int(e) >= len(base64EncodingSpecs) {
 		return base64EncodingSpec{}, false
 	}
 	return base64EncodingSpecs[e], true
@@ -1181,7 +1181,7 @@ var jsonRefSpecs = [...]jsonRefSpec{
 }
 
 func jsonRefSpecByField(r JSONRefType) (jsonRefSpec, bool) {
-	if int(r) >= len(jsonRefSpecs) {
+	if r < 0 || int(r) >= len(jsonRefSpecs) {
 		return jsonRefSpec{}, false
 	}
 	return jsonRefSpecs[r], true
@@ -1241,7 +1241,7 @@ var vrfStandardSpecs = [...]vrfStandardSpec{
 }
 
 func vrfStandardSpecByField(r VrfStandard) (vrfStandardSpec, bool) {
-	if int(r) >= len(vrfStandardSpecs) {
+	if r < 0 || int(r) >= len(vrfStandardSpecs) {
 		return vrfStandardSpec{}, false
 	}
 	return vrfStandardSpecs[r], true
@@ -1313,7 +1313,7 @@ var blockFieldSpecs = [...]blockFieldSpec{
 }
 
 func blockFieldSpecByField(r BlockField) (blockFieldSpec, bool) {
-	if int(r) >= len(blockFieldSpecs) {
+	if r < 0 || int(r) >= len(blockFieldSpecs) {
 		return blockFieldSpec{}, false
 	}
 	return blockFieldSpecs[r], true
@@ -1401,7 +1401,7 @@ var assetHoldingFieldSpecs = [...]assetHoldingFieldSpec{
 }
 
 func assetHoldingFieldSpecByField(f AssetHoldingField) (assetHoldingFieldSpec, bool) {
-	if int(f) >= len(assetHoldingFieldSpecs) {
+	if f < 0 || int(f) >= len(assetHoldingFieldSpecs) {
 		return assetHoldingFieldSpec{}, false
 	}
 	return assetHoldingFieldSpecs[f], true
@@ -1497,7 +1497,7 @@ var assetParamsFieldSpecs = [...]assetParamsFieldSpec{
 }
 
 func assetParamsFieldSpecByField(f AssetParamsField) (assetParamsFieldSpec, bool) {
-	if int(f) >= len(assetParamsFieldSpecs) {
+	if f < 0 || int(f) >= len(assetParamsFieldSpecs) {
 		return assetParamsFieldSpec{}, false
 	}
 	return assetParamsFieldSpecs[f], true
@@ -1585,7 +1585,7 @@ var appParamsFieldSpecs = [...]appParamsFieldSpec{
 }
 
 func appParamsFieldSpecByField(f AppParamsField) (appParamsFieldSpec, bool) {
-	if int(f) >= len(appParamsFieldSpecs) {
+	if f < 0 || int(f) >= len(appParamsFieldSpecs) {
 		return appParamsFieldSpec{}, false
 	}
 	return appParamsFieldSpecs[f], true
@@ -1687,7 +1687,7 @@ var acctParamsFieldSpecs = [...]acctParamsFieldSpec{
 }
 
 func acctParamsFieldSpecByField(f AcctParamsField) (acctParamsFieldSpec, bool) {
-	if int(f) >= len(acctParamsFieldSpecs) {
+	if f < 0 || int(f) >= len(acctParamsFieldSpecs) {
 		return acctParamsFieldSpec{}, false
 	}
 	return acctParamsFieldSpecs[f], true
@@ -2176,7 +2176,7 @@ var ecGroupSpecs = [...]ecGroupSpec{
 }
 
 func ecGroupSpecByField(c EcGroup) (ecGroupSpec, bool) {
-	if int(c) >= len(ecGroupSpecs) {
+	if c < 0 || int(c) >= len(ecGroupSpecs) {
 		return ecGroupSpec{}, false
 	}
 	return ecGroupSpecs[c], true
-- 
2.43.0


From 37ec6d93d9de1b6677b69ff95d3f22a50cb5f78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:01 +0000
Subject: [PATCH 07/51] fix: args is a logicsig opcode, not an application one

---
 process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/process.go b/process.go
index 849edbe..e01c5d2 100644
--- a/process.go
+++ b/process.go
@@ -2459,8 +2459,8 @@ func opGtxnsas(c ProcessContext) {
 	c.emit(&GtxnsasExpr{Field: f})
 }
 func opArgs(c ProcessContext) {
-	c.modeMinVersion(ModeSig, 0)
-	c.modeMinVersion(ModeApp, 5)
+	c.modeMinVersion(ModeSig, 5)
+	c.modeMinVersion(ModeApp, 0)
 
 	c.emit(Args)
 }
-- 
2.43.0


From 83d6aeb8c5d3f055ec973e2e337fc30d910fe82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:03 +0000
Subject: [PATCH 08/51] fix: check the version of array transaction fields

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 361e582..26363d7 100644
--- a/parser.go
+++ b/parser.go
@@ -293,7 +293,7 @@ func readTxnField(c fieldContext, v uint64, s string) (TxnField, bool, error) {
 		var needed uint64
 
 		switch c {
-		case txnFieldContext:
+		case txnFieldContext, txnaFieldContext:
 			needed = spec.version
 		case itxnFieldContext:
 			if spec.itxVersion == 0 {
-- 
2.43.0


From 3948613d6c22a4221fd3fc0c0795e1954189fdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:06 +0000
Subject: [PATCH 09/51] fix: gitxna group index is 8 bits wide

---
 process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/process.go b/process.go
index e01c5d2..6605941 100644
--- a/process.go
+++ b/process.go
@@ -2400,7 +2400,7 @@ func opGitxn(c ProcessContext) {
 func opGitxna(c ProcessContext) {
 	c.modeMinVersion(ModeSig, 0)
 	c.modeMinVersion(ModeApp, 6)
-	t := c.mustReadInt("t")
+	t := c.mustReadUint8("t")
 	f := c.mustReadTxnaField("f")
 	i := c.mustReadUint8("i")
 
-- 
2.43.0


From 03338d1a960ab44be88a9e79885809ee04308595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:08 +0000
Subject: [PATCH 10/51] fix: accept 8-bit immediates in every radix

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 26363d7..023ab30 100644
--- a/parser.go
+++ b/parser.go
@@ -84,7 +84,7 @@ func readInt8(s string) (int8, error) {
 }
 
 func readUint8(s string) (uint8, error) {
-	v, err := strconv.ParseUint(s, 10, 8)
+	v, err := strconv.ParseUint(s, 0, 8)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 25586b080c3641609b6f07fc96b9605a9b547849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:11 +0000
Subject: [PATCH 11/51] fix: report each number of an integer array once

---
 process.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/process.go b/process.go
index 6605941..5c6bb28 100644
--- a/process.go
+++ b/process.go
@@ -1131,7 +1131,6 @@ func (c *parserContext) readUint64Array(name string) []uint64 {
 	for c.args.Scan() {
 		i := c.parseUint64(name)
 		res = append(res, i)
-		c.nums = append(c.nums, c.args.Curr())
 	}
 
 	return res
-- 
2.43.0


From e17abca3557d0d308ec96fdede1c5096e5116249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:23 +0000
Subject: [PATCH 12/51] fix: require an index for array transaction fields and
 only for them

---
 parser.go  | 4 ++++
 process.go | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/parser.go b/parser.go
index 023ab30..8abf27d 100644
--- a/parser.go
+++ b/parser.go
@@ -285,6 +285,10 @@ func readTxnField(c fieldContext, v uint64, s string) (TxnField, bool, error) {
 	spec, ok := txnFieldSpecByName[s]
 	if ok {
 		switch c {
+		case txnFieldContext:
+			if spec.array {
+				return 0, true, errors.New("array field requires an index")
+			}
 		case txnaFieldContext:
 			if !spec.array {
 				return 0, true, errors.New("not available in array context")
diff --git a/process.go b/process.go
index 5c6bb28..7d562a8 100644
--- a/process.go
+++ b/process.go
@@ -1400,6 +1400,12 @@ func (c *parserContext) mustRead(name string) string {
 
 func (c *parserContext) mustReadTxnField(name string) TxnField {
 	c.mustReadArg(name)
+
+	// a following index selects an element of an array field
+	if c.args.i < len(c.args.ts) {
+		return c.parseTxnField(txnaFieldContext, name)
+	}
+
 	return c.parseTxnField(txnFieldContext, name)
 }
 
-- 
2.43.0


From d2b4095768e37b4f65228ecf954493fcbbab815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:21 +0000
Subject: [PATCH 13/51] fix: print replace2, pushints and extract_uint64 under
 their names

---
 expr.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expr.go b/expr.go
index 5c90871..e0d67e5 100644
--- a/expr.go
+++ b/expr.go
@@ -1943,7 +1943,7 @@ type Replace2Expr struct {
 }
 
 func (e *Replace2Expr) String() string {
-	return fmt.Sprintf("repace2 %d", e.Start)
+	return fmt.Sprintf("replace2 %d", e.Start)
 }
 
 func (e *Replace2Expr) Execute(b *VmBranch) error {
@@ -2220,7 +2220,7 @@ func (e *PushIntsExpr) String() string {
 		ss = append(ss, strconv.FormatUint(i, 10))
 	}
 
-	return fmt.Sprintf("pushbytess %s", strings.Join(ss, " "))
+	return fmt.Sprintf("pushints %s", strings.Join(ss, " "))
 
 }
 
@@ -2984,7 +2984,7 @@ var Extract3 = &Extract3Expr{}
 type ExtractUint64Expr struct{}
 
 func (e *ExtractUint64Expr) String() string {
-	return "extract_unt64"
+	return "extract_uint64"
 }
 
 var ExtractUint64 = &ExtractUint64Expr{}
-- 
2.43.0


From fb00559df12fb903a6879ebd1842243b29433e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:23 +0000
Subject: [PATCH 14/51] fix: print the gtxnas group index before its field

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index e0d67e5..d87cabd 100644
--- a/expr.go
+++ b/expr.go
@@ -2122,7 +2122,7 @@ func (e *GtxnasExpr) Execute(b *VmBranch) error {
 }
 
 func (e *GtxnasExpr) String() string {
-	return fmt.Sprintf("gtxnas %d %d", e.Field, e.Index)
+	return fmt.Sprintf("gtxnas %d %s", e.Index, e.Field)
 }
 
 type ArgsExpr struct{}
-- 
2.43.0


From e656090cea37563901efde79d5680b9085674486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:25 +0000
Subject: [PATCH 15/51] fix: a method signature does not include its quotes

---
 process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/process.go b/process.go
index 7d562a8..2a6e521 100644
--- a/process.go
+++ b/process.go
@@ -988,7 +988,7 @@ func (c *parserContext) mustReadSignature(name string) string {
 	// TODO: validate method sig
 	c.strs = append(c.strs, c.args.Curr())
 
-	return c.args.Text()
+	return value[b+1 : e]
 }
 
 func (c *parserContext) maybeReadArg() bool {
-- 
2.43.0


From 2bd8dcaa633f5b5eaf2a96b1160f7e19c289f1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:27 +0000
Subject: [PATCH 16/51] fix: print empty byte constants in a form that parses

---
 expr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expr.go b/expr.go
index d87cabd..3fcf96d 100644
--- a/expr.go
+++ b/expr.go
@@ -1306,6 +1306,9 @@ func (e Bytes) String() string {
 	case BytesStringLiteral:
 		return fmt.Sprintf("\"%s\"", string(e.Value))
 	case BytesBase64:
+		if len(e.Value) == 0 {
+			return "0x" // an empty base64 literal does not parse
+		}
 		return fmt.Sprintf("b64 %s", base64.StdEncoding.EncodeToString(e.Value))
 	default:
 		panic(fmt.Sprintf("unsupported bytes format: %d", e.Format))
-- 
2.43.0


From 2c5353149d096e85f6b07b7943b0e3f7e93f75b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:29 +0000
Subject: [PATCH 17/51] fix: do not truncate the version of a pragma

---
 expr.go    | 2 +-
 process.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr.go b/expr.go
index 3fcf96d..3987954 100644
--- a/expr.go
+++ b/expr.go
@@ -1449,7 +1449,7 @@ func (e *BoxExtractExpr) Execute(b *VmBranch) error {
 }
 
 type PragmaExpr struct {
-	Version uint8
+	Version uint64
 }
 
 func (e *PragmaExpr) IsNop() {}
diff --git a/process.go b/process.go
index 2a6e521..ef3bd08 100644
--- a/process.go
+++ b/process.go
@@ -1576,7 +1576,7 @@ var typeTxField = []interface{}{}
 
 func opPragma(c ProcessContext) {
 	version := c.mustReadPragma("version")
-	c.emit(&PragmaExpr{Version: uint8(version)})
+	c.emit(&PragmaExpr{Version: version})
 }
 
 func opAddr(c ProcessContext) {
-- 
2.43.0


From 34df4dab5109469676743af47a18492389e62d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:31 +0000
Subject: [PATCH 18/51] fix: optimising does not drop retsub

---
 compiler.go | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/compiler.go b/compiler.go
index c60fc20..17b012e 100644
--- a/compiler.go
+++ b/compiler.go
@@ -133,8 +133,6 @@ func removeUnused(l Listing) Listing {
 		}
 	}
 
-	var prev Expr
-
 	for i, o := range l {
 		switch o := o.(type) {
 		case *LabelExpr:
@@ -161,20 +159,9 @@ func removeUnused(l Listing) Listing {
 				}
 			}
 			res = append(res, o)
-		case *RetSubExpr:
-			switch o2 := prev.(type) {
-			case *LabelExpr:
-				if !used[o2.Name] {
-					continue
-				}
-
-				res = append(res, o)
-			}
 		default:
 			res = append(res, o)
 		}
-
-		prev = o
 	}
 
 	return res
-- 
2.43.0


From 8abd0b16378372ed59dab365a96f89052af8d029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:18 +0000
Subject: [PATCH 19/51] fix: a numeric field must denote an existing, available
 field

---
 parser.go | 108 ++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 96 insertions(+), 12 deletions(-)

diff --git a/parser.go b/parser.go
index 8abf27d..c295e24 100644
--- a/parser.go
+++ b/parser.go
@@ -108,7 +108,14 @@ func readAssetHoldingField(v uint64, s string) (AssetHoldingField, bool, error)
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
-	return AssetHoldingField(value), false, nil
+	// a number stands for the field it denotes
+	spec, ok = assetHoldingFieldSpecByField(AssetHoldingField(value))
+	if !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
+	f, _, err := readAssetHoldingField(v, spec.field.String())
+	return f, false, err
 }
 
 func readVrfVerifyField(v uint64, s string) (VrfStandard, bool, error) {
@@ -127,7 +134,14 @@ func readVrfVerifyField(v uint64, s string) (VrfStandard, bool, error) {
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
-	return VrfStandard(value), false, nil
+	// a number stands for the field it denotes
+	spec, ok = vrfStandardSpecByField(VrfStandard(value))
+	if !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
+	f, _, err := readVrfVerifyField(v, spec.field.String())
+	return f, false, err
 }
 
 func readBlockField(v uint64, s string) (BlockField, bool, error) {
@@ -146,7 +160,14 @@ func readBlockField(v uint64, s string) (BlockField, bool, error) {
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
-	return BlockField(value), false, nil
+	// a number stands for the field it denotes
+	spec, ok = blockFieldSpecByField(BlockField(value))
+	if !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
+	f, _, err := readBlockField(v, spec.field.String())
+	return f, false, err
 }
 
 func readAcctParams(v uint64, s string) (AcctParamsField, bool, error) {
@@ -165,7 +186,14 @@ func readAcctParams(v uint64, s string) (AcctParamsField, bool, error) {
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
-	return AcctParamsField(value), false, nil
+	// a number stands for the field it denotes
+	spec, ok = acctParamsFieldSpecByField(AcctParamsField(value))
+	if !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
+	f, _, err := readAcctParams(v, spec.field.String())
+	return f, false, err
 }
 
 func readAppParamsField(v uint64, s string) (AppParamsField, bool, error) {
@@ -184,7 +212,14 @@ func readAppParamsField(v uint64, s string) (AppParamsField, bool, error) {
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
-	return AppParamsField(value), false, nil
+	// a number stands for the field it denotes
+	spec, ok = appParamsFieldSpecByField(AppParamsField(value))
+	if !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
+	f, _, err := readAppParamsField(v, spec.field.String())
+	return f, false, err
 }
 
 func readAssetParamsField(v uint64, s string) (AssetParamsField, bool, error) {
@@ -203,7 +238,14 @@ func readAssetParamsField(v uint64, s string) (AssetParamsField, bool, error) {
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
-	return AssetParamsField(value), false, nil
+	// a number stands for the field it denotes
+	spec, ok = assetParamsFieldSpecByField(AssetParamsField(value))
+	if !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
+	f, _, err := readAssetParamsField(v, spec.field.String())
+	return f, false, err
 }
 
 func readGlobalField(v uint64, s string) (GlobalField, bool, error) {
@@ -221,7 +263,14 @@ func readGlobalField(v uint64, s string) (GlobalField, bool, error) {
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
-	return GlobalField(value), false, nil
+	// a number stands for the field it denotes
+	spec, ok = globalFieldSpecByField(GlobalField(value))
+	if !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
+	f, _, err := readGlobalField(v, spec.field.String())
+	return f, false, err
 }
 
 func readEcGroupField(v uint64, s string) (EcGroup, bool, error) {
@@ -240,7 +289,14 @@ func readEcGroupField(v uint64, s string) (EcGroup, bool, error) {
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
-	return EcGroup(value), false, nil
+	// a number stands for the field it denotes
+	spec, ok = ecGroupSpecByField(EcGroup(value))
+	if !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
+	f, _, err := readEcGroupField(v, spec.field.String())
+	return f, false, err
 }
 
 func readBase64EncodingField(v uint64, s string) (Base64Encoding, bool, error) {
@@ -259,7 +315,14 @@ func readBase64EncodingField(v uint64, s string) (Base64Encoding, bool, error) {
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
-	return Base64Encoding(value), false, nil
+	// a number stands for the field it denotes
+	spec, ok = base64EncodingSpecByField(Base64Encoding(value))
+	if !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
+	f, _, err := readBase64EncodingField(v, spec.field.String())
+	return f, false, err
 }
 
 func readJsonRefField(v uint64, s string) (JSONRefType, bool, error) {
@@ -278,7 +341,14 @@ func readJsonRefField(v uint64, s string) (JSONRefType, bool, error) {
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
-	return JSONRefType(value), false, nil
+	// a number stands for the field it denotes
+	spec, ok = jsonRefSpecByField(JSONRefType(value))
+	if !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
+	f, _, err := readJsonRefField(v, spec.field.String())
+	return f, false, err
 }
 
 func readTxnField(c fieldContext, v uint64, s string) (TxnField, bool, error) {
@@ -318,7 +388,14 @@ func readTxnField(c fieldContext, v uint64, s string) (TxnField, bool, error) {
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
-	return TxnField(value), false, nil
+	// a number stands for the field it denotes
+	spec, ok = txnFieldSpecByField(TxnField(value))
+	if !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
+	f, _, err := readTxnField(c, v, spec.field.String())
+	return f, false, err
 }
 
 func readInt(a *arguments) (uint64, error) {
@@ -365,7 +442,14 @@ func readEcdsaCurveIndex(v uint64, s string) (EcdsaCurve, bool, error) {
 		return 0, false, errors.Wrap(err, "failed to parse txn field")
 	}
 
-	return EcdsaCurve(value), false, nil
+	// a number stands for the field it denotes
+	spec, ok = ecdsaCurveSpecByField(EcdsaCurve(value))
+	if !ok {
+		return 0, false, errors.Errorf("unknown field: %d", value)
+	}
+
+	f, _, err := readEcdsaCurveIndex(v, spec.field.String())
+	return f, false, err
 }
 
 type arguments struct {
-- 
2.43.0


From 9655af4c7bebf7750bd1142e7c257557542816d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:22 +0000
Subject: [PATCH 20/51] fix: print base64 constants so that slashes do not
 start a comment

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 3987954..a1e1c44 100644
--- a/expr.go
+++ b/expr.go
@@ -1309,7 +1309,7 @@ func (e Bytes) String() string {
 		if len(e.Value) == 0 {
 			return "0x" // an empty base64 literal does not parse
 		}
-		return fmt.Sprintf("b64 %s", base64.StdEncoding.EncodeToString(e.Value))
+		return fmt.Sprintf("b64(%s)", base64.StdEncoding.EncodeToString(e.Value))
 	default:
 		panic(fmt.Sprintf("unsupported bytes format: %d", e.Format))
 	}
-- 
2.43.0


From ca5a9c9ce812f4a80ac367bb3a2e4500d6d91860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:25 +0000
Subject: [PATCH 21/51] fix: base64 text may start with slashes

---
 lexer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 0559290..1642880 100644
--- a/lexer.go
+++ b/lexer.go
@@ -313,6 +313,16 @@ func (z *Lexer) readEol() {
 	}
 }
 
+// afterBase64 tells that the next token is base64 text, which may start with slashes
+func (z *Lexer) afterBase64() bool {
+	if len(z.ts) == 0 {
+		return false
+	}
+
+	t := z.ts[len(z.ts)-1]
+	return t.t == TokenValue && (t.v == "b64" || t.v == "base64")
+}
+
 func (z *Lexer) readTokens() {
 	z.skipWhitespace()
 
@@ -324,7 +334,7 @@ func (z *Lexer) readTokens() {
 			nc, _ = utf8.DecodeRune(z.Source[z.i+n:])
 		}
 
-		if c == '/' && nc == '/' {
+		if c == '/' && nc == '/' && !z.afterBase64() {
 			z.readComment()
 		} else if c == '\n' || c == '\r' {
 			z.readEol()
-- 
2.43.0


From 029d20207e4e1b20c7b4716405d126e48f0c45ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:17 +0000
Subject: [PATCH 22/51] fix: simulate b-, b|, addr and itxna

---
 expr.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/expr.go b/expr.go
index a1e1c44..7723a3f 100644
--- a/expr.go
+++ b/expr.go
@@ -2105,6 +2105,17 @@ func (e *ItxnaExpr) String() string {
 	return fmt.Sprintf("itxna %d %d", e.Field, e.Index)
 }
 
+func (e *ItxnaExpr) Execute(b *VmBranch) error {
+	spec, ok := txnFieldSpecByField(e.Field)
+	if !ok {
+		panic("unknown field")
+	}
+
+	b.push(VmValue{T: spec.Type().Vm()})
+	b.Line++
+	return nil
+}
+
 type GtxnasExpr struct {
 	Field TxnField
 	Index uint8
@@ -2249,6 +2260,12 @@ func (e *AddrExpr) String() string {
 	return fmt.Sprintf("addr %s", e.Address)
 }
 
+func (e *AddrExpr) Execute(b *VmBranch) error {
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 type PushBytessExpr struct {
 	Bytess [][]byte
 }
@@ -3214,6 +3231,14 @@ func (e *BminusExpr) Cost(b *VmBranch) []int {
 	return []int{10}
 }
 
+func (e *BminusExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeBytes)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 var BytesMinus = &BminusExpr{}
 
 type BmulExpr struct{}
@@ -3532,6 +3557,14 @@ func (e *BytesBitOrExpr) Cost(b *VmBranch) []int {
 	return []int{6}
 }
 
+func (e *BytesBitOrExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeBytes)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 var BytesBitOr = &BytesBitOrExpr{}
 
 type BytesBitAndExpr struct{}
-- 
2.43.0


From 573ae9277858efabea8256c03bd7c92f2d26002f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:19 +0000
Subject: [PATCH 23/51] fix: pushint and pushints push their integers

---
 expr.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expr.go b/expr.go
index 7723a3f..699f1cf 100644
--- a/expr.go
+++ b/expr.go
@@ -1264,7 +1264,7 @@ func (e *PushIntExpr) String() string {
 }
 
 func (e *PushIntExpr) Execute(b *VmBranch) error {
-	b.push(VmValue{T: VmTypeUint64})
+	b.push(VmValue{T: VmTypeUint64, src: vmUint64Const{v: e.Value}})
 	b.Line++
 	return nil
 }
@@ -2220,8 +2220,8 @@ type PushIntsExpr struct {
 }
 
 func (e *PushIntsExpr) Execute(b *VmBranch) error {
-	for range e.Ints {
-		b.push(VmValue{T: VmTypeBytes})
+	for _, v := range e.Ints {
+		b.push(VmValue{T: VmTypeUint64, src: vmUint64Const{v: v}})
 	}
 	b.Line++
 	return nil
-- 
2.43.0


From b7a370f67061d26c8c29fc2faea9c230d08d2064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:21 +0000
Subject: [PATCH 24/51] fix: bitlen, getbit, setbit and app_opted_in take
 values of any type

---
 expr.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/expr.go b/expr.go
index 699f1cf..6f0daed 100644
--- a/expr.go
+++ b/expr.go
@@ -2065,7 +2065,7 @@ func (e *BitLenExpr) String() string {
 }
 
 func (e *BitLenExpr) Execute(b *VmBranch) error {
-	b.pop(VmTypeBytes)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 
@@ -3158,7 +3158,7 @@ func (e *GetBitExpr) String() string {
 
 func (e *GetBitExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 	return nil
@@ -3175,8 +3175,8 @@ func (e *SetBitExpr) String() string {
 func (e *SetBitExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
-	b.push(VmValue{T: VmTypeAny})
+	v := b.pop(VmTypeAny)
+	b.push(VmValue{T: v.T})
 	b.Line++
 	return nil
 }
@@ -3728,7 +3728,7 @@ func (e *AppOptedInExpr) String() string {
 
 func (e *AppOptedInExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 	return nil
-- 
2.43.0


From 521c74b9a1efc83587a8677c2d46b6098f8540a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:03 +0000
Subject: [PATCH 25/51] fix: simulate extract_uint64

---
 expr.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 6f0daed..2326fb2 100644
--- a/expr.go
+++ b/expr.go
@@ -1931,7 +1931,7 @@ func (e *Extract64BitsExpr) String() string {
 	return "extract_uint64"
 }
 
-func (e *ExtractUint64Expr) Execute(b *VmBranch) error {
+func (e *Extract64BitsExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
 	b.pop(VmTypeBytes)
 	b.push(VmValue{T: VmTypeUint64})
@@ -3007,6 +3007,10 @@ func (e *ExtractUint64Expr) String() string {
 	return "extract_uint64"
 }
 
+func (e *ExtractUint64Expr) Execute(b *VmBranch) error {
+	return Extract64Bits.Execute(b)
+}
+
 var ExtractUint64 = &ExtractUint64Expr{}
 
 type AssetHoldingGetExpr struct {
-- 
2.43.0


From 37381093eb7c7732a8f66a143e51fac423deb425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:05 +0000
Subject: [PATCH 26/51] fix: dup2 keeps the order of the values

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 2326fb2..4f8ec8b 100644
--- a/expr.go
+++ b/expr.go
@@ -3382,10 +3382,10 @@ func (e *Dup2Expr) String() string {
 func (e *Dup2Expr) Execute(b *VmBranch) error {
 	v1 := b.pop(VmTypeAny)
 	v2 := b.pop(VmTypeAny)
-	b.push(v1)
 	b.push(v2)
 	b.push(v1)
 	b.push(v2)
+	b.push(v1)
 	b.Line++
 	return nil
 }
-- 
2.43.0


From 623a3f5c62bc13a31410eb7264520d0ceb32d131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:07 +0000
Subject: [PATCH 27/51] fix: dupn 255 terminates

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 4f8ec8b..cbe38c8 100644
--- a/expr.go
+++ b/expr.go
@@ -1886,7 +1886,7 @@ func (e *DupNExpr) String() string {
 
 func (e *DupNExpr) Execute(b *VmBranch) error {
 	v := b.pop(VmTypeAny)
-	for i := uint8(0); i <= e.Count; i++ {
+	for i := 0; i <= int(e.Count); i++ {
 		b.push(v)
 	}
 	b.Line++
-- 
2.43.0


From dcab6969f680f1a3d891cd17d4794cafc463d9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:08 +0000
Subject: [PATCH 28/51] fix: bury, dig and frame opcodes address the values the
 AVM does

---
 expr.go |  8 ++++----
 vm.go   | 20 +++++++++++++++++---
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/expr.go b/expr.go
index cbe38c8..5d6ca4f 100644
--- a/expr.go
+++ b/expr.go
@@ -1851,7 +1851,7 @@ type BuryExpr struct {
 
 func (e *BuryExpr) Execute(b *VmBranch) error {
 	v := b.pop(VmTypeAny)
-	b.replace(e.Depth, v)
+	b.replace(len(b.Stack.Items)-int(e.Depth), v)
 	b.Line++
 	return nil
 }
@@ -2480,7 +2480,7 @@ func (e *FrameBuryExpr) Execute(b *VmBranch) error {
 	f := b.Frames[len(b.Frames)-1]
 
 	v := b.pop(VmTypeAny)
-	b.replace(uint8(int8(f.p)+e.Index), v)
+	b.replace(f.slot(e.Index), v)
 
 	b.Line++
 	return nil
@@ -2497,7 +2497,7 @@ type FrameDigExpr struct {
 func (e *FrameDigExpr) Execute(b *VmBranch) error {
 	f := b.Frames[len(b.Frames)-1]
 
-	v := b.Stack.Items[uint8(int8(f.p)+e.Index)]
+	v := b.Stack.Items[f.slot(e.Index)]
 	b.push(v)
 
 	b.Line++
@@ -3215,7 +3215,7 @@ type DigExpr struct {
 }
 
 func (e *DigExpr) Execute(b *VmBranch) error {
-	v := b.Stack.Items[uint8(len(b.Stack.Items))-1-e.Index]
+	v := b.peek(int(e.Index))
 	b.push(v)
 	b.Line++
 	return nil
diff --git a/vm.go b/vm.go
index e01389e..0afc946 100644
--- a/vm.go
+++ b/vm.go
@@ -18,10 +18,20 @@ type VmFrame struct {
 	Return     int
 	NumArgs    uint8
 	NumReturns uint8
-	p          uint8
+	p          int
+	proto      bool
 	Name       string
 }
 
+// slot is the stack index of a value addressed relative to the frame
+func (f VmFrame) slot(i int8) int {
+	if f.proto && int(i) < -int(f.NumArgs) {
+		panic(errors.Errorf("frame index %d outside of the %d arguments", i, f.NumArgs))
+	}
+
+	return f.p + int(i)
+}
+
 type vmSource interface {
 	String() string
 }
@@ -194,12 +204,16 @@ func (b *VmBranch) push(t VmValue) {
 
 func (b *VmBranch) prepare(a uint8, r uint8) {
 	f := b.Frames[len(b.Frames)-1]
+	if f.p < int(a) {
+		panic(errors.Errorf("stack has fewer values than the %d arguments", a))
+	}
 	f.NumArgs = a
 	f.NumReturns = r
+	f.proto = true
 	b.Frames[len(b.Frames)-1] = f
 }
 
-func (b *VmBranch) replace(n uint8, v VmValue) {
+func (b *VmBranch) replace(n int, v VmValue) {
 	b.Stack.Items[n] = v
 }
 
@@ -280,7 +294,7 @@ func (b *VmBranch) jump(target string) {
 }
 
 func (b *VmBranch) call(target string) {
-	b.Frames = append(b.Frames, VmFrame{Return: b.Line, NumArgs: 0, NumReturns: 0, p: uint8(len(b.Stack.Items)), Name: b.Name})
+	b.Frames = append(b.Frames, VmFrame{Return: b.Line, NumArgs: 0, NumReturns: 0, p: len(b.Stack.Items), Name: b.Name})
 	b.Line = b.vm.find(target)
 }
 
-- 
2.43.0


From 5683525b3d8334bed8b4f8399724813f47405204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:10 +0000
Subject: [PATCH 29/51] fix: retsub drops the locals of a subroutine and needs
 a caller

---
 expr.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/expr.go b/expr.go
index 5d6ca4f..e99705a 100644
--- a/expr.go
+++ b/expr.go
@@ -4,6 +4,7 @@ import (
 	"encoding/base64"
 	"encoding/hex"
 	"fmt"
+	"github.com/pkg/errors"
 	"strconv"
 	"strings"
 )
@@ -1650,18 +1651,15 @@ func (e *RetSubExpr) Execute(b *VmBranch) error {
 	if len(b.Frames) > 0 {
 		f := b.Frames[len(b.Frames)-1]
 
-		rs := []VmValue{}
+		if f.proto {
+			// only the results replace the arguments, locals are dropped
+			n := len(b.Stack.Items) - int(f.NumReturns)
+			if n < f.p {
+				panic(errors.Errorf("stack has fewer values than the %d results", f.NumReturns))
+			}
 
-		for i := uint8(0); i < f.NumReturns; i++ {
-			rs = append(rs, b.pop(VmTypeAny))
-		}
-
-		for i := uint8(0); i < f.NumArgs; i++ {
-			b.pop(VmTypeAny)
-		}
-
-		for i := len(rs) - 1; i >= 0; i-- {
-			b.push(rs[i])
+			rs := append([]VmValue{}, b.Stack.Items[n:]...)
+			b.Stack.Items = append(b.Stack.Items[:f.p-int(f.NumArgs)], rs...)
 		}
 
 		b.Line = f.Return + 1
@@ -1669,7 +1667,7 @@ func (e *RetSubExpr) Execute(b *VmBranch) error {
 
 		b.Frames = b.Frames[:len(b.Frames)-1]
 	} else {
-		b.Line++
+		panic(errors.New("retsub without a caller"))
 	}
 
 	return nil
-- 
2.43.0


From 96fa9be1025892013563b10fe9021c8c39fa80d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:12 +0000
Subject: [PATCH 30/51] fix: a forked branch keeps its call frames

---
 vm.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vm.go b/vm.go
index 0afc946..d81d3a9 100644
--- a/vm.go
+++ b/vm.go
@@ -278,6 +278,7 @@ func (b *VmBranch) fork(target string) {
 		vm:     b.vm,
 		Line:   b.vm.find(target),
 		Stack:  b.Stack.clone(),
+		Frames: append([]VmFrame{}, b.Frames...),
 		Budget: b.Budget,
 		Name:   target,
 		Trace:  append([]Op{}, b.Trace...),
-- 
2.43.0


From cb7fc596e80bc1c1c927d6e77d07b9b0ccea1308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:33 +0000
Subject: [PATCH 31/51] fix: each simulated branch has its own scratch space

---
 dbg/dbg.go | 4 ++--
 expr.go    | 5 +++--
 vm.go      | 8 +++++---
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 6dd62ea..1e30967 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -593,7 +593,7 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 								}
 							case 2:
 								s := 0
-								e := len(l.vm.tvm.Scratch.Items)
+								e := len(b.Scratch.Items)
 
 								if vreq.Arguments.Start != nil {
 									s = *vreq.Arguments.Start
@@ -604,7 +604,7 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 								}
 
 								for i := s; i < e; i++ {
-									v := l.vm.tvm.Scratch.Items[i]
+									v := b.Scratch.Items[i]
 									if v.T != teal.VmTypeNone {
 										vs = append(vs, dapVariable{
 											Name:  strconv.Itoa(i),
diff --git a/expr.go b/expr.go
index e99705a..46622ea 100644
--- a/expr.go
+++ b/expr.go
@@ -4,9 +4,10 @@ import (
 	"encoding/base64"
 	"encoding/hex"
 	"fmt"
-	"github.com/pkg/errors"
 	"strconv"
 	"strings"
+
+	"github.com/pkg/errors"
 )
 
 type Branch interface {
@@ -1085,7 +1086,7 @@ func (e *LoadExpr) String() string {
 }
 
 func (e *LoadExpr) Execute(b *VmBranch) error {
-	v := b.vm.Scratch.Items[e.Index]
+	v := b.Scratch.Items[e.Index]
 	b.push(VmValue{T: VmTypeAny, src: v})
 
 	b.Line++
diff --git a/vm.go b/vm.go
index d81d3a9..ecbebe8 100644
--- a/vm.go
+++ b/vm.go
@@ -220,7 +220,7 @@ func (b *VmBranch) replace(n int, v VmValue) {
 func (b *VmBranch) store(index VmValue, v VmValue) {
 	switch src := index.src.(type) {
 	case vmUint64Const:
-		b.vm.Scratch.Items[src.v] = v
+		b.Scratch.Items[src.v] = v
 	}
 }
 
@@ -264,6 +264,8 @@ type VmBranch struct {
 
 	Stack *vmStack
 
+	Scratch VmScratch
+
 	Frames []VmFrame
 
 	Budget int
@@ -282,6 +284,8 @@ func (b *VmBranch) fork(target string) {
 		Budget: b.Budget,
 		Name:   target,
 		Trace:  append([]Op{}, b.Trace...),
+
+		Scratch: b.Scratch,
 	}
 
 	b.vm.Id++
@@ -318,8 +322,6 @@ type Vm struct {
 	Process *ProcessResult
 	syms    map[string]int
 
-	Scratch VmScratch
-
 	Branches []*VmBranch
 	Branch   *VmBranch
 	Current  int
-- 
2.43.0


From 7f82d8152009dfc1ec9071aa2063da32408366d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:02 +0000
Subject: [PATCH 32/51] fix: the cost of json_ref depends on its object,
 rounded up to whole chunks

---
 expr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr.go b/expr.go
index 46622ea..72cccc7 100644
--- a/expr.go
+++ b/expr.go
@@ -2009,11 +2009,11 @@ type JsonRefExpr struct {
 }
 
 func (e *JsonRefExpr) Cost(b *VmBranch) []int {
-	v := b.peek(0)
+	v := b.peek(1) // the object, below the key
 
 	costs := []int{}
 	for _, l := range v.Lengths() {
-		cost := 25 + 2*l/7
+		cost := 25 + 2*(l/7)
 		if l%7 > 0 {
 			cost += 2
 		}
-- 
2.43.0


From dd59fe83166dbccd83bd85c6073bec8e94136d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:02 +0000
Subject: [PATCH 33/51] fix: ignore breakpoints on negative lines

---
 vm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm.go b/vm.go
index ecbebe8..97c05d1 100644
--- a/vm.go
+++ b/vm.go
@@ -428,7 +428,7 @@ func (v *Vm) SetBreakpoints(lns []int) map[int]bool {
 	var res []VmBreakpoint
 
 	for _, ln := range lns {
-		if ln >= len(v.Process.Listing) {
+		if ln < 0 || ln >= len(v.Process.Listing) {
 			continue
 		}
 
-- 
2.43.0


From e75b2027e2b96a89a9dbe72862c341b8ee2e041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:27 +0000
Subject: [PATCH 34/51] fix: the language server answers failing requests and
 no notifications

---
 lsp/lsp.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index c0aaa99..8df9f55 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -695,7 +695,14 @@ func readInto(b []byte, v interface{}) error {
 	return nil
 }
 
+const lspErrorInternal = -32603
+
 func (l *lsp) reply(id interface{}, result interface{}, err interface{}) error {
+	if id == nil {
+		// notifications are not answered
+		return nil
+	}
+
 	return l.write(jsonRpcResponse{
 		JsonRpc: "2.0",
 		Id:      id,
@@ -2115,6 +2122,17 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 	return nil
 }
 
+// safeHandle turns a crash in a handler, e.g. on missing params, into an error
+func (l *lsp) safeHandle(h jsonRpcHeader, b []byte) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = errors.Errorf("failed to process %s: %v", h.Method, r)
+		}
+	}()
+
+	return l.handle(h, b)
+}
+
 func (l *lsp) write(v interface{}) error {
 	rb, err := json.Marshal(v)
 	if err != nil {
@@ -2194,8 +2212,17 @@ func (l *lsp) Run() (int, error) {
 				return errors.Wrap(err, "failed to unmarshal json rpc header")
 			}
 
-			err = l.handle(jh, data)
+			err = l.safeHandle(jh, data)
 			if err != nil {
+				// the client waits for a response to each of its requests
+				ferr := l.fail(jh.Id, lspError{
+					Code:    lspErrorInternal,
+					Message: err.Error(),
+				})
+				if ferr != nil {
+					return ferr
+				}
+
 				return errors.Wrap(err, "failed to handle request")
 			}
 
-- 
2.43.0


From 8af82ed90f2e74f2e0465e05ebbacbd1334ca25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:27 +0000
Subject: [PATCH 35/51] fix: the language server answers commands

---
 lsp/lsp.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 8df9f55..2399584 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -740,6 +740,16 @@ func (l *lsp) request(method string, params interface{}) error {
 	})
 }
 
+// applyEdit completes a command: its request is answered and the client asked to edit
+func (l *lsp) applyEdit(id interface{}, params lspWorkspaceApplyEditRequestParams) error {
+	err := l.success(id, struct{}{})
+	if err != nil {
+		return err
+	}
+
+	return l.request("workspace/applyEdit", params)
+}
+
 func (l *lsp) notify(method string, params interface{}) error {
 	return l.write(lspNotification{
 		JsonRpc: "2.0",
@@ -935,7 +945,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 
 				}
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: "Update version",
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
@@ -972,7 +982,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 					},
 				}
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: "Replace with named value",
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
@@ -1019,7 +1029,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 					NewText: "",
 				})
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: "Remove line",
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
@@ -1069,7 +1079,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 					})
 				}
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: fmt.Sprintf("Remove label: %s", name),
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
@@ -1103,7 +1113,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 				name := args[0].Name
 				s := fmt.Sprintf("\r\n%s:\r\n", name)
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: fmt.Sprintf("Create label: %s", name),
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
-- 
2.43.0


From af0dfacecc7fafda966bdb07d1bee64ba8582797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:27 +0000
Subject: [PATCH 36/51] fix: a negative content length does not kill the
 language server

---
 lsp/lsp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 2399584..075e65e 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -2208,6 +2208,10 @@ func (l *lsp) Run() (int, error) {
 				return errors.Wrap(err, "failed to parse content length")
 			}
 
+			if length < 0 {
+				return errors.Errorf("negative content length: %d", length)
+			}
+
 			data := make([]byte, length)
 			_, err = io.ReadFull(l.tp.R, data)
 			if err != nil {
-- 
2.43.0


From d0151888f06db0b44dc5fc13941948ccbf1e458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:27 +0000
Subject: [PATCH 37/51] fix: creating a label replaces no text

---
 lsp/lsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 075e65e..08b5071 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1130,7 +1130,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 											},
 											End: lspPosition{
 												Line:      len(res.Lines),
-												Character: len(s),
+												Character: 0,
 											},
 										},
 										NewText: s,
-- 
2.43.0


From 86f42eff15486cf447f44d96b60f7fc316c0ae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:27 +0000
Subject: [PATCH 38/51] fix: escape backslashes when a byte literal is replaced
 by a string

---
 lsp/lsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 08b5071..3be8bee 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1786,7 +1786,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 										Character: named.T.End(),
 									},
 								},
-								Value: fmt.Sprintf("\"%s\"", strings.ReplaceAll(named.Value, "\"", "\\\"")),
+								Value: fmt.Sprintf("\"%s\"", strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(named.Value)),
 							},
 						},
 					},
-- 
2.43.0


From a671c6b92fdaede16ddba3a710cf6a434fa39213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:27 +0000
Subject: [PATCH 39/51] fix: hints and actions for ranges of several lines

---
 lsp/lsp.go |  4 ++--
 process.go |  8 +++-----
 range.go   | 10 ++++++++++
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 3be8bee..9ad1b5e 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1714,7 +1714,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 			}
 
 			for _, ref := range res.MissRefs {
-				if !teal.Overlaps(req.Params.Range, ref) {
+				if !teal.Intersects(req.Params.Range, ref) {
 					continue
 				}
 
@@ -1796,7 +1796,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 			{
 				kind := "quickfix"
 				for _, v := range res.Versions {
-					if teal.Overlaps(req.Params.Range, v) {
+					if teal.Intersects(req.Params.Range, v) {
 						cas = append(cas, lspCodeAction{
 							Title: fmt.Sprintf("Update version to %d", v.Version),
 							Kind:  &kind,
diff --git a/process.go b/process.go
index ef3bd08..fefba34 100644
--- a/process.go
+++ b/process.go
@@ -2688,13 +2688,11 @@ func (r ProcessResult) ArgFieldName(t NewOpArgType, v int) string {
 func (r ProcessResult) InlayHints(rg Range) InlayHints {
 	var ihs InlayHints
 
-	for li := rg.StartLine(); li <= rg.EndLine(); li++ {
-		if li >= len(r.Lines) {
+	for li, ln := range r.Lines {
+		if li < rg.StartLine() || li > rg.EndLine() {
 			continue
 		}
 
-		ln := r.Lines[li]
-
 		var ok bool
 		var spec opItem
 
@@ -2703,7 +2701,7 @@ func (r ProcessResult) InlayHints(rg Range) InlayHints {
 		}
 
 		for i, tok := range ln {
-			if !Overlaps(tok, rg) {
+			if !Intersects(tok, rg) {
 				continue
 			}
 
diff --git a/range.go b/range.go
index 140e4e3..f2f81b1 100644
--- a/range.go
+++ b/range.go
@@ -12,6 +12,16 @@ func Overlaps(a, b Range) bool {
 		a.StartLine() <= b.EndLine() && b.StartLine() <= a.EndLine()
 }
 
+// Intersects tells that ranges in text order, possibly of several lines, share a position
+func Intersects(a, b Range) bool {
+	return !before(a.EndLine(), a.EndCharacter(), b.StartLine(), b.StartCharacter()) &&
+		!before(b.EndLine(), b.EndCharacter(), a.StartLine(), a.StartCharacter())
+}
+
+func before(al, ac, bl, bc int) bool {
+	return al < bl || al == bl && ac < bc
+}
+
 type LineRange int
 
 func (r LineRange) StartLine() int {
-- 
2.43.0


From 37a5879ac8a89632ac1be85f294e961e3814efed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:27 +0000
Subject: [PATCH 40/51] fix: only byte literals are shown decoded

---
 process.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/process.go b/process.go
index fefba34..aa7841e 100644
--- a/process.go
+++ b/process.go
@@ -2744,6 +2744,16 @@ func (r ProcessResult) InlayHints(rg Range) InlayHints {
 					return
 				}
 
+				// other hexadecimal text is a number, a name or an encoded value
+				if !ok || i == 0 || len(spec.Args) == 0 || spec.Args[len(spec.Args)-1].Type != OpArgTypeBytes {
+					return
+				}
+
+				switch ln[i-1].String() {
+				case "b32", "base32", "b64", "base64":
+					return
+				}
+
 				s := tok.String()
 				if !strings.HasPrefix(s, "0x") {
 					return
-- 
2.43.0


From 3eaee0f6eda52c124d29a0d3c99634416158fcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:27 +0000
Subject: [PATCH 41/51] fix: the argument between two immediates is the next
 one

---
 process.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index aa7841e..4baa4a5 100644
--- a/process.go
+++ b/process.go
@@ -2874,7 +2874,13 @@ func (r ProcessResult) ArgAt(l int, ch int) (opItemArg, int, bool) {
 		return res, -1, false
 	}
 
-	curr := len(ln) - 1
+	// between immediates the next one is meant
+	curr := 0
+	for i := 1; i < len(ln); i++ {
+		if ln[i].End() < ch {
+			curr = i
+		}
+	}
 
 	_, idx, ok := ln.ImmAt(ch)
 	if ok {
-- 
2.43.0


From ceae20e7f9915ee09c0b8a63d8f2f55f534a68e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:02 +0000
Subject: [PATCH 42/51] fix: the servers stop when their input fails and
 survive any content length

---
 dbg/dbg.go | 16 ++++++++++++++--
 lsp/lsp.go | 12 ++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 1e30967..63ff71f 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -794,6 +794,11 @@ func (l *dbg) Run() (int, error) {
 		err := func() error {
 			mh, err := l.tp.ReadMIMEHeader()
 			if err != nil {
+				if _, ok := err.(textproto.ProtocolError); !ok {
+					// the input has ended or failed
+					l.exit = true
+				}
+
 				return errors.Wrap(err, "failed to read request headers")
 			}
 
@@ -804,9 +809,16 @@ func (l *dbg) Run() (int, error) {
 				return errors.Wrap(err, "failed to parse content length")
 			}
 
-			data := make([]byte, length)
-			_, err = io.ReadFull(l.tp.R, data)
+			if length < 0 {
+				return errors.Errorf("negative content length: %d", length)
+			}
+
+			data, err := io.ReadAll(io.LimitReader(l.tp.R, int64(length)))
+			if err == nil && len(data) < length {
+				err = io.ErrUnexpectedEOF
+			}
 			if err != nil {
+				l.exit = true
 				return errors.Wrap(err, "failed to read content body")
 			}
 
diff --git a/lsp/lsp.go b/lsp/lsp.go
index 9ad1b5e..dfa2ac4 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -2198,6 +2198,11 @@ func (l *lsp) Run() (int, error) {
 		err := func() error {
 			mh, err := l.tp.ReadMIMEHeader()
 			if err != nil {
+				if _, ok := err.(textproto.ProtocolError); !ok {
+					// the input has ended or failed
+					l.exit = true
+				}
+
 				return errors.Wrap(err, "failed to read request headers")
 			}
 
@@ -2212,9 +2217,12 @@ func (l *lsp) Run() (int, error) {
 				return errors.Errorf("negative content length: %d", length)
 			}
 
-			data := make([]byte, length)
-			_, err = io.ReadFull(l.tp.R, data)
+			data, err := io.ReadAll(io.LimitReader(l.tp.R, int64(length)))
+			if err == nil && len(data) < length {
+				err = io.ErrUnexpectedEOF
+			}
 			if err != nil {
+				l.exit = true
 				return errors.Wrap(err, "failed to read content body")
 			}
 
-- 
2.43.0


From 744dcefe608859bb2f33ebceb9d64ad117a6d220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:02 +0000
Subject: [PATCH 43/51] fix: the debug adapter answers requests it cannot serve

---
 dbg/dbg.go | 53 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 63ff71f..b607db9 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -167,14 +167,14 @@ type dapContinueRequestParams struct {
 	ThreadId int `json:"threadId"`
 }
 
-type dapInitializeRequest dapRequest[*dapInitializeRequestParams]
-type dapSetBreakpointsRequest dapRequest[*dapSetBreakpointsRequestParams]
-type dapLaunchRequest dapRequest[*dapLaunchRequestParams]
-type dapStackTraceRequest dapRequest[*dapStackTraceRequestParams]
-type dapScopesRequest dapRequest[*dapScopesRequestParams]
-type dapVariablesRequest dapRequest[*dapVariablesRequestParams]
-type dapNextRequest dapRequest[*dapNextRequestParams]
-type dapContinueRequest dapRequest[*dapContinueRequestParams]
+type dapInitializeRequest dapRequest[dapInitializeRequestParams]
+type dapSetBreakpointsRequest dapRequest[dapSetBreakpointsRequestParams]
+type dapLaunchRequest dapRequest[dapLaunchRequestParams]
+type dapStackTraceRequest dapRequest[dapStackTraceRequestParams]
+type dapScopesRequest dapRequest[dapScopesRequestParams]
+type dapVariablesRequest dapRequest[dapVariablesRequestParams]
+type dapNextRequest dapRequest[dapNextRequestParams]
+type dapContinueRequest dapRequest[dapContinueRequestParams]
 
 type dapCapabilities struct {
 	SupportsInstructionBreakpoints    *bool `json:"supportsInstructionBreakpoints,omitempty"`
@@ -458,6 +458,10 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				Threads: ts,
 			}, nil)
 		case "pause":
+			if l.vm == nil {
+				return errors.New("no program launched")
+			}
+
 			err := l.reply(h.Seq, req.Command, "", nil, nil)
 			if err != nil {
 				return err
@@ -532,22 +536,24 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				return err
 			}
 
+			if l.vm == nil {
+				return errors.New("no program launched")
+			}
+
 			err = l.reply(h.Seq, req.Command, "", nil, nil)
 			if err != nil {
 				return err
 			}
 
-			if l.vm != nil {
-				l.vm.tvm.Switch(nreq.Arguments.ThreadId)
-				l.vm.tvm.Step()
+			l.vm.tvm.Switch(nreq.Arguments.ThreadId)
+			l.vm.tvm.Step()
 
-				if l.vm.tvm.Error != nil {
-					return l.notify("stopped", dapStoppedEventParams{
-						Reason:            "exception",
-						AllThreadsStopped: yes,
-						Description:       fmt.Sprintf("Error: %s", l.vm.tvm.Error),
-					})
-				}
+			if l.vm.tvm.Error != nil {
+				return l.notify("stopped", dapStoppedEventParams{
+					Reason:            "exception",
+					AllThreadsStopped: yes,
+					Description:       fmt.Sprintf("Error: %s", l.vm.tvm.Error),
+				})
 			}
 
 			var tid *int
@@ -734,6 +740,8 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				StackFrames: sf,
 				TotalFrames: one,
 			}, nil)
+		default:
+			return errors.Errorf("unknown command: %s", req.Command)
 		}
 	}
 	return nil
@@ -832,6 +840,15 @@ func (l *dbg) Run() (int, error) {
 
 			err = l.handle(jh, data)
 			if err != nil {
+				var rh dapRequestHeader
+				if jh.Type == "request" && readInto(data, &rh) == nil {
+					// the client waits for a response to each of its requests
+					ferr := l.reply(jh.Seq, rh.Command, err.Error(), nil, err)
+					if ferr != nil {
+						return ferr
+					}
+				}
+
 				return errors.Wrap(err, "failed to handle request")
 			}
 
-- 
2.43.0


From 5c3f7407a7ff1aa946dbe832931a7cd750db792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:02 +0000
Subject: [PATCH 44/51] fix: paged variables of the debug adapter are the
 requested slice

---
 dbg/dbg.go | 48 +++++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index b607db9..80c2991 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -136,6 +136,28 @@ type dapVariablesRequestParams struct {
 	Count              *int `json:"count,omitempty"`
 }
 
+// page returns the bounds of the requested slice of n variables; no or zero count requests all from start on
+func (p dapVariablesRequestParams) page(n int) (int, int) {
+	return page(n, p.Start, p.Count)
+}
+
+func page(n int, start *int, count *int) (int, int) {
+	s, e := 0, n
+
+	if start != nil && *start > 0 {
+		s = *start
+		if s > n {
+			s = n
+		}
+	}
+
+	if count != nil && *count > 0 && *count < n-s {
+		e = s + *count
+	}
+
+	return s, e
+}
+
 type dapVariablesResponse struct {
 	Variables []dapVariable `json:"variables"`
 }
@@ -591,23 +613,16 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 									Value: strconv.Itoa(b.Budget),
 								})
 							case 1:
-								for i := len(b.Stack.Items) - 1; i >= 0; i-- {
+								s, e := vreq.Arguments.page(len(b.Stack.Items))
+
+								for i := len(b.Stack.Items) - 1 - s; i >= len(b.Stack.Items)-e; i-- {
 									vs = append(vs, dapVariable{
 										Name:  strconv.Itoa(i),
 										Value: b.Stack.Items[i].String(),
 									})
 								}
 							case 2:
-								s := 0
-								e := len(b.Scratch.Items)
-
-								if vreq.Arguments.Start != nil {
-									s = *vreq.Arguments.Start
-								}
-
-								if vreq.Arguments.Count != nil {
-									e = s + *vreq.Arguments.Count
-								}
+								s, e := vreq.Arguments.page(len(b.Scratch.Items))
 
 								for i := s; i < e; i++ {
 									v := b.Scratch.Items[i]
@@ -619,16 +634,7 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 									}
 								}
 							case 3:
-								s := 0
-								e := len(b.Trace)
-
-								if vreq.Arguments.Start != nil {
-									s = *vreq.Arguments.Start
-								}
-
-								if vreq.Arguments.Count != nil {
-									e = s + *vreq.Arguments.Count
-								}
+								s, e := vreq.Arguments.page(len(b.Trace))
 
 								for i := s; i < e; i++ {
 									v := b.Trace[i]
-- 
2.43.0


From b575b58efe7709bbc89a62860ed2163847fa75db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:02 +0000
Subject: [PATCH 45/51] fix: the debug adapter counts and pages all stack
 frames

---
 dbg/dbg.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 80c2991..30e29a8 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -739,12 +739,12 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				}
 			}
 
-			one := new(int)
-			*one = 1
+			total := len(sf)
+			s, e := page(total, sreq.Arguments.StartFrame, sreq.Arguments.Levels)
 
 			return l.reply(h.Seq, req.Command, "", dapStackTraceResponse{
-				StackFrames: sf,
-				TotalFrames: one,
+				StackFrames: sf[s:e],
+				TotalFrames: &total,
 			}, nil)
 		default:
 			return errors.Errorf("unknown command: %s", req.Command)
-- 
2.43.0


From 95473c859a016fc47ed71c5d366e5ca3f7ab505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:05 +0000
Subject: [PATCH 46/51] fix: close the bracket around optional arguments in
 signatures

---
 process.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/process.go b/process.go
index 4baa4a5..3725907 100644
--- a/process.go
+++ b/process.go
@@ -1492,6 +1492,7 @@ var Ops = func() *opItems {
 
 				if arg.Optional {
 					if !optional {
+						optional = true
 						name = "[" + name
 					}
 				}
-- 
2.43.0


From ec39033f695ac112b64a7d989481da2faa1552c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:05 +0000
Subject: [PATCH 47/51] fix: complete logic signature opcodes at their version

---
 lsp/lsp.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index dfa2ac4..44bf60d 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1488,7 +1488,12 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 				})
 
 				for name, info := range teal.Ops.Items {
-					if info.AppVersion <= res.Version && strings.HasPrefix(name, prefix) {
+					version := info.AppVersion
+					if version == 0 {
+						version = info.SigVersion
+					}
+
+					if version <= res.Version && strings.HasPrefix(name, prefix) {
 						var insert string
 						var format *int
 						if len(info.Args) > 0 {
@@ -1508,7 +1513,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 							format = nil
 						}
 
-						ld := fmt.Sprintf("v%d", info.AppVersion)
+						ld := fmt.Sprintf("v%d", version)
 						ccs = append(ccs, lspCompletionItem{
 							Label: name,
 							Documentation: lspMarkupContent{
-- 
2.43.0


From 7185bb33cede1fdb3ac75f15b77b98e3de3b5b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:56 +0000
Subject: [PATCH 48/51] fix: scan results refer to the artifact of their file

---
 cmd/tealsarif/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/tealsarif/main.go b/cmd/tealsarif/main.go
index 14f386b..fe49474 100644
--- a/cmd/tealsarif/main.go
+++ b/cmd/tealsarif/main.go
@@ -125,7 +125,7 @@ func run(a args) error {
 			},
 		})
 
-		for i, d := range res.Diagnostics {
+		for _, d := range res.Diagnostics {
 			run.Results = append(run.Results, sarif.Result{
 				RuleId: d.Rule(),
 				Level:  ToSarifLevel(d.Severity()),
@@ -137,7 +137,7 @@ func run(a args) error {
 						PhysicalLocation: sarif.PhysicalLocation{
 							ArtifactLocation: sarif.ArtifactLocation{
 								Uri:   up,
-								Index: i,
+								Index: len(run.Artifacts) - 1,
 							},
 							Region: sarif.Region{
 								StartLine:   d.Line() + 1,
-- 
2.43.0


From 74425bca3097f6ededb7ed9c9d8e9d57e31c7b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:38 +0000
Subject: [PATCH 49/51] fix: blocks and functions compile into their
 instructions

---
 expr.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/expr.go b/expr.go
index 72cccc7..245f459 100644
--- a/expr.go
+++ b/expr.go
@@ -1213,12 +1213,36 @@ type NestedExpr struct {
 	Body  []Expr
 }
 
+func (e *NestedExpr) Compile(c *compiler) []Op {
+	var ops []Op
+
+	if e.Label != nil {
+		ops = append(ops, e.Label)
+	}
+
+	return c.compile(ops, e.Body...)
+}
+
 type FuncExpr struct {
 	Label *LabelExpr
 	Proto *ProtoExpr
 	Block *NestedExpr
 }
 
+func (e *FuncExpr) Compile(c *compiler) []Op {
+	ops := []Op{e.Label}
+
+	if e.Proto != nil {
+		ops = append(ops, e.Proto)
+	}
+
+	if e.Block != nil {
+		ops = append(ops, e.Block.Compile(c)...)
+	}
+
+	return ops
+}
+
 func (e *FuncExpr) Call(args ...Expr) Expr {
 	var exprs []Expr
 
-- 
2.43.0


From e19721ed18a6f5454b59e8d070b18d54d27a608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:41 +0000
Subject: [PATCH 50/51] fix: Cover builds a cover

---
 expr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr.go b/expr.go
index 245f459..a971d3e 100644
--- a/expr.go
+++ b/expr.go
@@ -3907,8 +3907,8 @@ func CallSub[T Labelled](l T) *CallSubExpr {
 	return &CallSubExpr{Label: l.GetLabel()}
 }
 
-func Cover(index uint8) *UncoverExpr {
-	return &UncoverExpr{Depth: index}
+func Cover(index uint8) *CoverExpr {
+	return &CoverExpr{Depth: index}
 }
 
 func Comment(text string) *CommentExpr {
-- 
2.43.0


From 387574d89a4167a5e70c8479eed17db86d7ca119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:58 +0000
Subject: [PATCH 51/51] fix: escape string constants when they are printed

---
 expr.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index a971d3e..166f513 100644
--- a/expr.go
+++ b/expr.go
@@ -1327,10 +1327,31 @@ type Bytes struct {
 	Format BytesFormat
 }
 
+// quote returns v as a string literal that denotes exactly its bytes.
+func quote(v []byte) string {
+	var b strings.Builder
+
+	b.WriteByte('"')
+	for _, c := range v {
+		switch {
+		case c == '"' || c == '\\':
+			b.WriteByte('\\')
+			b.WriteByte(c)
+		case c < ' ' || c > '~':
+			fmt.Fprintf(&b, "\\x%02x", c)
+		default:
+			b.WriteByte(c)
+		}
+	}
+	b.WriteByte('"')
+
+	return b.String()
+}
+
 func (e Bytes) String() string {
 	switch e.Format {
 	case BytesStringLiteral:
-		return fmt.Sprintf("\"%s\"", string(e.Value))
+		return quote(e.Value)
 	case BytesBase64:
 		if len(e.Value) == 0 {
 			return "0x" // an empty base64 literal does not parse
-- 
2.43.0

