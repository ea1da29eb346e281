From e7886b9525617b69721593dc9dbe5729d84b8866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 01/84] fix: resolve import paths written as raw or escaped
 string literals

---
 import_tracker.go  | 7 ++++++-
 rules/blocklist.go | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/import_tracker.go b/import_tracker.go
index 0d9ebfe..a3ca960 100644
--- a/import_tracker.go
+++ b/import_tracker.go
@@ -16,6 +16,7 @@ import (
 	"go/ast"
 	"go/types"
 	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -52,7 +53,11 @@ func (t *ImportTracker) TrackPackages(pkgs ...*types.Package) {
 
 // TrackImport tracks imports.
 func (t *ImportTracker) TrackImport(imported *ast.ImportSpec) {
-	importPath := strings.Trim(imported.Path.Value, `"`)
+	// An import path can be any Go string literal (e.g. interpreted or raw).
+	importPath, err := strconv.Unquote(imported.Path.Value)
+	if err != nil {
+		importPath = strings.Trim(imported.Path.Value, `"`)
+	}
 	if imported.Name != nil {
 		if imported.Name.Name != "_" {
 			// Aliased import
diff --git a/rules/blocklist.go b/rules/blocklist.go
index a4376b1..2f58b11 100644
--- a/rules/blocklist.go
+++ b/rules/blocklist.go
@@ -16,6 +16,7 @@ package rules
 
 import (
 	"go/ast"
+	"strconv"
 	"strings"
 
 	"github.com/securego/gosec/v2"
@@ -29,6 +30,10 @@ type blocklistedImport struct {
 
 func unquote(original string) string {
 	cleaned := strings.TrimSpace(original)
+	// An import path can be any Go string literal (e.g. interpreted or raw).
+	if unquoted, err := strconv.Unquote(cleaned); err == nil {
+		return unquoted
+	}
 	cleaned = strings.TrimLeft(cleaned, `"`)
 	return strings.TrimRight(cleaned, `"`)
 }
-- 
2.43.0


From 55538eb27f144d40e1ce154a7fcdcdf26129bbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 02/84] fix: recognise os.ModePerm when package os is imported
 under another name

---
 rules/fileperms.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rules/fileperms.go b/rules/fileperms.go
index bf2a959..b65c6a0 100644
--- a/rules/fileperms.go
+++ b/rules/fileperms.go
@@ -61,7 +61,7 @@ func (r *filePermissions) Match(n ast.Node, c *gosec.Context) (*issue.Issue, err
 	for _, pkg := range r.pkgs {
 		if callexpr, matched := gosec.MatchCallByPackage(n, c, pkg, r.calls...); matched {
 			modeArg := callexpr.Args[len(callexpr.Args)-1]
-			if mode, err := gosec.GetInt(modeArg); err == nil && !modeIsSubset(mode, r.mode) || isOsPerm(modeArg) {
+			if mode, err := gosec.GetInt(modeArg); err == nil && !modeIsSubset(mode, r.mode) || isOsPerm(modeArg, c) {
 				return c.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
 			}
 		}
@@ -70,10 +70,10 @@ func (r *filePermissions) Match(n ast.Node, c *gosec.Context) (*issue.Issue, err
 }
 
 // isOsPerm check if the provide ast node contains a os.PermMode symbol
-func isOsPerm(n ast.Node) bool {
+func isOsPerm(n ast.Node, c *gosec.Context) bool {
 	if node, ok := n.(*ast.SelectorExpr); ok {
 		if identX, ok := node.X.(*ast.Ident); ok {
-			if identX.Name == "os" && node.Sel != nil && node.Sel.Name == "ModePerm" {
+			if path, ok := gosec.GetImportPath(identX.Name, c); ok && path == "os" && node.Sel != nil && node.Sel.Name == "ModePerm" {
 				return true
 			}
 		}
-- 
2.43.0


From a8cbb9f657af9e981a3e85301735c5c24e6f8ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 03/84] fix: do not take calls of the package's own functions
 for calls of an imported package with the same name

---
 call_list.go |  4 ++++
 helpers.go   | 14 ++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/call_list.go b/call_list.go
index 4f2d6c5..84cfb1c 100644
--- a/call_list.go
+++ b/call_list.go
@@ -72,6 +72,10 @@ func (c CallList) ContainsPointer(selector, indent string) bool {
 // ContainsPkgCallExpr resolves the call expression name and type, and then further looks
 // up the package path for that type. Finally, it determines if the call exists within the call list
 func (c CallList) ContainsPkgCallExpr(n ast.Node, ctx *Context, stripVendor bool) *ast.CallExpr {
+	if isUnqualifiedCall(n) {
+		return nil
+	}
+
 	selector, ident, err := GetCallInfo(n, ctx)
 	if err != nil {
 		return nil
diff --git a/helpers.go b/helpers.go
index 33e2b4a..b0cee30 100644
--- a/helpers.go
+++ b/helpers.go
@@ -49,6 +49,9 @@ func MatchCallByPackage(n ast.Node, c *Context, pkg string, names ...string) (*a
 	}
 
 	if callExpr, ok := n.(*ast.CallExpr); ok {
+		if isUnqualifiedCall(callExpr) {
+			return nil, false
+		}
 		packageName, callName, err := GetCallInfo(callExpr, c)
 		if err != nil {
 			return nil, false
@@ -67,6 +70,17 @@ func MatchCallByPackage(n ast.Node, c *Context, pkg string, names ...string) (*a
 	return nil, false
 }
 
+// isUnqualifiedCall returns true when the called function is named by a plain identifier. Such a function
+// belongs to the package being scanned, even when an imported package has the same name as this package.
+func isUnqualifiedCall(n ast.Node) bool {
+	callExpr, ok := n.(*ast.CallExpr)
+	if !ok {
+		return false
+	}
+	_, ok = callExpr.Fun.(*ast.Ident)
+	return ok
+}
+
 // MatchCompLit will match an ast.CompositeLit based on the supplied type
 func MatchCompLit(n ast.Node, ctx *Context, required string) *ast.CompositeLit {
 	if complit, ok := n.(*ast.CompositeLit); ok {
-- 
2.43.0


From fc7f68fb61b567da28f01d08336e2f25668f9846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 04/84] fix: take the bound of a comparison with the right
 strictness and direction in integer conversion checks

A check like x <= 256 was taken for x <= 255, and x < 256 was not; a
comparison written with the constant first was taken for the opposite
bound when it guards the conversion by leaving the function.
---
 analyzers/conversion_overflow.go | 46 ++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 42e1867..6c0ee5c 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -409,32 +409,38 @@ func updateExplicitValues(result *rangeResult, constVal *ssa.Const) {
 }
 
 func updateMinMaxForLessOrEqual(result *rangeResult, constVal *ssa.Const, op token.Token, operandsFlipped bool, successPathConvert bool) {
-	// If the success path has a conversion and the operands are not flipped, then the constant value is the maximum value.
-	if successPathConvert && !operandsFlipped {
-		result.maxValue = uint(constVal.Uint64())
-		if op == token.LEQ {
-			result.maxValue--
-		}
+	// The constant is excluded by a strict comparison that holds, or by a non-strict one that does not hold.
+	strict := (op == token.LSS) == successPathConvert
+	// If either the success path has the conversion or the operands are flipped, but not both, then the constant value is the upper bound.
+	if successPathConvert != operandsFlipped {
+		setUpperBound(result, constVal, strict)
 	} else {
-		result.minValue = int(constVal.Int64())
-		if op == token.GTR {
-			result.minValue++
-		}
+		setLowerBound(result, constVal, strict)
 	}
 }
 
 func updateMinMaxForGreaterOrEqual(result *rangeResult, constVal *ssa.Const, op token.Token, operandsFlipped bool, successPathConvert bool) {
-	// If the success path has a conversion and the operands are not flipped, then the constant value is the minimum value.
-	if successPathConvert && !operandsFlipped {
-		result.minValue = int(constVal.Int64())
-		if op == token.GEQ {
-			result.minValue++
-		}
+	// The constant is excluded by a strict comparison that holds, or by a non-strict one that does not hold.
+	strict := (op == token.GTR) == successPathConvert
+	// If either the success path has the conversion or the operands are flipped, but not both, then the constant value is the lower bound.
+	if successPathConvert != operandsFlipped {
+		setLowerBound(result, constVal, strict)
 	} else {
-		result.maxValue = uint(constVal.Uint64())
-		if op == token.LSS {
-			result.maxValue--
-		}
+		setUpperBound(result, constVal, strict)
+	}
+}
+
+func setLowerBound(result *rangeResult, constVal *ssa.Const, strict bool) {
+	result.minValue = int(constVal.Int64())
+	if strict && result.minValue < math.MaxInt {
+		result.minValue++
+	}
+}
+
+func setUpperBound(result *rangeResult, constVal *ssa.Const, strict bool) {
+	result.maxValue = uint(constVal.Uint64())
+	if strict && result.maxValue > 0 {
+		result.maxValue--
 	}
 }
 
-- 
2.43.0


From 84caa4ff25035544d3fdaab4a5e65982cbb83aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 05/84] fix: let a comparison bound an integer conversion only
 where its outcome is known

A conversion after an if statement, or in a branch entered through another
condition as well, was taken for checked by the comparison.
---
 analyzers/conversion_overflow.go | 33 +++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 6c0ee5c..ed9be5f 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -324,7 +324,13 @@ func getResultRange(ifInstr *ssa.If, instr *ssa.Convert, visitedIfs map[*ssa.If]
 	thenBounds := walkBranchForConvert(ifInstr.Block().Succs[0], instr, visitedIfs)
 	elseBounds := walkBranchForConvert(ifInstr.Block().Succs[1], instr, visitedIfs)
 
-	updateResultFromBinOp(&result, binOp, instr, thenBounds.convertFound)
+	thenHolds := outcomeHolds(ifInstr.Block(), 0, instr)
+	elseHolds := outcomeHolds(ifInstr.Block(), 1, instr)
+	// The comparison tells nothing about the value when the conversion is reached whatever its outcome,
+	// unless it accepts one of several values.
+	if thenHolds || elseHolds || isOneOfAcceptedValues(ifInstr.Block(), instr) {
+		updateResultFromBinOp(&result, binOp, instr, !elseHolds)
+	}
 
 	if thenBounds.convertFound {
 		result.convertFound = true
@@ -344,6 +350,31 @@ func getResultRange(ifInstr *ssa.If, instr *ssa.Convert, visitedIfs map[*ssa.If]
 	return result
 }
 
+// outcomeHolds tells whether the conversion is only reached through the given successor of the block ending with a comparison.
+func outcomeHolds(block *ssa.BasicBlock, succ int, instr *ssa.Convert) bool {
+	next := block.Succs[succ]
+	return len(next.Preds) == 1 && next.Dominates(instr.Block())
+}
+
+// isOneOfAcceptedValues tells whether the block ends with one of several equality checks of the converted value
+// and the conversion is only reached when one of them holds.
+func isOneOfAcceptedValues(block *ssa.BasicBlock, instr *ssa.Convert) bool {
+	next := block.Succs[0]
+	if !next.Dominates(instr.Block()) {
+		return false
+	}
+	for _, pred := range next.Preds {
+		check, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If)
+		if !ok || pred.Succs[0] != next {
+			return false
+		}
+		if binOp, ok := check.Cond.(*ssa.BinOp); !ok || binOp.Op != token.EQL || !isRangeCheck(binOp, instr.X) {
+			return false
+		}
+	}
+	return true
+}
+
 // updateResultFromBinOp updates the rangeResult based on the BinOp instruction and the location of the Convert instruction.
 func updateResultFromBinOp(result *rangeResult, binOp *ssa.BinOp, instr *ssa.Convert, successPathConvert bool) {
 	x, y := binOp.X, binOp.Y
-- 
2.43.0


From d33e31b4dca5a0976849a85d4a15ea37d8617242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 06/84] fix: check every origin of a parsed number and do not
 loop forever on cyclic values in integer conversion checks

Only the first edge of a phi value was followed, endlessly so when these
edges form a cycle. Bit size 0 was taken for a size of no bits, and
constants converted to 64-bit unsigned types never for being in range.
---
 analyzers/conversion_overflow.go | 96 +++++++++++++++++++-------------
 1 file changed, 56 insertions(+), 40 deletions(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index ed9be5f..88b201e 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -173,7 +173,7 @@ func isSafeConversion(instr *ssa.Convert) bool {
 
 	// Check for constant conversions.
 	if constVal, ok := instr.X.(*ssa.Const); ok {
-		if isConstantInRange(constVal, dstType) {
+		if dstInt, err := parseIntType(dstType); err == nil && isConstantInRange(constVal, dstInt) {
 			return true
 		}
 	}
@@ -191,59 +191,75 @@ func isSafeConversion(instr *ssa.Convert) bool {
 	return false
 }
 
-func isConstantInRange(constVal *ssa.Const, dstType string) bool {
-	value, err := strconv.ParseInt(constVal.Value.String(), 10, 64)
-	if err != nil {
+func isConstantInRange(constVal *ssa.Const, dstInt integer) bool {
+	if constVal.Value == nil {
 		return false
 	}
+	if value, err := strconv.ParseInt(constVal.Value.String(), 10, 64); err == nil {
+		return value >= int64(dstInt.min) && (value < 0 || uint64(value) <= uint64(dstInt.max))
+	}
+	value, err := strconv.ParseUint(constVal.Value.String(), 10, 64)
+	return err == nil && value <= uint64(dstInt.max)
+}
 
+func isStringToIntConversion(instr *ssa.Convert, dstType string) bool {
 	dstInt, err := parseIntType(dstType)
 	if err != nil {
 		return false
 	}
+	return isParsedInRange(instr.X, dstInt, make(map[ssa.Value]bool))
+}
 
-	if dstInt.signed {
-		return value >= -(1<<(dstInt.size-1)) && value <= (1<<(dstInt.size-1))-1
+// isParsedInRange traverses the SSA instructions to find the origin of the value, which has to be a string parsed into
+// a number that fits the destination type on every path.
+func isParsedInRange(value ssa.Value, dstInt integer, visited map[ssa.Value]bool) bool {
+	if visited[value] {
+		return true
 	}
-	return value >= 0 && value <= (1<<dstInt.size)-1
-}
+	visited[value] = true
 
-func isStringToIntConversion(instr *ssa.Convert, dstType string) bool {
-	// Traverse the SSA instructions to find the original variable.
-	original := instr.X
-	for {
-		switch v := original.(type) {
-		case *ssa.Call:
-			if v.Call.StaticCallee() != nil && (v.Call.StaticCallee().Name() == "ParseInt" || v.Call.StaticCallee().Name() == "ParseUint") {
-				if len(v.Call.Args) == 3 {
-					if bitSize, ok := v.Call.Args[2].(*ssa.Const); ok {
-						signed := v.Call.StaticCallee().Name() == "ParseInt"
-						bitSizeValue, err := strconv.Atoi(bitSize.Value.String())
-						if err != nil {
-							return false
-						}
-						dstInt, err := parseIntType(dstType)
-						if err != nil {
-							return false
-						}
+	switch v := value.(type) {
+	case *ssa.Call:
+		if v.Call.StaticCallee() == nil || (v.Call.StaticCallee().Name() != "ParseInt" && v.Call.StaticCallee().Name() != "ParseUint") {
+			return false
+		}
+		if len(v.Call.Args) != 3 {
+			return false
+		}
+		bitSize, ok := v.Call.Args[2].(*ssa.Const)
+		if !ok {
+			return false
+		}
+		signed := v.Call.StaticCallee().Name() == "ParseInt"
+		bitSizeValue, err := strconv.Atoi(bitSize.Value.String())
+		if err != nil {
+			return false
+		}
+		// bit size 0 stands for the size of int or uint.
+		if bitSizeValue == 0 {
+			bitSizeValue = strconv.IntSize
+		}
 
-						// we're good if:
-						// - signs match and bit size is <= than destination
-						// - parsing unsigned and bit size is < than destination
-						isSafe := (bitSizeValue <= dstInt.size && signed == dstInt.signed) ||
-							(bitSizeValue < dstInt.size && !signed)
-						return isSafe
-					}
+		// we're good if:
+		// - signs match and bit size is <= than destination
+		// - parsing unsigned and bit size is < than destination
+		return (bitSizeValue <= dstInt.size && signed == dstInt.signed) ||
+			(bitSizeValue < dstInt.size && !signed)
+	case *ssa.Phi:
+		for _, edge := range v.Edges {
+			if constVal, ok := edge.(*ssa.Const); ok {
+				if !isConstantInRange(constVal, dstInt) {
+					return false
 				}
+			} else if !isParsedInRange(edge, dstInt, visited) {
+				return false
 			}
-			return false
-		case *ssa.Phi:
-			original = v.Edges[0]
-		case *ssa.Extract:
-			original = v.Tuple
-		default:
-			return false
 		}
+		return true
+	case *ssa.Extract:
+		return isParsedInRange(v.Tuple, dstInt, visited)
+	default:
+		return false
 	}
 }
 
-- 
2.43.0


From 17b21160c366c43e6ed0cb2f9c4a37dc005c875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 07/84] fix: honour range checks of values of named integer
 types

---
 analyzers/conversion_overflow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 88b201e..4c4f443 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -269,7 +269,7 @@ func hasExplicitRangeCheck(instr *ssa.Convert, dstType string) bool {
 		return false
 	}
 
-	srcInt, err := parseIntType(instr.X.Type().String())
+	srcInt, err := parseIntType(instr.X.Type().Underlying().String())
 	if err != nil {
 		return false
 	}
-- 
2.43.0


From 0f17eea78079df899324ad98fee288e523efc8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 08/84] fix: report overflowing conversions to and from byte
 and rune

---
 analyzers/conversion_overflow.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 4c4f443..7cbb947 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -116,6 +116,14 @@ func isIntOverflow(src string, dst string) bool {
 }
 
 func parseIntType(intType string) (integer, error) {
+	// byte and rune are other names of these types.
+	switch intType {
+	case "byte":
+		intType = "uint8"
+	case "rune":
+		intType = "int32"
+	}
+
 	re := regexp.MustCompile(`^(?P<type>u?int)(?P<size>\d{1,2})?$`)
 	matches := re.FindStringSubmatch(intType)
 	if matches == nil {
-- 
2.43.0


From 10db30acb86ee27ab46d0c9862c740e32d38b1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 09/84] fix: judge every TLS configuration by its own versions

The versions of one configuration were kept for the next one when an
earlier setting was reported or when a field was assigned. Versions given
by a constant or variable are now resolved from type information, which
also avoids panics on names the parser does not resolve.
---
 rules/tls.go | 113 ++++++++++++++++++++-------------------------------
 1 file changed, 44 insertions(+), 69 deletions(-)

diff --git a/rules/tls.go b/rules/tls.go
index 65a0b5a..7c47b96 100644
--- a/rules/tls.go
+++ b/rules/tls.go
@@ -17,11 +17,9 @@
 package rules
 
 import (
-	"crypto/tls"
 	"fmt"
 	"go/ast"
-	"go/types"
-	"strconv"
+	"go/constant"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -108,60 +106,13 @@ func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *g
 			}
 
 		case "MinVersion":
-			if d, ok := value.(*ast.Ident); ok {
-				obj := d.Obj
-				if obj == nil {
-					for _, f := range c.PkgFiles {
-						obj = f.Scope.Lookup(d.Name)
-						if obj != nil {
-							break
-						}
-					}
-				}
-				if vs, ok := obj.Decl.(*ast.ValueSpec); ok && len(vs.Values) > 0 {
-					if s, ok := vs.Values[0].(*ast.SelectorExpr); ok {
-						x := s.X.(*ast.Ident).Name
-						sel := s.Sel.Name
-
-						for _, imp := range c.Pkg.Imports() {
-							if imp.Name() == x {
-								tObj := imp.Scope().Lookup(sel)
-								if cst, ok := tObj.(*types.Const); ok {
-									// ..got the value check if this can be translated
-									if minVersion, err := strconv.ParseInt(cst.Val().String(), 0, 64); err == nil {
-										t.actualMinVersion = minVersion
-									}
-								}
-							}
-						}
-					}
-					if ival, ierr := gosec.GetInt(vs.Values[0]); ierr == nil {
-						t.actualMinVersion = ival
-					}
-				}
-			} else if ival, ierr := gosec.GetInt(value); ierr == nil {
-				t.actualMinVersion = ival
-			} else {
-				if se, ok := value.(*ast.SelectorExpr); ok {
-					if pkg, ok := se.X.(*ast.Ident); ok {
-						if ip, ok := gosec.GetImportPath(pkg.Name, c); ok && ip == "crypto/tls" {
-							t.actualMinVersion = t.mapVersion(se.Sel.Name)
-						}
-					}
-				}
+			if version, ok := t.versionValue(value, c); ok {
+				t.actualMinVersion = version
 			}
 
 		case "MaxVersion":
-			if ival, ierr := gosec.GetInt(value); ierr == nil {
-				t.actualMaxVersion = ival
-			} else {
-				if se, ok := value.(*ast.SelectorExpr); ok {
-					if pkg, ok := se.X.(*ast.Ident); ok {
-						if ip, ok := gosec.GetImportPath(pkg.Name, c); ok && ip == "crypto/tls" {
-							t.actualMaxVersion = t.mapVersion(se.Sel.Name)
-						}
-					}
-				}
+			if version, ok := t.versionValue(value, c); ok {
+				t.actualMaxVersion = version
 			}
 
 		case "CipherSuites":
@@ -174,19 +125,43 @@ func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *g
 	return nil
 }
 
-func (t *insecureConfigTLS) mapVersion(version string) int64 {
-	var v int64
-	switch version {
-	case "VersionTLS13":
-		v = tls.VersionTLS13
-	case "VersionTLS12":
-		v = tls.VersionTLS12
-	case "VersionTLS11":
-		v = tls.VersionTLS11
-	case "VersionTLS10":
-		v = tls.VersionTLS10
+// versionValue resolves the value of a version setting, which is a constant expression
+// or a variable initialized with one.
+func (t *insecureConfigTLS) versionValue(value ast.Expr, c *gosec.Context) (int64, bool) {
+	if version, ok := constantVersion(value, c); ok {
+		return version, true
+	}
+	d, ok := value.(*ast.Ident)
+	if !ok {
+		return 0, false
+	}
+	obj := d.Obj
+	if obj == nil {
+		for _, f := range c.PkgFiles {
+			if obj = f.Scope.Lookup(d.Name); obj != nil {
+				break
+			}
+		}
+	}
+	if obj == nil {
+		return 0, false
+	}
+	if vs, ok := obj.Decl.(*ast.ValueSpec); ok && len(vs.Values) == len(vs.Names) {
+		for i, name := range vs.Names {
+			if name.Name == d.Name {
+				return constantVersion(vs.Values[i], c)
+			}
+		}
+	}
+	return 0, false
+}
+
+func constantVersion(value ast.Expr, c *gosec.Context) (int64, bool) {
+	tv, ok := c.Info.Types[value]
+	if !ok || tv.Value == nil {
+		return 0, false
 	}
-	return v
+	return constant.Int64Val(constant.ToInt(tv.Value))
 }
 
 func (t *insecureConfigTLS) checkVersion(n ast.Node, c *gosec.Context) *issue.Issue {
@@ -212,15 +187,15 @@ func (t *insecureConfigTLS) Match(n ast.Node, c *gosec.Context) (*issue.Issue, e
 	if complit, ok := n.(*ast.CompositeLit); ok && complit.Type != nil {
 		actualType := c.Info.TypeOf(complit.Type)
 		if actualType != nil && actualType.String() == t.requiredType {
+			// the versions set by other configurations don't count here
+			t.resetVersion()
 			for _, elt := range complit.Elts {
 				issue := t.processTLSConf(elt, c)
 				if issue != nil {
 					return issue, nil
 				}
 			}
-			issue := t.checkVersion(complit, c)
-			t.resetVersion()
-			return issue, nil
+			return t.checkVersion(complit, c), nil
 		}
 	} else {
 		if assign, ok := n.(*ast.AssignStmt); ok && len(assign.Lhs) > 0 {
-- 
2.43.0


From b60dbffce00474a293005518ff83d21997051148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 10/84] fix: check TLS configurations in literals of elided or
 alias type

---
 rules/tls.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/rules/tls.go b/rules/tls.go
index 7c47b96..77bd1a1 100644
--- a/rules/tls.go
+++ b/rules/tls.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"go/ast"
 	"go/constant"
+	"go/types"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -183,9 +184,22 @@ func (t *insecureConfigTLS) resetVersion() {
 	t.actualMinVersion = 0
 }
 
+// literalType gives the type of a composite literal, also when it is elided within
+// an array, slice or map literal or given by an alias.
+func literalType(complit *ast.CompositeLit, c *gosec.Context) types.Type {
+	actualType := c.Info.TypeOf(complit)
+	if actualType == nil {
+		return nil
+	}
+	if ptr, ok := actualType.(*types.Pointer); ok && complit.Type == nil {
+		actualType = ptr.Elem()
+	}
+	return types.Unalias(actualType)
+}
+
 func (t *insecureConfigTLS) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
-	if complit, ok := n.(*ast.CompositeLit); ok && complit.Type != nil {
-		actualType := c.Info.TypeOf(complit.Type)
+	if complit, ok := n.(*ast.CompositeLit); ok {
+		actualType := literalType(complit, c)
 		if actualType != nil && actualType.String() == t.requiredType {
 			// the versions set by other configurations don't count here
 			t.resetVersion()
-- 
2.43.0


From 10a42209e2b36015cb7e7b31328d5555505ce56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 11/84] fix: check SQL formatted within the query argument
 itself

Only queries formatted into a variable first were checked. A call like
fmt.Fprintf(f()) no longer makes the rule read past its arguments.
---
 rules/sql.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rules/sql.go b/rules/sql.go
index 61222bf..b0c0674 100644
--- a/rules/sql.go
+++ b/rules/sql.go
@@ -268,6 +268,10 @@ func (s *sqlStrFormat) checkQuery(call *ast.CallExpr, ctx *gosec.Context) (*issu
 		return nil, err
 	}
 
+	if format, ok := query.(*ast.CallExpr); ok {
+		return s.checkFormatting(format, ctx), nil
+	}
+
 	if ident, ok := query.(*ast.Ident); ok && ident.Obj != nil {
 		decl := ident.Obj.Decl
 		if assign, ok := decl.(*ast.AssignStmt); ok {
@@ -304,7 +308,7 @@ func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Is
 		}
 
 		// no formatter
-		if len(node.Args) == 0 {
+		if len(node.Args) <= argIndex {
 			return nil
 		}
 
-- 
2.43.0


From 6ee5a7efb4a323c983b137f0489312ccf03e39ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 12/84] fix: find the receiver type of calls on variables
 declared in another file of the package

---
 helpers.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index b0cee30..0cfa71c 100644
--- a/helpers.go
+++ b/helpers.go
@@ -184,7 +184,9 @@ func GetCallInfo(n ast.Node, ctx *Context) (string, string, error) {
 		case *ast.SelectorExpr:
 			switch expr := fn.X.(type) {
 			case *ast.Ident:
-				if expr.Obj != nil && expr.Obj.Kind == ast.Var {
+				// The parser doesn't resolve the variables declared in other files of the package.
+				_, isVar := ctx.Info.ObjectOf(expr).(*types.Var)
+				if isVar || (expr.Obj != nil && expr.Obj.Kind == ast.Var) {
 					t := ctx.Info.TypeOf(expr)
 					if t != nil {
 						return t.String(), fn.Sel.Name, nil
-- 
2.43.0


From b5d5f7b439978cc33ad1f8b16982298149fc9f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 13/84] fix: skip the context argument of CommandContext
 whatever the import name of the package

---
 rules/subproc.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/rules/subproc.go b/rules/subproc.go
index 1e2ceda..1a4c250 100644
--- a/rules/subproc.go
+++ b/rules/subproc.go
@@ -25,6 +25,7 @@ import (
 type subprocess struct {
 	issue.MetaData
 	gosec.CallList
+	contextCalls gosec.CallList
 }
 
 func (r *subprocess) ID() string {
@@ -43,7 +44,7 @@ func (r *subprocess) ID() string {
 func (r *subprocess) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	if node := r.ContainsPkgCallExpr(n, c, false); node != nil {
 		args := node.Args
-		if r.isContext(n, c) {
+		if r.isContext(n, c) && len(args) > 0 {
 			args = args[1:]
 		}
 		for _, arg := range args {
@@ -99,19 +100,12 @@ func (r *subprocess) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 // isContext checks whether or not the node is a CommandContext call or not
 // This is required in order to skip the first argument from the check.
 func (r *subprocess) isContext(n ast.Node, ctx *gosec.Context) bool {
-	selector, indent, err := gosec.GetCallInfo(n, ctx)
-	if err != nil {
-		return false
-	}
-	if selector == "exec" && indent == "CommandContext" {
-		return true
-	}
-	return false
+	return r.contextCalls.ContainsPkgCallExpr(n, ctx, false) != nil
 }
 
 // NewSubproc detects cases where we are forking out to an external process
 func NewSubproc(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
-	rule := &subprocess{issue.MetaData{ID: id}, gosec.NewCallList()}
+	rule := &subprocess{issue.MetaData{ID: id}, gosec.NewCallList(), gosec.NewCallList()}
 	rule.Add("os/exec", "Command")
 	rule.Add("os/exec", "CommandContext")
 	rule.Add("syscall", "Exec")
@@ -119,5 +113,7 @@ func NewSubproc(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 	rule.Add("syscall", "StartProcess")
 	rule.Add("golang.org/x/sys/execabs", "Command")
 	rule.Add("golang.org/x/sys/execabs", "CommandContext")
+	rule.contextCalls.Add("os/exec", "CommandContext")
+	rule.contextCalls.Add("golang.org/x/sys/execabs", "CommandContext")
 	return rule, []ast.Node{(*ast.CallExpr)(nil)}
 }
-- 
2.43.0


From 87beb18ceb717b4c9fef3a8735a29f2b65fc133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 14/84] fix: do not take a local URL variable for a package
 variable of the same name

---
 rules/ssrf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules/ssrf.go b/rules/ssrf.go
index dbf0108..a301f7e 100644
--- a/rules/ssrf.go
+++ b/rules/ssrf.go
@@ -27,7 +27,7 @@ func (r *ssrf) ResolveVar(n *ast.CallExpr, c *gosec.Context) bool {
 			obj := c.Info.ObjectOf(ident)
 			if _, ok := obj.(*types.Var); ok {
 				scope := c.Pkg.Scope()
-				if scope != nil && scope.Lookup(ident.Name) != nil {
+				if scope != nil && scope.Lookup(ident.Name) == obj {
 					// a URL defined in a variable at package scope can be changed at any time
 					return true
 				}
-- 
2.43.0


From d4e50a036a3ef5ae3eb05f86d8549d3b23956414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 15/84] fix: do not take a path variable for cleaned because
 one declared with it is

---
 rules/readfile.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rules/readfile.go b/rules/readfile.go
index da6b9c9..97fd40b 100644
--- a/rules/readfile.go
+++ b/rules/readfile.go
@@ -61,14 +61,20 @@ func (r *readfile) isJoinFunc(n ast.Node, c *gosec.Context) bool {
 
 // isFilepathClean checks if there is a filepath.Clean for given variable
 func (r *readfile) isFilepathClean(n *ast.Ident, c *gosec.Context) bool {
-	if _, ok := r.cleanedVar[n.Obj.Decl]; ok {
+	if _, ok := r.cleanedVar[n.Obj]; ok {
 		return true
 	}
 	if n.Obj.Kind != ast.Var {
 		return false
 	}
 	if node, ok := n.Obj.Decl.(*ast.AssignStmt); ok {
-		if call, ok := node.Rhs[0].(*ast.CallExpr); ok {
+		value := node.Rhs[0]
+		for i, lhs := range node.Lhs {
+			if name, ok := lhs.(*ast.Ident); ok && name.Name == n.Name && len(node.Lhs) == len(node.Rhs) {
+				value = node.Rhs[i]
+			}
+		}
+		if call, ok := value.(*ast.CallExpr); ok {
 			if clean := r.clean.ContainsPkgCallExpr(call, c, false); clean != nil {
 				return true
 			}
@@ -84,7 +90,8 @@ func (r *readfile) trackFilepathClean(n ast.Node) {
 			// ident.Obj may be nil if the referenced declaration is in another file. It also may be incorrect.
 			// if it is nil, do not follow it.
 			if ident.Obj != nil {
-				r.cleanedVar[ident.Obj.Decl] = n
+				// The declaration may be shared by several variables.
+				r.cleanedVar[ident.Obj] = n
 			}
 		}
 	}
-- 
2.43.0


From 6a16c2b36718283aec1e3720529cc8c2a5861a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 16/84] fix: check every error result of a call and its own
 destination in the unhandled errors rule

---
 rules/errors.go | 53 ++++++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/rules/errors.go b/rules/errors.go
index 2786426..eee1b43 100644
--- a/rules/errors.go
+++ b/rules/errors.go
@@ -31,23 +31,22 @@ func (r *noErrorCheck) ID() string {
 	return r.MetaData.ID
 }
 
-func returnsError(callExpr *ast.CallExpr, ctx *gosec.Context) int {
-	if tv := ctx.Info.TypeOf(callExpr); tv != nil {
-		switch t := tv.(type) {
-		case *types.Tuple:
-			for pos := 0; pos < t.Len(); pos++ {
-				variable := t.At(pos)
-				if variable != nil && variable.Type().String() == "error" {
-					return pos
-				}
-			}
-		case *types.Named:
-			if t.String() == "error" {
-				return 0
+// errorResults gives the positions of the results of the call which have type error.
+func errorResults(callExpr *ast.CallExpr, ctx *gosec.Context) []int {
+	var positions []int
+	switch t := types.Unalias(ctx.Info.TypeOf(callExpr)).(type) {
+	case *types.Tuple:
+		for pos := 0; pos < t.Len(); pos++ {
+			if types.Unalias(t.At(pos).Type()).String() == "error" {
+				positions = append(positions, pos)
 			}
 		}
+	case *types.Named:
+		if t.String() == "error" {
+			positions = append(positions, 0)
+		}
 	}
-	return -1
+	return positions
 }
 
 func (r *noErrorCheck) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
@@ -55,22 +54,26 @@ func (r *noErrorCheck) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, erro
 	case *ast.AssignStmt:
 		cfg := ctx.Config
 		if enabled, err := cfg.IsGlobalEnabled(gosec.Audit); err == nil && enabled {
-			for _, expr := range stmt.Rhs {
-				if callExpr, ok := expr.(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(expr, ctx) == nil {
-					pos := returnsError(callExpr, ctx)
-					if pos < 0 || pos >= len(stmt.Lhs) {
-						return nil, nil
-					}
-					if id, ok := stmt.Lhs[pos].(*ast.Ident); ok && id.Name == "_" {
-						return ctx.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
+			for i, expr := range stmt.Rhs {
+				if callExpr, ok := ast.Unparen(expr).(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(callExpr, ctx) == nil {
+					for _, pos := range errorResults(callExpr, ctx) {
+						if len(stmt.Rhs) > 1 {
+							// each value has its own destination
+							pos = i
+						}
+						if pos >= len(stmt.Lhs) {
+							continue
+						}
+						if id, ok := stmt.Lhs[pos].(*ast.Ident); ok && id.Name == "_" {
+							return ctx.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
+						}
 					}
 				}
 			}
 		}
 	case *ast.ExprStmt:
-		if callExpr, ok := stmt.X.(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(stmt.X, ctx) == nil {
-			pos := returnsError(callExpr, ctx)
-			if pos >= 0 {
+		if callExpr, ok := ast.Unparen(stmt.X).(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(callExpr, ctx) == nil {
+			if len(errorResults(callExpr, ctx)) > 0 {
 				return ctx.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
 			}
 		}
-- 
2.43.0


From 8b3202909853ecd6814742c1fba017bde3d3328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 17/84] fix: apply the list of ignorable errors to packages
 imported under another name

---
 rules/errors.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/rules/errors.go b/rules/errors.go
index eee1b43..7772b17 100644
--- a/rules/errors.go
+++ b/rules/errors.go
@@ -49,13 +49,29 @@ func errorResults(callExpr *ast.CallExpr, ctx *gosec.Context) []int {
 	return positions
 }
 
+// isAllowed tells whether the errors of the called function may be ignored. The list
+// holds package names, which the file may import under a different name.
+func (r *noErrorCheck) isAllowed(callExpr *ast.CallExpr, ctx *gosec.Context) bool {
+	if r.whitelist.ContainsCallExpr(callExpr, ctx) != nil {
+		return true
+	}
+	if fn, ok := callExpr.Fun.(*ast.SelectorExpr); ok {
+		if ident, ok := fn.X.(*ast.Ident); ok {
+			if pkg, ok := ctx.Info.ObjectOf(ident).(*types.PkgName); ok {
+				return r.whitelist.Contains(pkg.Imported().Name(), fn.Sel.Name)
+			}
+		}
+	}
+	return false
+}
+
 func (r *noErrorCheck) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
 	switch stmt := n.(type) {
 	case *ast.AssignStmt:
 		cfg := ctx.Config
 		if enabled, err := cfg.IsGlobalEnabled(gosec.Audit); err == nil && enabled {
 			for i, expr := range stmt.Rhs {
-				if callExpr, ok := ast.Unparen(expr).(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(callExpr, ctx) == nil {
+				if callExpr, ok := ast.Unparen(expr).(*ast.CallExpr); ok && !r.isAllowed(callExpr, ctx) {
 					for _, pos := range errorResults(callExpr, ctx) {
 						if len(stmt.Rhs) > 1 {
 							// each value has its own destination
@@ -72,7 +88,7 @@ func (r *noErrorCheck) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, erro
 			}
 		}
 	case *ast.ExprStmt:
-		if callExpr, ok := ast.Unparen(stmt.X).(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(callExpr, ctx) == nil {
+		if callExpr, ok := ast.Unparen(stmt.X).(*ast.CallExpr); ok && !r.isAllowed(callExpr, ctx) {
 			if len(errorResults(callExpr, ctx)) > 0 {
 				return ctx.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
 			}
-- 
2.43.0


From dd96efc1dec7b76f29aaaea136553a7e8be955ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 18/84] fix: do not report nonces filled from crypto/rand as
 hardcoded

---
 analyzers/hardcoded_nonce.go | 61 +++++++++++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 7 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index c9c5395..3ed9828 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -83,6 +83,9 @@ func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Fu
 	var issues []*issue.Issue
 	switch valType := (val).(type) {
 	case *ssa.Slice:
+		if isFilledFromCryptoRand(valType) {
+			return nil, nil
+		}
 		issueDescription += " by passing hardcoded slice/array"
 		issues, err = iterateThroughReferrers(val, funcsToTrack, pass.Analyzer.Name, issueDescription, pass.Fset, issue.High)
 		allIssues = append(allIssues, issues...)
@@ -177,19 +180,63 @@ func iterateThroughReferrers(variable ssa.Value, funcsToTrack map[string][]int,
 	return gosecIssues, nil
 }
 
-// isFuncContainsCryptoRand checks whether a function contains a call to crypto/rand.Read in it's function body.
+// isFilledFromCryptoRand checks whether the slice, or another slice of the same array, is filled from crypto/rand.
+func isFilledFromCryptoRand(slice *ssa.Slice) bool {
+	slices := []ssa.Value{slice}
+	if refs := slice.X.Referrers(); refs != nil {
+		for _, ref := range *refs {
+			if other, ok := ref.(*ssa.Slice); ok {
+				slices = append(slices, other)
+			}
+		}
+	}
+	for _, value := range slices {
+		for _, ref := range *value.Referrers() {
+			if call, ok := ref.(*ssa.Call); ok && readsCryptoRand(call.Common()) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
+// readsCryptoRand checks whether the call is crypto/rand.Read or reads from crypto/rand.Reader.
+func readsCryptoRand(call *ssa.CallCommon) bool {
+	if call.IsInvoke() {
+		return call.Method.Name() == "Read" && isCryptoRandReader(call.Value)
+	}
+	callee := call.StaticCallee()
+	if callee == nil || callee.Pkg == nil {
+		return false
+	}
+	switch callee.Pkg.Pkg.Path() + "." + callee.Name() {
+	case "crypto/rand.Read":
+		return true
+	case "io.ReadFull", "io.ReadAtLeast":
+		return isCryptoRandReader(call.Args[0])
+	}
+	return false
+}
+
+// isCryptoRandReader checks whether the value is crypto/rand.Reader.
+func isCryptoRandReader(value ssa.Value) bool {
+	load, ok := value.(*ssa.UnOp)
+	if !ok || load.Op != token.MUL {
+		return false
+	}
+	global, ok := load.X.(*ssa.Global)
+	return ok && global.Pkg != nil && global.Pkg.Pkg.Path() == "crypto/rand" && global.Name() == "Reader"
+}
+
+// isFuncContainsCryptoRand checks whether a function reads from crypto/rand in it's function body.
 func isFuncContainsCryptoRand(funcCall *ssa.Function) (bool, error) {
 	if funcCall == nil {
 		return false, errors.New("passed ssa.Function object is nil")
 	}
 	for _, block := range funcCall.Blocks {
 		for _, instr := range block.Instrs {
-			if call, ok := instr.(*ssa.Call); ok {
-				if calledFunction, ok := call.Call.Value.(*ssa.Function); ok {
-					if calledFunction.Pkg != nil && calledFunction.Pkg.Pkg.Path() == "crypto/rand" && calledFunction.Name() == "Read" {
-						return true, nil
-					}
-				}
+			if call, ok := instr.(*ssa.Call); ok && readsCryptoRand(call.Common()) {
+				return true, nil
 			}
 		}
 	}
-- 
2.43.0


From 895201639dc6044ef48d7551b248c94b2ddca556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 19/84] fix: do not crash on constant nonces such as nil

---
 analyzers/hardcoded_nonce.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index 3ed9828..7c48695 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -243,14 +243,21 @@ func isFuncContainsCryptoRand(funcCall *ssa.Function) (bool, error) {
 	return false, nil
 }
 
+func varsMapKey(value ssa.Value) string {
+	key := value.Name() + value.Type().String() + value.String()
+	// constants and globals have no parent function
+	if parent := value.Parent(); parent != nil {
+		key += parent.String()
+	}
+	return key
+}
+
 func addToVarsMap(value ssa.Value, mapToAddTo map[string]*ssa.Value) {
-	key := value.Name() + value.Type().String() + value.String() + value.Parent().String()
-	mapToAddTo[key] = &value
+	mapToAddTo[varsMapKey(value)] = &value
 }
 
 func isContainedInMap(value ssa.Value, mapToCheck map[string]*ssa.Value) bool {
-	key := value.Name() + value.Type().String() + value.String() + value.Parent().String()
-	_, contained := mapToCheck[key]
+	_, contained := mapToCheck[varsMapKey(value)]
 	return contained
 }
 
-- 
2.43.0


From e65e9df7a3a323a2ee7c34a97df5077a185727ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 20/84] fix: do not recurse forever on nonce parameters of
 recursive functions

---
 analyzers/hardcoded_nonce.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index 7c48695..1786c1b 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -63,7 +63,7 @@ func runHardCodedNonce(pass *analysis.Pass) (interface{}, error) {
 		if arg == nil {
 			continue
 		}
-		i, err := raiseIssue(*arg, calls, ssaPkgFunctions, pass, "")
+		i, err := raiseIssue(*arg, calls, ssaPkgFunctions, pass, "", map[ssa.Value]bool{})
 		if err != nil {
 			return issues, fmt.Errorf("raising issue error: %w", err)
 		}
@@ -73,7 +73,7 @@ func runHardCodedNonce(pass *analysis.Pass) (interface{}, error) {
 }
 
 func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Function,
-	pass *analysis.Pass, issueDescription string,
+	pass *analysis.Pass, issueDescription string, visitedParams map[ssa.Value]bool,
 ) ([]*issue.Issue, error) {
 	if issueDescription == "" {
 		issueDescription = defaultIssueDescription
@@ -127,7 +127,9 @@ func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Fu
 		// }
 		// save parameter position, by checking the name of the variable used in
 		// tracked functions and comparing it with the name of the arg
-		if valType.Parent() != nil {
+		// A recursive function may pass on its own parameter.
+		if valType.Parent() != nil && !visitedParams[valType] {
+			visitedParams[valType] = true
 			trackedFunctions := make(map[string][]int)
 			for index, funcArgs := range valType.Parent().Params {
 				if funcArgs.Name() == valType.Name() && funcArgs.Type() == valType.Type() {
@@ -142,7 +144,7 @@ func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Fu
 				if arg == nil {
 					continue
 				}
-				issues, err = raiseIssue(*arg, trackedFunctions, ssaFuncs, pass, issueDescription)
+				issues, err = raiseIssue(*arg, trackedFunctions, ssaFuncs, pass, issueDescription, visitedParams)
 				allIssues = append(allIssues, issues...)
 			}
 		}
-- 
2.43.0


From b6bbb6413c52a98c842602dafcf38611a849c415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 21/84] fix: check HTTP servers in literals of elided or alias
 type for slowloris

---
 rules/slowloris.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules/slowloris.go b/rules/slowloris.go
index 70db73f..1db84bd 100644
--- a/rules/slowloris.go
+++ b/rules/slowloris.go
@@ -48,7 +48,7 @@ func containsReadHeaderTimeout(node *ast.CompositeLit) bool {
 func (r *slowloris) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
 	switch node := n.(type) {
 	case *ast.CompositeLit:
-		actualType := ctx.Info.TypeOf(node.Type)
+		actualType := literalType(node, ctx)
 		if actualType != nil && actualType.String() == "net/http.Server" {
 			if !containsReadHeaderTimeout(node) {
 				return ctx.NewIssue(node, r.ID(), r.What, r.Severity, r.Confidence), nil
-- 
2.43.0


From 9dec4eb56f404098868153f10a7f5f86e2e7fae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 22/84] fix: identify variables by their type information in
 the Atoi and decompression rules

---
 rules/decompression-bomb.go | 23 +++++++++++++----------
 rules/integer_overflow.go   | 17 ++++++++++-------
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/rules/decompression-bomb.go b/rules/decompression-bomb.go
index 7e57f1a..dcd9bf1 100644
--- a/rules/decompression-bomb.go
+++ b/rules/decompression-bomb.go
@@ -17,6 +17,7 @@ package rules
 import (
 	"fmt"
 	"go/ast"
+	"go/types"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -42,36 +43,38 @@ func containsReaderCall(node ast.Node, ctx *gosec.Context, list gosec.CallList)
 }
 
 func (d *decompressionBombCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
-	var readerVarObj map[*ast.Object]struct{}
+	var readerVarObj map[types.Object]struct{}
 
 	// To check multiple lines, ctx.PassedValues is used to store temporary data.
 	if _, ok := ctx.PassedValues[d.ID()]; !ok {
-		readerVarObj = make(map[*ast.Object]struct{})
+		readerVarObj = make(map[types.Object]struct{})
 		ctx.PassedValues[d.ID()] = readerVarObj
-	} else if pv, ok := ctx.PassedValues[d.ID()].(map[*ast.Object]struct{}); ok {
+	} else if pv, ok := ctx.PassedValues[d.ID()].(map[types.Object]struct{}); ok {
 		readerVarObj = pv
 	} else {
-		return nil, fmt.Errorf("PassedValues[%s] of Context is not map[*ast.Object]struct{}, but %T", d.ID(), ctx.PassedValues[d.ID()])
+		return nil, fmt.Errorf("PassedValues[%s] of Context is not map[types.Object]struct{}, but %T", d.ID(), ctx.PassedValues[d.ID()])
 	}
 
 	// io.Copy is a common function.
 	// To reduce false positives, This rule detects code which is used for compressed data only.
 	switch n := node.(type) {
 	case *ast.AssignStmt:
-		for _, expr := range n.Rhs {
-			if callExpr, ok := expr.(*ast.CallExpr); ok && containsReaderCall(callExpr, ctx, d.readerCalls) {
-				if idt, ok := n.Lhs[0].(*ast.Ident); ok && idt.Name != "_" {
+		for i, expr := range n.Rhs {
+			if callExpr, ok := expr.(*ast.CallExpr); ok && i < len(n.Lhs) && containsReaderCall(callExpr, ctx, d.readerCalls) {
+				if idt, ok := n.Lhs[i].(*ast.Ident); ok && idt.Name != "_" {
 					// Example:
 					//  r, _ := zlib.NewReader(buf)
 					//  Add r's Obj to readerVarObj map
-					readerVarObj[idt.Obj] = struct{}{}
+					if obj := ctx.Info.ObjectOf(idt); obj != nil {
+						readerVarObj[obj] = struct{}{}
+					}
 				}
 			}
 		}
 	case *ast.CallExpr:
-		if d.copyCalls.ContainsPkgCallExpr(n, ctx, false) != nil {
+		if d.copyCalls.ContainsPkgCallExpr(n, ctx, false) != nil && len(n.Args) > 1 {
 			if idt, ok := n.Args[1].(*ast.Ident); ok {
-				if _, ok := readerVarObj[idt.Obj]; ok {
+				if _, ok := readerVarObj[ctx.Info.ObjectOf(idt)]; ok {
 					// Detect io.Copy(x, r)
 					return ctx.NewIssue(n, d.ID(), d.What, d.Severity, d.Confidence), nil
 				}
diff --git a/rules/integer_overflow.go b/rules/integer_overflow.go
index 1d57906..209c21d 100644
--- a/rules/integer_overflow.go
+++ b/rules/integer_overflow.go
@@ -17,6 +17,7 @@ package rules
 import (
 	"fmt"
 	"go/ast"
+	"go/types"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -32,16 +33,16 @@ func (i *integerOverflowCheck) ID() string {
 }
 
 func (i *integerOverflowCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
-	var atoiVarObj map[*ast.Object]ast.Node
+	var atoiVarObj map[types.Object]ast.Node
 
 	// To check multiple lines, ctx.PassedValues is used to store temporary data.
 	if _, ok := ctx.PassedValues[i.ID()]; !ok {
-		atoiVarObj = make(map[*ast.Object]ast.Node)
+		atoiVarObj = make(map[types.Object]ast.Node)
 		ctx.PassedValues[i.ID()] = atoiVarObj
-	} else if pv, ok := ctx.PassedValues[i.ID()].(map[*ast.Object]ast.Node); ok {
+	} else if pv, ok := ctx.PassedValues[i.ID()].(map[types.Object]ast.Node); ok {
 		atoiVarObj = pv
 	} else {
-		return nil, fmt.Errorf("PassedValues[%s] of Context is not map[*ast.Object]ast.Node, but %T", i.ID(), ctx.PassedValues[i.ID()])
+		return nil, fmt.Errorf("PassedValues[%s] of Context is not map[types.Object]ast.Node, but %T", i.ID(), ctx.PassedValues[i.ID()])
 	}
 
 	// strconv.Atoi is a common function.
@@ -54,15 +55,17 @@ func (i *integerOverflowCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.
 					// Example:
 					//  v, _ := strconv.Atoi("1111")
 					// Add v's Obj to atoiVarObj map
-					atoiVarObj[idt.Obj] = n
+					if obj := ctx.Info.ObjectOf(idt); obj != nil {
+						atoiVarObj[obj] = n
+					}
 				}
 			}
 		}
 	case *ast.CallExpr:
 		if fun, ok := n.Fun.(*ast.Ident); ok {
-			if fun.Name == "int32" || fun.Name == "int16" {
+			if (fun.Name == "int32" || fun.Name == "int16") && len(n.Args) > 0 {
 				if idt, ok := n.Args[0].(*ast.Ident); ok {
-					if _, ok := atoiVarObj[idt.Obj]; ok {
+					if _, ok := atoiVarObj[ctx.Info.ObjectOf(idt)]; ok {
 						// Detect int32(v) and int16(v)
 						return ctx.NewIssue(n, i.ID(), i.What, i.Severity, i.Confidence), nil
 					}
-- 
2.43.0


From dba590b931d15a264582cd9dc861183cb0e750d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 23/84] fix: do not crash on calls without arguments in the
 temporary file rule

---
 rules/tempfiles.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rules/tempfiles.go b/rules/tempfiles.go
index 6fef52a..29f5bab 100644
--- a/rules/tempfiles.go
+++ b/rules/tempfiles.go
@@ -50,14 +50,14 @@ func (t *badTempFile) findTempDirArgs(n ast.Node, c *gosec.Context, suspect ast.
 		}
 		return nil
 	}
-	if ce := t.nestedCalls.ContainsPkgCallExpr(suspect, c, false); ce != nil {
+	if ce := t.nestedCalls.ContainsPkgCallExpr(suspect, c, false); ce != nil && len(ce.Args) > 0 {
 		return t.findTempDirArgs(n, c, ce.Args[0])
 	}
 	return nil
 }
 
 func (t *badTempFile) Match(n ast.Node, c *gosec.Context) (gi *issue.Issue, err error) {
-	if node := t.calls.ContainsPkgCallExpr(n, c, false); node != nil {
+	if node := t.calls.ContainsPkgCallExpr(n, c, false); node != nil && len(node.Args) > 0 {
 		return t.findTempDirArgs(n, c, node.Args[0]), nil
 	}
 	return nil, nil
-- 
2.43.0


From 5df424de94bbf89ad92116b6ecdef24325ad3c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 24/84] fix: look at the value of the joined variable itself in
 the archive rule

---
 rules/archive.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rules/archive.go b/rules/archive.go
index 9870474..f24c8f6 100644
--- a/rules/archive.go
+++ b/rules/archive.go
@@ -29,7 +29,13 @@ func (a *archive) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 				if ident.Obj != nil && ident.Obj.Kind == ast.Var {
 					decl := ident.Obj.Decl
 					if assign, ok := decl.(*ast.AssignStmt); ok {
-						if selector, ok := assign.Rhs[0].(*ast.SelectorExpr); ok {
+						value := assign.Rhs[0]
+						for i, lhs := range assign.Lhs {
+							if name, ok := lhs.(*ast.Ident); ok && name.Name == ident.Name && len(assign.Lhs) == len(assign.Rhs) {
+								value = assign.Rhs[i]
+							}
+						}
+						if selector, ok := value.(*ast.SelectorExpr); ok {
 							argType = c.Info.TypeOf(selector.X)
 						}
 					}
-- 
2.43.0


From bd650ba18d32f039c146151c4df13ae7bdef7077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 25/84] fix: report the served root directory whatever the
 import name and string notation

---
 rules/directory-traversal.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/rules/directory-traversal.go b/rules/directory-traversal.go
index 47bcb2d..914d42f 100644
--- a/rules/directory-traversal.go
+++ b/rules/directory-traversal.go
@@ -2,7 +2,9 @@ package rules
 
 import (
 	"go/ast"
+	"go/types"
 	"regexp"
+	"strconv"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -30,8 +32,18 @@ func (r *traversal) matchCallExpr(assign *ast.CallExpr, ctx *gosec.Context) (*is
 		if basiclit, ok1 := i.(*ast.BasicLit); ok1 {
 			if fun, ok2 := assign.Fun.(*ast.SelectorExpr); ok2 {
 				if x, ok3 := fun.X.(*ast.Ident); ok3 {
-					str := x.Name + "." + fun.Sel.Name + "(" + basiclit.Value + ")"
-					if r.pattern.MatchString(str) {
+					name, value := x.Name, basiclit.Value
+					if r.pattern.MatchString(name + "." + fun.Sel.Name + "(" + value + ")") {
+						return ctx.NewIssue(assign, r.ID(), r.What, r.Severity, r.Confidence), nil
+					}
+					// the same call with the name of the package instead of an alias and an interpreted string
+					if pkg, ok := ctx.Info.ObjectOf(x).(*types.PkgName); ok {
+						name = pkg.Imported().Name()
+					}
+					if s, err := gosec.GetString(basiclit); err == nil {
+						value = strconv.Quote(s)
+					}
+					if r.pattern.MatchString(name + "." + fun.Sel.Name + "(" + value + ")") {
 						return ctx.NewIssue(assign, r.ID(), r.What, r.Severity, r.Confidence), nil
 					}
 				}
-- 
2.43.0


From 8888bdf1b2c99da286ae2345f8afddc3200c5fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 26/84] fix: let every suppression comment act on exactly the
 lines it annotates

---
 analyzer.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 34ac82b..f50d351 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -94,7 +94,7 @@ func (i ignores) add(file string, line string, suppressions map[string]issue.Sup
 	found := false
 	start, end := i.parseLine(line)
 	for _, ig := range is {
-		if ig.start <= start && ig.end >= end {
+		if ig.start == start && ig.end == end {
 			found = true
 			for r, s := range suppressions {
 				ss, ok := ig.suppressions[r]
@@ -123,14 +123,17 @@ func (i ignores) add(file string, line string, suppressions map[string]issue.Sup
 
 func (i ignores) get(file string, line string) map[string][]issue.SuppressionInfo {
 	start, end := i.parseLine(line)
+	suppressions := map[string][]issue.SuppressionInfo{}
 	if is, ok := i[file]; ok {
 		for _, i := range is {
 			if i.start <= start && i.end >= end || start <= i.start && end >= i.end {
-				return i.suppressions
+				for r, s := range i.suppressions {
+					suppressions[r] = append(suppressions[r], s...)
+				}
 			}
 		}
 	}
-	return map[string][]issue.SuppressionInfo{}
+	return suppressions
 }
 
 // The Context is populated with data parsed from the source code as it is scanned.
-- 
2.43.0


From 79cc15e85b1582c9e2dc47e049f5497e4b873c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 27/84] fix: record suppressions in source order and once per
 check of a file

---
 analyzer.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index f50d351..9f8d597 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -28,6 +28,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -680,7 +681,18 @@ func (gosec *Analyzer) Visit(n ast.Node) ast.Visitor {
 }
 
 func (gosec *Analyzer) updateIgnores() {
+	// A file which is checked again (e.g. as part of a test variant of its package) starts afresh.
+	delete(gosec.context.Ignores, gosec.context.FileSet.File(gosec.context.Root.Pos()).Name())
+
+	nodes := make([]ast.Node, 0, len(gosec.context.Comments))
 	for n := range gosec.context.Comments {
+		nodes = append(nodes, n)
+	}
+	// Visit the comments in source order to keep the order of the suppressions stable.
+	sort.Slice(nodes, func(i, j int) bool {
+		return gosec.context.Comments[nodes[i]][0].Pos() < gosec.context.Comments[nodes[j]][0].Pos()
+	})
+	for _, n := range nodes {
 		gosec.updateIgnoredRulesForNode(n)
 	}
 }
-- 
2.43.0


From 7fee6d20065e32df8447661f334104449f62ceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 28/84] fix: honour every suppression comment of a node

---
 analyzer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 9f8d597..588e404 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -564,7 +564,7 @@ func (gosec *Analyzer) AppendError(file string, err error) {
 }
 
 // ignore a node (and sub-tree) if it is tagged with a nosec tag comment
-func (gosec *Analyzer) ignore(n ast.Node) map[string]issue.SuppressionInfo {
+func (gosec *Analyzer) ignore(n ast.Node) []map[string]issue.SuppressionInfo {
 	if gosec.ignoreNosec {
 		return nil
 	}
@@ -587,6 +587,7 @@ func (gosec *Analyzer) ignore(n ast.Node) map[string]issue.SuppressionInfo {
 		noSecAlternativeTag = NoSecTag(noSecAlternativeTag)
 	}
 
+	var ignored []map[string]issue.SuppressionInfo
 	for _, group := range groups {
 		found, args := findNoSecDirective(group, noSecDefaultTag, noSecAlternativeTag)
 		if !found {
@@ -622,9 +623,9 @@ func (gosec *Analyzer) ignore(n ast.Node) map[string]issue.SuppressionInfo {
 		if len(matches) == 0 {
 			ignores[aliasOfAllRules] = suppression
 		}
-		return ignores
+		ignored = append(ignored, ignores)
 	}
-	return nil
+	return ignored
 }
 
 // findNoSecDirective checks if the comment group contains `#nosec` or `//gosec:disable` directive.
@@ -698,8 +699,7 @@ func (gosec *Analyzer) updateIgnores() {
 }
 
 func (gosec *Analyzer) updateIgnoredRulesForNode(n ast.Node) {
-	ignoredRules := gosec.ignore(n)
-	if len(ignoredRules) > 0 {
+	for _, ignoredRules := range gosec.ignore(n) {
 		if gosec.context.Ignores == nil {
 			gosec.context.Ignores = newIgnores()
 		}
-- 
2.43.0


From c7c2bc8db9a985b056cd582f49a02304a92f3927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 29/84] fix: suppress only the last declaration or statement
 with a comment behind it

---
 analyzer.go | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 588e404..4db2039 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -399,7 +399,7 @@ func (gosec *Analyzer) CheckRules(pkg *packages.Package) {
 		gosec.logger.Println("Checking file:", checkedFile)
 		gosec.context.FileSet = pkg.Fset
 		gosec.context.Config = gosec.config
-		gosec.context.Comments = ast.NewCommentMap(gosec.context.FileSet, file, file.Comments)
+		gosec.context.Comments = newCommentMap(gosec.context.FileSet, file)
 		gosec.context.Root = file
 		gosec.context.Info = pkg.TypesInfo
 		gosec.context.Pkg = pkg.Types
@@ -681,6 +681,43 @@ func (gosec *Analyzer) Visit(n ast.Node) ast.Visitor {
 	return gosec
 }
 
+// newCommentMap associates the comments of the file with its nodes. A comment behind a node without an end of its own,
+// such as the file itself or a case clause, belongs to the last element of this node only.
+func newCommentMap(fset *token.FileSet, file *ast.File) ast.CommentMap {
+	comments := ast.CommentMap{}
+	for n, groups := range ast.NewCommentMap(fset, file, file.Comments) {
+		for _, group := range groups {
+			last := n
+			if group.Pos() >= n.End() {
+				last = lastElement(n)
+			}
+			comments[last] = append(comments[last], group)
+		}
+	}
+	return comments
+}
+
+// lastElement descends into the last element of nodes which end with this element.
+func lastElement(n ast.Node) ast.Node {
+	switch t := n.(type) {
+	case *ast.File:
+		if len(t.Decls) > 0 {
+			return lastElement(t.Decls[len(t.Decls)-1])
+		}
+	case *ast.CaseClause:
+		if len(t.Body) > 0 {
+			return lastElement(t.Body[len(t.Body)-1])
+		}
+	case *ast.CommClause:
+		if len(t.Body) > 0 {
+			return lastElement(t.Body[len(t.Body)-1])
+		}
+	case *ast.LabeledStmt:
+		return lastElement(t.Stmt)
+	}
+	return n
+}
+
 func (gosec *Analyzer) updateIgnores() {
 	// A file which is checked again (e.g. as part of a test variant of its package) starts afresh.
 	delete(gosec.context.Ignores, gosec.context.FileSet.File(gosec.context.Root.Pos()).Name())
-- 
2.43.0


From bbb4970a023df06fa7cbc1e105ddadd2763bdc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 30/84] fix: accept the alternative nosec tag with its leading
 hash sign as documented

---
 config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index fc355d8..65cfd85 100644
--- a/config.go
+++ b/config.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"strings"
 )
 
 const (
@@ -35,7 +36,7 @@ const (
 
 // NoSecTag returns the tag used to disable gosec for a line of code.
 func NoSecTag(tag string) string {
-	return fmt.Sprintf("%s%s", "#", tag)
+	return fmt.Sprintf("%s%s", "#", strings.TrimPrefix(tag, "#"))
 }
 
 // Config is used to provide configuration and customization to each of the rules.
-- 
2.43.0


From c15a4e352d08e30c3abd0c1e6b4820671f1a7eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:01 +0000
Subject: [PATCH 31/84] fix: keep honouring #nosec when the nosec option is
 explicitly disabled

---
 analyzer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 4db2039..6e58c59 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -575,7 +575,7 @@ func (gosec *Analyzer) ignore(n ast.Node) []map[string]issue.SuppressionInfo {
 
 	// Checks if an alternative for #nosec is set and, if not, uses the default.
 	noSecDefaultTag, err := gosec.config.GetGlobal(Nosec)
-	if err != nil {
+	if err != nil || noSecDefaultTag == "false" || noSecDefaultTag == "disabled" {
 		noSecDefaultTag = NoSecTag(string(Nosec))
 	} else {
 		noSecDefaultTag = NoSecTag(noSecDefaultTag)
-- 
2.43.0


From 4868015c8f01c4cd2ace2375648df3fbec652e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 32/84] fix: keep the comments of a node in source order

---
 analyzer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index 6e58c59..ce1f646 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -694,6 +694,9 @@ func newCommentMap(fset *token.FileSet, file *ast.File) ast.CommentMap {
 			comments[last] = append(comments[last], group)
 		}
 	}
+	for _, groups := range comments {
+		sort.Slice(groups, func(i, j int) bool { return groups[i].Pos() < groups[j].Pos() })
+	}
 	return comments
 }
 
-- 
2.43.0


From e380ba4a17716261fb833d7b130babf7a25a8a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 33/84] fix: take the nosec tag literally instead of as a
 regular expression

---
 analyzer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index ce1f646..5e1036c 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -652,7 +652,7 @@ func findNoSecDirective(group *ast.CommentGroup, noSecDefaultTag, noSecAlternati
 func findNoSecTag(group *ast.CommentGroup, tag string) (bool, string) {
 	comment := strings.TrimSpace(group.Text())
 
-	if strings.HasPrefix(comment, tag) || regexp.MustCompile("\n *"+tag).MatchString(comment) {
+	if strings.HasPrefix(comment, tag) || regexp.MustCompile("\n *"+regexp.QuoteMeta(tag)).MatchString(comment) {
 		// Discard what's in front of the nosec tag.
 		return true, strings.SplitN(comment, tag, 2)[1]
 	}
-- 
2.43.0


From fc00b842c6df55ab1ae590b9532a1fa3954e1d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 34/84] fix: report errors and fail on them in quiet mode even
 without issues

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 2753ea4..03fc1a0 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -494,7 +494,7 @@ func main() {
 	}
 
 	// Exit quietly if nothing was found
-	if len(issues) == 0 && *flagQuiet {
+	if len(issues) == 0 && len(errors) == 0 && *flagQuiet {
 		os.Exit(0)
 	}
 
-- 
2.43.0


From d5b0b6af05ab526f3d7eda6478608265bc194a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 35/84] fix: do not fail because of ignored issues which are
 only shown

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 03fc1a0..b990d29 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -348,7 +348,7 @@ func filterIssues(issues []*issue.Issue, severity issue.Score, confidence issue.
 func exit(issues []*issue.Issue, errors map[string][]gosec.Error, noFail bool) {
 	nsi := 0
 	for _, issue := range issues {
-		if len(issue.Suppressions) == 0 {
+		if !issue.NoSec && len(issue.Suppressions) == 0 {
 			nsi++
 		}
 	}
-- 
2.43.0


From 87fdcd82911caa137a57c06ca8e0a296958f850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 36/84] fix: use the AI API key given on the command line when
 the environment has none

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index b990d29..12f4e11 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -505,7 +505,7 @@ func main() {
 
 	// Call AI request to solve the issues
 	aiAPIKey := os.Getenv(aiAPIKeyEnv)
-	if aiAPIKeyEnv == "" {
+	if aiAPIKey == "" {
 		aiAPIKey = *flagAiAPIKey
 	}
 	if *flagAiAPIProvider != "" && aiAPIKey != "" {
-- 
2.43.0


From 4f3a1623b280773e0955dc5a5a93461e7a983104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 37/84] fix: scan with one worker when the concurrency is not
 positive

---
 analyzer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 5e1036c..186c41e 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -298,7 +298,7 @@ func (gosec *Analyzer) Process(buildTags []string, packagePaths ...string) error
 		jobs <- pkgPath
 	}
 
-	for i := 0; i < gosec.concurrency; i++ {
+	for i := 0; i < max(gosec.concurrency, 1); i++ {
 		wg.Add(1)
 		go worker(jobs, results, quit)
 	}
-- 
2.43.0


From e31d1a17c0eafe766cd4803f64170019b5c02872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 38/84] fix: keep suppressed issues for the reports written
 after one without them

---
 report/formatter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/report/formatter.go b/report/formatter.go
index 3e83dc6..fcc3afb 100644
--- a/report/formatter.go
+++ b/report/formatter.go
@@ -55,7 +55,10 @@ const (
 func CreateReport(w io.Writer, format string, enableColor bool, rootPaths []string, data *gosec.ReportInfo) error {
 	var err error
 	if format != "json" && format != "sarif" {
-		data.Issues = filterOutSuppressedIssues(data.Issues)
+		// Work on a copy because the same data may be reported in another format as well.
+		filtered := *data
+		filtered.Issues = filterOutSuppressedIssues(data.Issues)
+		data = &filtered
 	}
 	switch format {
 	case "json":
-- 
2.43.0


From a2da6128a0fa0eaf7aa4d1856937671696865771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 39/84] fix: order issues of the same line completely so that
 reports are reproducible

---
 cmd/gosec/sort_issues.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/gosec/sort_issues.go b/cmd/gosec/sort_issues.go
index c155cbf..bb08185 100644
--- a/cmd/gosec/sort_issues.go
+++ b/cmd/gosec/sort_issues.go
@@ -23,6 +23,10 @@ func sortIssues(issues []*issue.Issue) {
 			cmp.Compare(i.What, j.What),
 			cmp.Compare(i.File, j.File),
 			cmp.Compare(extractLineNumber(i.Line), extractLineNumber(j.Line)),
+			cmp.Compare(extractLineNumber(i.Col), extractLineNumber(j.Col)),
+			cmp.Compare(i.RuleID, j.RuleID),
+			cmp.Compare(i.Line, j.Line),
+			cmp.Compare(i.Confidence, j.Confidence),
 		)
 	})
 }
-- 
2.43.0


From c50f940009eeb82457141eb8c71795bd062e5987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 40/84] fix: apply the build tags to every package and its
 dependencies

---
 analyzer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 186c41e..cb78bcb 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -365,11 +365,15 @@ func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.
 		}
 	}
 
-	// step 3/3 remove build tags from conf to proceed build correctly.
+	// step 3/3 pass the build tags as a build flag to proceed build correctly.
 	gosec.mu.Lock()
-	conf.BuildFlags = nil
 	defer gosec.mu.Unlock()
-	pkgs, err := packages.Load(conf, packageFiles...)
+	loadConf := *conf
+	loadConf.BuildFlags = nil
+	if len(buildD.BuildTags) > 0 {
+		loadConf.BuildFlags = []string{"-tags=" + strings.Join(buildD.BuildTags, ",")}
+	}
+	pkgs, err := packages.Load(&loadConf, packageFiles...)
 	if err != nil {
 		return []*packages.Package{}, fmt.Errorf("loading files from package %q: %w", pkgPath, err)
 	}
-- 
2.43.0


From 8d907e9a58092b36aee0b0cb3ddf1f3bba843af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 41/84] fix: order errors of the same position so that reports
 are reproducible

---
 errors.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/errors.go b/errors.go
index 2f66727..e54a793 100644
--- a/errors.go
+++ b/errors.go
@@ -20,14 +20,17 @@ func NewError(line, column int, err string) *Error {
 	}
 }
 
-// sortErrors sorts the golang errors by line
+// sortErrors sorts the golang errors by line, column and message
 func sortErrors(allErrors map[string][]Error) {
 	for _, errors := range allErrors {
 		sort.Slice(errors, func(i, j int) bool {
-			if errors[i].Line == errors[j].Line {
-				return errors[i].Column <= errors[j].Column
+			if errors[i].Line != errors[j].Line {
+				return errors[i].Line < errors[j].Line
 			}
-			return errors[i].Line < errors[j].Line
+			if errors[i].Column != errors[j].Column {
+				return errors[i].Column < errors[j].Column
+			}
+			return errors[i].Err < errors[j].Err
 		})
 	}
 }
-- 
2.43.0


From 509221191a113cde19345efe62b15879c9913d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 42/84] fix: forget the loops of the previous file in the
 implicit aliasing rule

---
 rules/implicit_aliasing.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rules/implicit_aliasing.go b/rules/implicit_aliasing.go
index ee2358c..6cf6ce0 100644
--- a/rules/implicit_aliasing.go
+++ b/rules/implicit_aliasing.go
@@ -54,6 +54,11 @@ func (r *implicitAliasing) Match(n ast.Node, c *gosec.Context) (*issue.Issue, er
 	}
 
 	switch node := n.(type) {
+	case *ast.File:
+		// Positions and objects of another file mean nothing in this one.
+		r.aliases = make(map[*ast.Object]struct{})
+		r.rightBrace = token.NoPos
+		r.acceptableAlias = make([]*ast.UnaryExpr, 0)
 	case *ast.RangeStmt:
 		// When presented with a range statement, get the underlying Object bound to
 		// by assignment and add it to our set (r.aliases) of objects to check for.
@@ -129,7 +134,7 @@ func NewImplicitAliasing(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 			Confidence: issue.Medium,
 			What:       "Implicit memory aliasing in for loop.",
 		},
-	}, []ast.Node{(*ast.RangeStmt)(nil), (*ast.UnaryExpr)(nil), (*ast.ReturnStmt)(nil)}
+	}, []ast.Node{(*ast.File)(nil), (*ast.RangeStmt)(nil), (*ast.UnaryExpr)(nil), (*ast.ReturnStmt)(nil)}
 }
 
 /*
-- 
2.43.0


From 830b8bea0f0684506c6e52ea082ddf1ab34866f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:03 +0000
Subject: [PATCH 43/84] fix: clear the errors of earlier scans on reset

---
 analyzer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index cb78bcb..18f9357 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -799,11 +799,12 @@ func (gosec *Analyzer) Report() ([]*issue.Issue, *Metrics, map[string][]Error) {
 	return gosec.issues, gosec.stats, gosec.errors
 }
 
-// Reset clears state such as context, issues and metrics from the configured analyzer
+// Reset clears state such as context, issues, metrics and errors from the configured analyzer
 func (gosec *Analyzer) Reset() {
 	gosec.context = &Context{}
 	gosec.issues = make([]*issue.Issue, 0, 16)
 	gosec.stats = &Metrics{}
+	gosec.errors = make(map[string][]Error)
 	gosec.ruleset = NewRuleSet()
 	gosec.analyzerSet = analyzers.NewAnalyzerSet()
 }
-- 
2.43.0


From 674e7d8b5ca20040ffdece887b2a436cbe9e572d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 44/84] fix: scan the files of a package with tests only once

---
 analyzer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 18f9357..e5235f8 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -313,7 +313,7 @@ func (gosec *Analyzer) Process(buildTags []string, packagePaths ...string) error
 			gosec.AppendError(r.pkgPath, r.err)
 		}
 		for _, pkg := range r.pkgs {
-			if pkg.Name != "" {
+			if pkg.Name != "" && !hasTestVariant(pkg, r.pkgs) {
 				err := gosec.ParseErrors(pkg)
 				if err != nil {
 					close(quit)
@@ -329,6 +329,17 @@ func (gosec *Analyzer) Process(buildTags []string, packagePaths ...string) error
 	return nil
 }
 
+// hasTestVariant checks if there is a variant of the package which has been extended by its tests. The variant contains
+// also all files of the package itself.
+func hasTestVariant(pkg *packages.Package, pkgs []*packages.Package) bool {
+	for _, other := range pkgs {
+		if other.ID == pkg.ID+" ["+pkg.ID+".test]" {
+			return true
+		}
+	}
+	return false
+}
+
 func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.Package, error) {
 	abspath, err := GetPkgAbsPath(pkgPath)
 	if err != nil {
-- 
2.43.0


From 74ae17a2bd91fd28510f097279ad4cdc70cb35ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 45/84] fix: locate findings in the scanned file whatever its
 line directives say

---
 analyzers/util.go | 13 ++++++-------
 helpers.go        |  2 +-
 issue/issue.go    |  8 ++++----
 3 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/analyzers/util.go b/analyzers/util.go
index 57cc42b..91e05d1 100644
--- a/analyzers/util.go
+++ b/analyzers/util.go
@@ -66,14 +66,13 @@ func newIssue(analyzerID string, desc string, fileSet *token.FileSet,
 	if file == nil {
 		return &issue.Issue{}
 	}
-	line := file.Line(pos)
-	col := file.Position(pos).Column
+	position := file.PositionFor(pos, false)
 
 	return &issue.Issue{
 		RuleID:     analyzerID,
 		File:       file.Name(),
-		Line:       strconv.Itoa(line),
-		Col:        strconv.Itoa(col),
+		Line:       strconv.Itoa(position.Line),
+		Col:        strconv.Itoa(position.Column),
 		Severity:   severity,
 		Confidence: confidence,
 		What:       desc,
@@ -85,12 +84,12 @@ func newIssue(analyzerID string, desc string, fileSet *token.FileSet,
 func issueCodeSnippet(fileSet *token.FileSet, pos token.Pos) string {
 	file := fileSet.File(pos)
 
-	start := (int64)(file.Line(pos))
+	line := (int64)(file.PositionFor(pos, false).Line)
+	start := line
 	if start-issue.SnippetOffset > 0 {
 		start = start - issue.SnippetOffset
 	}
-	end := (int64)(file.Line(pos))
-	end = end + issue.SnippetOffset
+	end := line + issue.SnippetOffset
 
 	var code string
 	if file, err := os.Open(file.Name()); err == nil {
diff --git a/helpers.go b/helpers.go
index 0cfa71c..f7bf1fa 100644
--- a/helpers.go
+++ b/helpers.go
@@ -341,7 +341,7 @@ func GetImportPath(name string, ctx *Context) (string, bool) {
 // GetLocation returns the filename and line number of an ast.Node
 func GetLocation(n ast.Node, ctx *Context) (string, int) {
 	fobj := ctx.FileSet.File(n.Pos())
-	return fobj.Name(), fobj.Line(n.Pos())
+	return fobj.Name(), fobj.PositionFor(n.Pos(), false).Line
 }
 
 // Gopath returns all GOPATHs
diff --git a/issue/issue.go b/issue/issue.go
index b7c804e..fd760b2 100644
--- a/issue/issue.go
+++ b/issue/issue.go
@@ -169,7 +169,7 @@ func CodeSnippet(file *os.File, start int64, end int64) (string, error) {
 }
 
 func codeSnippetStartLine(node ast.Node, fobj *token.File) int64 {
-	s := (int64)(fobj.Line(node.Pos()))
+	s := (int64)(fobj.PositionFor(node.Pos(), false).Line)
 	if s-SnippetOffset > 0 {
 		return s - SnippetOffset
 	}
@@ -177,7 +177,7 @@ func codeSnippetStartLine(node ast.Node, fobj *token.File) int64 {
 }
 
 func codeSnippetEndLine(node ast.Node, fobj *token.File) int64 {
-	e := (int64)(fobj.Line(node.End()))
+	e := (int64)(fobj.PositionFor(node.End(), false).Line)
 	return e + SnippetOffset
 }
 
@@ -185,7 +185,7 @@ func codeSnippetEndLine(node ast.Node, fobj *token.File) int64 {
 func New(fobj *token.File, node ast.Node, ruleID, desc string, severity, confidence Score) *Issue {
 	name := fobj.Name()
 	line := GetLine(fobj, node)
-	col := strconv.Itoa(fobj.Position(node.Pos()).Column)
+	col := strconv.Itoa(fobj.PositionFor(node.Pos(), false).Column)
 
 	var code string
 	if node == nil {
@@ -222,7 +222,7 @@ func (i *Issue) WithSuppressions(suppressions []SuppressionInfo) *Issue {
 
 // GetLine returns the line number of a given ast.Node
 func GetLine(fobj *token.File, node ast.Node) string {
-	start, end := fobj.Line(node.Pos()), fobj.Line(node.End())
+	start, end := fobj.PositionFor(node.Pos(), false).Line, fobj.PositionFor(node.End(), false).Line
 	line := strconv.Itoa(start)
 	if start != end {
 		line = fmt.Sprintf("%d-%d", start, end)
-- 
2.43.0


From 439e1fe194f4f9fcced2de5f3f25cd279285e447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:00 +0000
Subject: [PATCH 46/84] fix: do not report findings of analyzers in the
 expanded files of cgo

---
 analyzer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index e5235f8..d1495b4 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -473,6 +473,10 @@ func (gosec *Analyzer) CheckAnalyzers(pkg *packages.Package) {
 		if result != nil {
 			if passIssues, ok := result.([]*issue.Issue); ok {
 				for _, iss := range passIssues {
+					// Skip the findings in no-Go files in the same way as the rules do.
+					if filepath.Ext(iss.File) != ".go" {
+						continue
+					}
 					if gosec.excludeGenerated {
 						if _, ok := generatedFiles[iss.File]; ok {
 							continue
-- 
2.43.0


From 9f968fcfe69ee00479fa680b7f0bafe8a05a54f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 47/84] fix: do not crash on calls without the expected
 arguments in the RSA and file permission rules

---
 rules/fileperms.go | 2 +-
 rules/rsa.go       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rules/fileperms.go b/rules/fileperms.go
index b65c6a0..b5feef0 100644
--- a/rules/fileperms.go
+++ b/rules/fileperms.go
@@ -59,7 +59,7 @@ func modeIsSubset(subset int64, superset int64) bool {
 // Match checks if the rule is matched.
 func (r *filePermissions) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	for _, pkg := range r.pkgs {
-		if callexpr, matched := gosec.MatchCallByPackage(n, c, pkg, r.calls...); matched {
+		if callexpr, matched := gosec.MatchCallByPackage(n, c, pkg, r.calls...); matched && len(callexpr.Args) > 0 {
 			modeArg := callexpr.Args[len(callexpr.Args)-1]
 			if mode, err := gosec.GetInt(modeArg); err == nil && !modeIsSubset(mode, r.mode) || isOsPerm(modeArg, c) {
 				return c.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
diff --git a/rules/rsa.go b/rules/rsa.go
index 331e7fc..0d89f28 100644
--- a/rules/rsa.go
+++ b/rules/rsa.go
@@ -33,7 +33,7 @@ func (w *weakKeyStrength) ID() string {
 }
 
 func (w *weakKeyStrength) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
-	if callExpr := w.calls.ContainsPkgCallExpr(n, c, false); callExpr != nil {
+	if callExpr := w.calls.ContainsPkgCallExpr(n, c, false); callExpr != nil && len(callExpr.Args) > 1 {
 		if bits, err := gosec.GetInt(callExpr.Args[1]); err == nil && bits < (int64)(w.bits) {
 			return c.NewIssue(n, w.ID(), w.What, w.Severity, w.Confidence), nil
 		}
-- 
2.43.0


From 2d70e6ff65f4aa5ede455fe8a14a8b8f296e0491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 48/84] fix: do not crash on comments which are not closed

---
 analyzer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index d1495b4..9d2ad02 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -669,6 +669,12 @@ func findNoSecDirective(group *ast.CommentGroup, noSecDefaultTag, noSecAlternati
 }
 
 func findNoSecTag(group *ast.CommentGroup, tag string) (bool, string) {
+	for _, c := range group.List {
+		// The text of a comment which is not closed cannot be extracted.
+		if strings.HasPrefix(c.Text, "/*") && (len(c.Text) < 4 || !strings.HasSuffix(c.Text, "*/")) {
+			return false, ""
+		}
+	}
 	comment := strings.TrimSpace(group.Text())
 
 	if strings.HasPrefix(comment, tag) || regexp.MustCompile("\n *"+regexp.QuoteMeta(tag)).MatchString(comment) {
-- 
2.43.0


From 0aa676c28d593cd042d4378e204bea8f0d6319f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 49/84] fix: locate errors in files whose path contains a colon

---
 analyzer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index 9d2ad02..4084028 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -60,6 +60,9 @@ const aliasOfAllRules = "*"
 
 var directiveRegexp = regexp.MustCompile("^//gosec:disable(?: (.+))?$")
 
+// positionRegexp matches the position of an error given with line and column.
+var positionRegexp = regexp.MustCompile(`^(.+):(\d+):(\d+)$`)
+
 type ignore struct {
 	start        int
 	end          int
@@ -540,6 +543,10 @@ func (gosec *Analyzer) ParseErrors(pkg *packages.Package) error {
 	}
 	for _, pkgErr := range pkg.Errors {
 		parts := strings.Split(pkgErr.Pos, ":")
+		if position := positionRegexp.FindStringSubmatch(pkgErr.Pos); position != nil {
+			// The path of the file itself may contain colons.
+			parts = position[1:]
+		}
 		file := parts[0]
 		var err error
 		var line int
-- 
2.43.0


From cba0f91b3eb78a98f2aa757e93d4f9510a02683a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:37 +0000
Subject: [PATCH 50/84] fix: show code excerpts with lines of any length

---
 issue/issue.go        | 2 ++
 report/text/writer.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/issue/issue.go b/issue/issue.go
index fd760b2..f22575f 100644
--- a/issue/issue.go
+++ b/issue/issue.go
@@ -21,6 +21,7 @@ import (
 	"fmt"
 	"go/ast"
 	"go/token"
+	"math"
 	"os"
 	"strconv"
 
@@ -155,6 +156,7 @@ func CodeSnippet(file *os.File, start int64, end int64) (string, error) {
 	var pos int64
 	var buf bytes.Buffer
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(nil, math.MaxInt) // lines may be of any length
 	scanner.Split(bufio.ScanLines)
 	for scanner.Scan() {
 		pos++
diff --git a/report/text/writer.go b/report/text/writer.go
index d839a43..c173543 100644
--- a/report/text/writer.go
+++ b/report/text/writer.go
@@ -6,6 +6,7 @@ import (
 	_ "embed" // use go embed to import template
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 	"strings"
 	"text/template"
@@ -80,6 +81,7 @@ func highlight(t string, s issue.Score, ignored bool) string {
 func printCodeSnippet(issue *issue.Issue) string {
 	start, end := parseLine(issue.Line)
 	scanner := bufio.NewScanner(strings.NewReader(issue.Code))
+	scanner.Buffer(nil, math.MaxInt) // lines may be of any length
 	var buf bytes.Buffer
 	line := start
 	for scanner.Scan() {
-- 
2.43.0


From 8c188a6a3a14cdf68cc0912fecca14a9b7dbae8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 51/84] fix: match the root paths of SARIF and SonarQube
 reports by path elements

---
 report/sarif/formatter.go | 4 ++--
 report/sonar/formatter.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index f47c250..dc89f9a 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -185,8 +185,8 @@ func parseSarifLocation(i *issue.Issue, rootPaths []string) (*Location, error) {
 func parseSarifArtifactLocation(i *issue.Issue, rootPaths []string) *ArtifactLocation {
 	var filePath string
 	for _, rootPath := range rootPaths {
-		if strings.HasPrefix(i.File, rootPath) {
-			filePath = strings.Replace(i.File, rootPath+"/", "", 1)
+		if path, ok := strings.CutPrefix(i.File, strings.TrimSuffix(rootPath, "/")+"/"); ok {
+			filePath = path
 		}
 	}
 	return NewArtifactLocation(filePath)
diff --git a/report/sonar/formatter.go b/report/sonar/formatter.go
index d635d9d..d76d1ba 100644
--- a/report/sonar/formatter.go
+++ b/report/sonar/formatter.go
@@ -40,8 +40,8 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 func parseFilePath(issue *issue.Issue, rootPaths []string) string {
 	var sonarFilePath string
 	for _, rootPath := range rootPaths {
-		if strings.HasPrefix(issue.File, rootPath) {
-			sonarFilePath = strings.Replace(issue.File, rootPath+"/", "", 1)
+		if path, ok := strings.CutPrefix(issue.File, strings.TrimSuffix(rootPath, "/")+"/"); ok {
+			sonarFilePath = path
 		}
 	}
 	return sonarFilePath
-- 
2.43.0


From 5d2b695b0fc1881d2d8f6c6ea5bc86356fef056d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 52/84] fix: escape all texts in JUnit reports

---
 report/junit/formatter.go | 3 +--
 report/junit/types.go     | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/report/junit/formatter.go b/report/junit/formatter.go
index 3b974fd..c27a7d2 100644
--- a/report/junit/formatter.go
+++ b/report/junit/formatter.go
@@ -1,7 +1,6 @@
 package junit
 
 import (
-	"html"
 	"strconv"
 
 	"github.com/securego/gosec/v2"
@@ -17,7 +16,7 @@ func generatePlaintext(issue *issue.Issue) string {
 		"[" + issue.File + ":" + issue.Line + "] - " +
 		issue.What + " (Confidence: " + strconv.Itoa(int(issue.Confidence)) +
 		", Severity: " + strconv.Itoa(int(issue.Severity)) +
-		", CWE: " + cweID + ")\n" + "> " + html.EscapeString(issue.Code) +
+		", CWE: " + cweID + ")\n" + "> " + issue.Code +
 		"\n Autofix: " + issue.Autofix
 }
 
diff --git a/report/junit/types.go b/report/junit/types.go
index bac3218..f19e763 100644
--- a/report/junit/types.go
+++ b/report/junit/types.go
@@ -29,5 +29,5 @@ type Testcase struct {
 type Failure struct {
 	XMLName xml.Name `xml:"failure"`
 	Message string   `xml:"message,attr"`
-	Text    string   `xml:",innerxml"`
+	Text    string   `xml:",chardata"`
 }
-- 
2.43.0


From 4cbf56562072c2cd09bc9b6b364d2122e59a223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 53/84] fix: locate findings in SARIF and SonarQube reports
 without path arguments

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 12f4e11..e76ad2d 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -499,7 +499,7 @@ func main() {
 	}
 
 	// Create output report
-	rootPaths := getRootPaths(flag.Args())
+	rootPaths := getRootPaths(paths)
 
 	reportInfo := gosec.NewReportInfo(issues, metrics, errors).WithVersion(Version)
 
-- 
2.43.0


From 0fc92ed594d8134dfb20af7959a1f9f954d8fae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 54/84] fix: write valid URIs in SARIF reports

---
 report/sarif/formatter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index dc89f9a..f73b96f 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -2,6 +2,7 @@ package sarif
 
 import (
 	"fmt"
+	"net/url"
 	"sort"
 	"strconv"
 	"strings"
@@ -189,7 +190,8 @@ func parseSarifArtifactLocation(i *issue.Issue, rootPaths []string) *ArtifactLoc
 			filePath = path
 		}
 	}
-	return NewArtifactLocation(filePath)
+	uri := url.URL{Path: filePath}
+	return NewArtifactLocation(uri.String())
 }
 
 func parseSarifRegion(i *issue.Issue) (*Region, error) {
-- 
2.43.0


From 11bd4c275029f538a96cec99e361768a81c98b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 55/84] fix: describe each rule once in SARIF reports and index
 the right one

---
 report/sarif/formatter.go | 41 +++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index f73b96f..69cc22c 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -3,6 +3,7 @@ package sarif
 import (
 	"fmt"
 	"net/url"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -33,9 +34,7 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 			}
 		}
 
-		rule := parseSarifRule(issue)
-		var ruleIndex int
-		rules, ruleIndex = addRuleInOrder(rules, rule)
+		rules = addRuleInOrder(rules, parseSarifRule(issue))
 
 		location, err := parseSarifLocation(issue, rootPaths)
 		if err != nil {
@@ -44,7 +43,7 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 
 		result := NewResult(
 			issue.RuleID,
-			ruleIndex,
+			-1, // the positions of the rules are not known yet
 			getSarifLevel(issue.Severity.String()),
 			issue.What,
 			buildSarifSuppressions(issue.Suppressions),
@@ -54,6 +53,10 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 		results = append(results, result)
 	}
 
+	for _, result := range results {
+		result.RuleIndex, _ = findRule(rules, result.RuleID)
+	}
+
 	sort.SliceStable(cweTaxa, func(i, j int) bool { return cweTaxa[i].ID < cweTaxa[j].ID })
 
 	tool := NewTool(buildSarifDriver(rules, data.GosecVersion))
@@ -68,24 +71,20 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 		WithRuns(run), nil
 }
 
-// addRuleInOrder inserts a rule into the rules slice keeping the rules IDs order, it returns the new rules
-// slice and the position where the rule was inserted
-func addRuleInOrder(rules []*ReportingDescriptor, rule *ReportingDescriptor) ([]*ReportingDescriptor, int) {
-	position := 0
-	for i, r := range rules {
-		if r.ID < rule.ID {
-			continue
-		}
-		if r.ID == rule.ID {
-			return rules, i
-		}
-		position = i
-		break
+// addRuleInOrder inserts a rule into the rules slice keeping the rules IDs order, unless it is already there
+func addRuleInOrder(rules []*ReportingDescriptor, rule *ReportingDescriptor) []*ReportingDescriptor {
+	position, found := findRule(rules, rule.ID)
+	if found {
+		return rules
 	}
-	rules = append(rules, nil)
-	copy(rules[position+1:], rules[position:])
-	rules[position] = rule
-	return rules, position
+	return slices.Insert(rules, position, rule)
+}
+
+// findRule returns the position of a rule ID in the ordered rules slice and if it is there
+func findRule(rules []*ReportingDescriptor, id string) (int, bool) {
+	return slices.BinarySearchFunc(rules, id, func(rule *ReportingDescriptor, id string) int {
+		return strings.Compare(rule.ID, id)
+	})
 }
 
 // parseSarifRule return SARIF rule field struct
-- 
2.43.0


From 4cd67676a3b458339b23872ba629dc49c9bfb707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 56/84] fix: do not write empty relationships of rules without
 CWE in SARIF reports

---
 report/sarif/formatter.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index 69cc22c..e334f4d 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -108,23 +108,23 @@ func parseSarifRule(i *issue.Issue) *ReportingDescriptor {
 		DefaultConfiguration: &ReportingConfiguration{
 			Level: getSarifLevel(i.Severity.String()),
 		},
-		Relationships: []*ReportingDescriptorRelationship{
-			buildSarifReportingDescriptorRelationship(i.Cwe),
-		},
+		Relationships: buildSarifReportingDescriptorRelationships(i.Cwe),
 	}
 }
 
-func buildSarifReportingDescriptorRelationship(weakness *cwe.Weakness) *ReportingDescriptorRelationship {
+func buildSarifReportingDescriptorRelationships(weakness *cwe.Weakness) []*ReportingDescriptorRelationship {
 	if weakness == nil {
 		return nil
 	}
-	return &ReportingDescriptorRelationship{
-		Target: &ReportingDescriptorReference{
-			ID:            weakness.ID,
-			GUID:          uuid3(weakness.SprintID()),
-			ToolComponent: NewToolComponentReference(cwe.Acronym),
+	return []*ReportingDescriptorRelationship{
+		{
+			Target: &ReportingDescriptorReference{
+				ID:            weakness.ID,
+				GUID:          uuid3(weakness.SprintID()),
+				ToolComponent: NewToolComponentReference(cwe.Acronym),
+			},
+			Kinds: []string{"superset"},
 		},
-		Kinds: []string{"superset"},
 	}
 }
 
-- 
2.43.0


From 5eb4d3d43d1641abef5a8b66649123197705ec26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 57/84] fix: map G307 to its weakness

---
 issue/issue.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/issue/issue.go b/issue/issue.go
index f22575f..ee50473 100644
--- a/issue/issue.go
+++ b/issue/issue.go
@@ -78,6 +78,7 @@ var ruleToCWE = map[string]string{
 	"G304": "22",
 	"G305": "22",
 	"G306": "276",
+	"G307": "276",
 	"G401": "328",
 	"G402": "295",
 	"G403": "310",
-- 
2.43.0


From 32663b20ca691040c82c1c38bf6ee7f582681306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 58/84] fix: do not crash on AI answers without content

---
 autofix/ai.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autofix/ai.go b/autofix/ai.go
index 3535f7e..5f77415 100644
--- a/autofix/ai.go
+++ b/autofix/ai.go
@@ -67,7 +67,7 @@ func (w *genAIGenerativeModelWrapper) GenerateContent(ctx context.Context, promp
 		return "", errors.New("no autofix returned by gemini")
 	}
 
-	if len(resp.Candidates[0].Content.Parts) == 0 {
+	if resp.Candidates[0].Content == nil || len(resp.Candidates[0].Content.Parts) == 0 {
 		return "", errors.New("nothing found in the first autofix returned by gemini")
 	}
 
-- 
2.43.0


From d8039473262e10b796e68554c170a9c3d5cb635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 59/84] fix: report failures to write CSV reports

---
 report/csv/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/report/csv/writer.go b/report/csv/writer.go
index 40bb6a1..0b15715 100644
--- a/report/csv/writer.go
+++ b/report/csv/writer.go
@@ -10,7 +10,6 @@ import (
 // WriteReport write a report in csv format to the output writer
 func WriteReport(w io.Writer, data *gosec.ReportInfo) error {
 	out := csv.NewWriter(w)
-	defer out.Flush()
 	for _, issue := range data.Issues {
 		err := out.Write([]string{
 			issue.File,
@@ -25,5 +24,6 @@ func WriteReport(w io.Writer, data *gosec.ReportInfo) error {
 			return err
 		}
 	}
-	return nil
+	out.Flush()
+	return out.Error()
 }
-- 
2.43.0


From bb0b94f3fbc24838c591c4193d2e161b18b771af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 60/84] fix: do not count ignored issues as found

---
 analyzer.go       | 2 +-
 cmd/gosec/main.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 4084028..a4d5d4e 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -810,7 +810,7 @@ func (gosec *Analyzer) updateIssues(issue *issue.Issue) {
 		if gosec.showIgnored {
 			issue.NoSec = ignored
 		}
-		if !ignored || !gosec.showIgnored {
+		if !ignored {
 			gosec.stats.NumFound++
 		}
 		if ignored && gosec.trackSuppressions {
diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index e76ad2d..a154c7d 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -337,7 +337,7 @@ func filterIssues(issues []*issue.Issue, severity issue.Score, confidence issue.
 	for _, issue := range issues {
 		if issue.Severity >= severity && issue.Confidence >= confidence {
 			result = append(result, issue)
-			if (!issue.NoSec || !*flagShowIgnored) && len(issue.Suppressions) == 0 {
+			if !issue.NoSec && len(issue.Suppressions) == 0 {
 				trueIssues++
 			}
 		}
-- 
2.43.0


From 56b88bff5aec248aef2e3f86e1132c83559a947c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 61/84] fix: scan the given directories recursively with -r

---
 cmd/gosec/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index a154c7d..6d996c3 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -456,6 +456,12 @@ func main() {
 	paths := flag.Args()
 	if len(paths) == 0 {
 		paths = append(paths, "./...")
+	} else if *flagRecursive {
+		for i, path := range paths {
+			if !strings.HasSuffix(path, "...") {
+				paths[i] = strings.TrimRight(path, "/") + "/..."
+			}
+		}
 	}
 	for _, path := range paths {
 		pcks, err := gosec.PackagePaths(path, excludedDirs)
-- 
2.43.0


From 1614fe79765dc479de863d93fce333f5d49181f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 62/84] fix: exclude the given directories and not others whose
 name contains theirs

---
 helpers.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index f7bf1fa..cd09ad2 100644
--- a/helpers.go
+++ b/helpers.go
@@ -502,7 +502,9 @@ func isExcluded(str string, excludes []*regexp.Regexp) bool {
 func ExcludedDirsRegExp(excludedDirs []string) []*regexp.Regexp {
 	var exps []*regexp.Regexp
 	for _, excludedDir := range excludedDirs {
-		str := fmt.Sprintf(`([\\/])?%s([\\/])?`, strings.ReplaceAll(filepath.ToSlash(excludedDir), "/", `\/`))
+		// match whole path elements only, however the directory is written
+		dir := strings.Trim(strings.TrimPrefix(filepath.ToSlash(excludedDir), "./"), "/")
+		str := fmt.Sprintf(`(^|[\\/])(?:%s)([\\/]|$)`, strings.ReplaceAll(dir, "/", `\/`))
 		r := regexp.MustCompile(str)
 		exps = append(exps, r)
 	}
-- 
2.43.0


From 513a393ef2b3c10e6034c0aceeb2409aa7b60a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 63/84] fix: scan the packages of overlapping arguments once

---
 cmd/gosec/main.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 6d996c3..9ec0c86 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -20,6 +20,7 @@ import (
 	"io"
 	"log"
 	"os"
+	"path/filepath"
 	"runtime"
 	"sort"
 	"strings"
@@ -452,6 +453,7 @@ func main() {
 
 	excludedDirs := gosec.ExcludedDirsRegExp(flagDirsExclude)
 	var packages []string
+	seen := make(map[string]bool)
 
 	paths := flag.Args()
 	if len(paths) == 0 {
@@ -468,7 +470,14 @@ func main() {
 		if err != nil {
 			logger.Fatal(err)
 		}
-		packages = append(packages, pcks...)
+		for _, pck := range pcks {
+			// overlapping arguments do not scan a package twice
+			abs, err := filepath.Abs(pck)
+			if err != nil || !seen[abs] {
+				packages = append(packages, pck)
+			}
+			seen[abs] = true
+		}
 	}
 
 	if len(packages) == 0 {
-- 
2.43.0


From c500530bf18547539dfcfe3a437e3d4c9734bbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:16 +0000
Subject: [PATCH 64/84] fix: reject configurations which are not objects

---
 config.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/config.go b/config.go
index 65cfd85..760f606 100644
--- a/config.go
+++ b/config.go
@@ -3,6 +3,7 @@ package gosec
 import (
 	"bytes"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"strings"
@@ -55,16 +56,21 @@ func (c Config) keyToGlobalOptions(key string) GlobalOption {
 	return GlobalOption(key)
 }
 
-func (c Config) convertGlobals() {
+func (c Config) convertGlobals() error {
 	if globals, ok := c[Globals]; ok {
-		if settings, ok := globals.(map[string]interface{}); ok {
+		switch settings := globals.(type) {
+		case map[GlobalOption]string:
+		case map[string]interface{}:
 			validGlobals := map[GlobalOption]string{}
 			for k, v := range settings {
 				validGlobals[c.keyToGlobalOptions(k)] = fmt.Sprintf("%v", v)
 			}
 			c[Globals] = validGlobals
+		default:
+			return fmt.Errorf("section %s is not an object", Globals)
 		}
 	}
+	return nil
 }
 
 // ReadFrom implements the io.ReaderFrom interface. This
@@ -78,8 +84,10 @@ func (c Config) ReadFrom(r io.Reader) (int64, error) {
 	if err = json.Unmarshal(data, &c); err != nil {
 		return int64(len(data)), err
 	}
-	c.convertGlobals()
-	return int64(len(data)), nil
+	if c == nil {
+		return int64(len(data)), errors.New("the configuration is not an object")
+	}
+	return int64(len(data)), c.convertGlobals()
 }
 
 // WriteTo implements the io.WriteTo interface. This should
-- 
2.43.0


From 16aad70bc23acf05845ae759bf81b594b4bdc0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:11 +0000
Subject: [PATCH 65/84] fix: let options which are switched off on the command
 line override the configuration file

---
 cmd/gosec/main.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 9ec0c86..3c26be2 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -23,6 +23,7 @@ import (
 	"path/filepath"
 	"runtime"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/securego/gosec/v2"
@@ -200,6 +201,15 @@ func usage() {
 	fmt.Fprint(os.Stderr, "\n")
 }
 
+// isFlagSet tells whether the option was given on the command line
+func isFlagSet(name string) bool {
+	set := false
+	flag.Visit(func(f *flag.Flag) {
+		set = set || f.Name == name
+	})
+	return set
+}
+
 func loadConfig(configFile string) (gosec.Config, error) {
 	config := gosec.NewConfig()
 	if configFile != "" {
@@ -213,24 +223,24 @@ func loadConfig(configFile string) (gosec.Config, error) {
 			return nil, err
 		}
 	}
-	if *flagIgnoreNoSec {
-		config.SetGlobal(gosec.Nosec, "true")
+	if isFlagSet("nosec") {
+		config.SetGlobal(gosec.Nosec, strconv.FormatBool(*flagIgnoreNoSec))
 	}
-	if *flagShowIgnored {
-		config.SetGlobal(gosec.ShowIgnored, "true")
+	if isFlagSet("show-ignored") {
+		config.SetGlobal(gosec.ShowIgnored, strconv.FormatBool(*flagShowIgnored))
 	}
 	if *flagAlternativeNoSec != "" {
 		config.SetGlobal(gosec.NoSecAlternative, *flagAlternativeNoSec)
 	}
-	if *flagEnableAudit {
-		config.SetGlobal(gosec.Audit, "true")
+	if isFlagSet("enable-audit") {
+		config.SetGlobal(gosec.Audit, strconv.FormatBool(*flagEnableAudit))
 	}
 	// set global option IncludeRules, when flag set or global option IncludeRules  is nil
-	if v, _ := config.GetGlobal(gosec.IncludeRules); *flagRulesInclude != "" || v == "" {
+	if v, _ := config.GetGlobal(gosec.IncludeRules); isFlagSet("include") || v == "" {
 		config.SetGlobal(gosec.IncludeRules, *flagRulesInclude)
 	}
 	// set global option ExcludeRules, when flag set or global option ExcludeRules  is nil
-	if v, _ := config.GetGlobal(gosec.ExcludeRules); flagRulesExclude.String() != "" || v == "" {
+	if v, _ := config.GetGlobal(gosec.ExcludeRules); isFlagSet("exclude") || v == "" {
 		config.SetGlobal(gosec.ExcludeRules, flagRulesExclude.String())
 	}
 	return config, nil
-- 
2.43.0


From c9deb837a5b1a11c854efa0f96734d8cfe01b091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 66/84] fix: do not scan the current directory in place of a
 package which has only tests

---
 analyzer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index a4d5d4e..1b54d4c 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -379,6 +379,11 @@ func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.
 		}
 	}
 
+	if len(packageFiles) == 0 {
+		// without any file the package in the current directory would be loaded
+		return []*packages.Package{}, nil
+	}
+
 	// step 3/3 pass the build tags as a build flag to proceed build correctly.
 	gosec.mu.Lock()
 	defer gosec.mu.Unlock()
-- 
2.43.0


From 03148542033395c0200a12cea704ab84d58951e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:55 +0000
Subject: [PATCH 67/84] fix: check the bounds of slices passed to a function
 more than once

---
 analyzers/slice_bounds.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/analyzers/slice_bounds.go b/analyzers/slice_bounds.go
index 968102f..682a07c 100644
--- a/analyzers/slice_bounds.go
+++ b/analyzers/slice_bounds.go
@@ -199,16 +199,14 @@ func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa
 				if ifref, cond := extractSliceIfLenCondition(refinstr); ifref != nil && cond != nil {
 					ifs[*ifref] = cond
 				} else {
-					parPos := -1
-					for pos, arg := range refinstr.Call.Args {
-						if a, ok := arg.(*ssa.Slice); ok && a == slice {
-							parPos = pos
-						}
+					fn, ok := refinstr.Call.Value.(*ssa.Function)
+					if !ok {
+						break
 					}
-					if fn, ok := refinstr.Call.Value.(*ssa.Function); ok {
-						if len(fn.Params) > parPos && parPos > -1 {
-							param := fn.Params[parPos]
-							trackSliceBounds(depth, sliceCap, param, violations, ifs)
+					// the slice may be passed more than once
+					for pos, arg := range refinstr.Call.Args {
+						if a, ok := arg.(*ssa.Slice); ok && a == slice && len(fn.Params) > pos {
+							trackSliceBounds(depth, sliceCap, fn.Params[pos], violations, ifs)
 						}
 					}
 				}
-- 
2.43.0


From 12281106dd7e6c56b39f5c5b7b1ccbf95084438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:55 +0000
Subject: [PATCH 68/84] fix: bound only values parsed by strconv in the integer
 conversion rule

---
 analyzers/conversion_overflow.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 7cbb947..2070cbd 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -228,7 +228,8 @@ func isParsedInRange(value ssa.Value, dstInt integer, visited map[ssa.Value]bool
 
 	switch v := value.(type) {
 	case *ssa.Call:
-		if v.Call.StaticCallee() == nil || (v.Call.StaticCallee().Name() != "ParseInt" && v.Call.StaticCallee().Name() != "ParseUint") {
+		callee := v.Call.StaticCallee()
+		if callee == nil || callee.Pkg == nil || callee.Pkg.Pkg.Path() != "strconv" || (callee.Name() != "ParseInt" && callee.Name() != "ParseUint") {
 			return false
 		}
 		if len(v.Call.Args) != 3 {
@@ -238,7 +239,7 @@ func isParsedInRange(value ssa.Value, dstInt integer, visited map[ssa.Value]bool
 		if !ok {
 			return false
 		}
-		signed := v.Call.StaticCallee().Name() == "ParseInt"
+		signed := callee.Name() == "ParseInt"
 		bitSizeValue, err := strconv.Atoi(bitSize.Value.String())
 		if err != nil {
 			return false
-- 
2.43.0


From f210ef1c38b895691787492e7d1efb6a417a85bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:55 +0000
Subject: [PATCH 69/84] fix: check assignments to TLS configurations through
 pointers and aliases

---
 rules/tls.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rules/tls.go b/rules/tls.go
index 77bd1a1..b157308 100644
--- a/rules/tls.go
+++ b/rules/tls.go
@@ -215,7 +215,13 @@ func (t *insecureConfigTLS) Match(n ast.Node, c *gosec.Context) (*issue.Issue, e
 		if assign, ok := n.(*ast.AssignStmt); ok && len(assign.Lhs) > 0 {
 			if selector, ok := assign.Lhs[0].(*ast.SelectorExpr); ok {
 				actualType := c.Info.TypeOf(selector.X)
-				if actualType != nil && actualType.String() == t.requiredType {
+				if actualType == nil {
+					return nil, nil
+				}
+				if ptr, ok := actualType.Underlying().(*types.Pointer); ok {
+					actualType = ptr.Elem()
+				}
+				if types.Unalias(actualType).String() == t.requiredType {
 					issue := t.processTLSConf(assign, c)
 					if issue != nil {
 						return issue, nil
-- 
2.43.0


From a9241bfd27605925d53880fbb7986b86d7946a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:55 +0000
Subject: [PATCH 70/84] fix: judge only the value assigned to a credential
 variable in multiple assignments

---
 rules/hardcoded_credentials.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rules/hardcoded_credentials.go b/rules/hardcoded_credentials.go
index c10d18b..458d41d 100644
--- a/rules/hardcoded_credentials.go
+++ b/rules/hardcoded_credentials.go
@@ -234,11 +234,16 @@ func (r *credentials) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error
 }
 
 func (r *credentials) matchAssign(assign *ast.AssignStmt, ctx *gosec.Context) (*issue.Issue, error) {
-	for _, i := range assign.Lhs {
-		if ident, ok := i.(*ast.Ident); ok {
+	for i, lhs := range assign.Lhs {
+		if ident, ok := lhs.(*ast.Ident); ok {
 			// First check LHS to find anything being assigned to variables whose name appears to be a cred
 			if r.pattern.MatchString(ident.Name) {
-				for _, e := range assign.Rhs {
+				values := assign.Rhs
+				if len(assign.Lhs) == len(assign.Rhs) {
+					// only the value which is assigned to this variable
+					values = assign.Rhs[i : i+1]
+				}
+				for _, e := range values {
 					if val, err := gosec.GetString(e); err == nil {
 						if r.ignoreEntropy || (!r.ignoreEntropy && r.isHighEntropyString(val)) {
 							return ctx.NewIssue(assign, r.ID(), r.What, r.Severity, r.Confidence), nil
-- 
2.43.0


From cd66f678efdfb37fa1d51c00f34f1ace0661fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:05 +0000
Subject: [PATCH 71/84] fix: treat constant and parenthesised expressions as
 such in SQL queries (G201, G202)

---
 helpers.go   | 13 +++++++++----
 rules/sql.go | 24 +++++++++++++++++-------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/helpers.go b/helpers.go
index cd09ad2..434ad7e 100644
--- a/helpers.go
+++ b/helpers.go
@@ -133,6 +133,10 @@ func GetStringRecursive(n ast.Node) (string, error) {
 		return strconv.Unquote(node.Value)
 	}
 
+	if expr, ok := n.(*ast.ParenExpr); ok {
+		return GetStringRecursive(expr.X)
+	}
+
 	if expr, ok := n.(*ast.BinaryExpr); ok {
 		x, err := GetStringRecursive(expr.X)
 		if err != nil {
@@ -300,15 +304,16 @@ func GetBinaryExprOperands(be *ast.BinaryExpr) []ast.Node {
 	var traverse func(be *ast.BinaryExpr)
 	result := []ast.Node{}
 	traverse = func(be *ast.BinaryExpr) {
-		if lhs, ok := be.X.(*ast.BinaryExpr); ok {
+		x, y := ast.Unparen(be.X), ast.Unparen(be.Y)
+		if lhs, ok := x.(*ast.BinaryExpr); ok {
 			traverse(lhs)
 		} else {
-			result = append(result, be.X)
+			result = append(result, x)
 		}
-		if rhs, ok := be.Y.(*ast.BinaryExpr); ok {
+		if rhs, ok := y.(*ast.BinaryExpr); ok {
 			traverse(rhs)
 		} else {
-			result = append(result, be.Y)
+			result = append(result, y)
 		}
 	}
 	traverse(be)
diff --git a/rules/sql.go b/rules/sql.go
index b0c0674..0a9585e 100644
--- a/rules/sql.go
+++ b/rules/sql.go
@@ -72,10 +72,16 @@ func findQueryArg(call *ast.CallExpr, ctx *gosec.Context) (ast.Expr, error) {
 	if i >= len(call.Args) {
 		return nil, nil
 	}
-	query := call.Args[i]
+	query := ast.Unparen(call.Args[i])
 	return query, nil
 }
 
+// isConstant checks whether the value of an expression is known at compile time.
+func isConstant(n ast.Node, ctx *gosec.Context) bool {
+	expr, ok := n.(ast.Expr)
+	return ok && ctx.Info.Types[expr].Value != nil
+}
+
 func (s *sqlStatement) ID() string {
 	return s.MetaData.ID
 }
@@ -102,7 +108,7 @@ func (s *sqlStrConcat) ID() string {
 // This method assumes you've already verified that the branch contains SQL syntax
 func (s *sqlStrConcat) findInjectionInBranch(ctx *gosec.Context, branch []ast.Expr) *ast.BinaryExpr {
 	for _, node := range branch {
-		be, ok := node.(*ast.BinaryExpr)
+		be, ok := ast.Unparen(node).(*ast.BinaryExpr)
 		if !ok {
 			continue
 		}
@@ -110,7 +116,7 @@ func (s *sqlStrConcat) findInjectionInBranch(ctx *gosec.Context, branch []ast.Ex
 		operands := gosec.GetBinaryExprOperands(be)
 
 		for _, op := range operands {
-			if _, ok := op.(*ast.BasicLit); ok {
+			if _, ok := op.(*ast.BasicLit); ok || isConstant(op, ctx) {
 				continue
 			}
 
@@ -155,7 +161,7 @@ func (s *sqlStrConcat) checkQuery(call *ast.CallExpr, ctx *gosec.Context) (*issu
 				}
 			}
 			for _, op := range operands[1:] {
-				if _, ok := op.(*ast.BasicLit); ok {
+				if _, ok := op.(*ast.BasicLit); ok || isConstant(op, ctx) {
 					continue
 				}
 				if op, ok := op.(*ast.Ident); ok && s.checkObject(op, ctx) {
@@ -244,6 +250,9 @@ type sqlStrFormat struct {
 
 // see if we can figure out what it is
 func (s *sqlStrFormat) constObject(e ast.Expr, c *gosec.Context) bool {
+	if isConstant(e, c) {
+		return true
+	}
 	n, ok := e.(*ast.Ident)
 	if !ok {
 		return false
@@ -276,7 +285,7 @@ func (s *sqlStrFormat) checkQuery(call *ast.CallExpr, ctx *gosec.Context) (*issu
 		decl := ident.Obj.Decl
 		if assign, ok := decl.(*ast.AssignStmt); ok {
 			for _, expr := range assign.Rhs {
-				issue := s.checkFormatting(expr, ctx)
+				issue := s.checkFormatting(ast.Unparen(expr), ctx)
 				if issue != nil {
 					return issue, err
 				}
@@ -315,11 +324,12 @@ func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Is
 		var formatter string
 
 		// concats callexpr arg strings together if needed before regex evaluation
-		if argExpr, ok := node.Args[argIndex].(*ast.BinaryExpr); ok {
+		format := ast.Unparen(node.Args[argIndex])
+		if argExpr, ok := format.(*ast.BinaryExpr); ok {
 			if fullStr, ok := gosec.ConcatString(argExpr); ok {
 				formatter = fullStr
 			}
-		} else if arg, e := gosec.GetString(node.Args[argIndex]); e == nil {
+		} else if arg, e := gosec.GetString(format); e == nil {
 			formatter = arg
 		}
 		if len(formatter) <= 0 {
-- 
2.43.0


From 7b250de19188a45eaf682de2ae98fff106960554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:05 +0000
Subject: [PATCH 72/84] fix: resolve constant and parenthesised expressions to
 constants (G204, G304)

---
 resolve.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resolve.go b/resolve.go
index a201b8d..c9b9f09 100644
--- a/resolve.go
+++ b/resolve.go
@@ -75,6 +75,10 @@ func resolveCallExpr(_ *ast.CallExpr, _ *Context) bool {
 // all values contained within to a known constant. It is used to check for any
 // unknown values in compound expressions.
 func TryResolve(n ast.Node, c *Context) bool {
+	if expr, ok := n.(ast.Expr); ok && c.Info != nil && c.Info.Types[expr].Value != nil {
+		return true // a constant expression
+	}
+
 	switch node := n.(type) {
 	case *ast.BasicLit:
 		return true
@@ -90,6 +94,8 @@ func TryResolve(n ast.Node, c *Context) bool {
 		return resolveCallExpr(node, c)
 	case *ast.BinaryExpr:
 		return resolveBinExpr(node, c)
+	case *ast.ParenExpr:
+		return TryResolve(node.X, c)
 	}
 	return false
 }
-- 
2.43.0


From 7412969e9dc32c699b5744159dc035bf7be86b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:23 +0000
Subject: [PATCH 73/84] fix: parse the command line of the tlsconfig generator

---
 cmd/tlsconfig/tlsconfig.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/tlsconfig/tlsconfig.go b/cmd/tlsconfig/tlsconfig.go
index 16c7189..0f441ff 100644
--- a/cmd/tlsconfig/tlsconfig.go
+++ b/cmd/tlsconfig/tlsconfig.go
@@ -159,6 +159,8 @@ func getCurrentDir() (string, error) {
 }
 
 func main() {
+	flag.Parse()
+
 	dir, err := getCurrentDir()
 	if err != nil {
 		log.Fatalln(err)
-- 
2.43.0


From 9882751b829cf94cd2e96d7b146c153a345c78e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:23 +0000
Subject: [PATCH 74/84] fix: resolve identifiers declared in another file of
 the package

---
 analyzer.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index 1b54d4c..9b2688c 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -402,6 +402,7 @@ func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.
 // CheckRules runs analysis on the given package.
 func (gosec *Analyzer) CheckRules(pkg *packages.Package) {
 	gosec.logger.Println("Checking package:", pkg.Name)
+	resolvePackageIdents(pkg.Syntax)
 	for _, file := range pkg.Syntax {
 		fp := pkg.Fset.File(file.Pos())
 		if fp == nil {
@@ -436,6 +437,26 @@ func (gosec *Analyzer) CheckRules(pkg *packages.Package) {
 	}
 }
 
+// resolvePackageIdents resolves the identifiers which are declared in another file of the package.
+// The parser resolves only those declared in the same file.
+func resolvePackageIdents(files []*ast.File) {
+	objects := make(map[string]*ast.Object)
+	for _, file := range files {
+		if file.Scope != nil {
+			for name, obj := range file.Scope.Objects {
+				objects[name] = obj
+			}
+		}
+	}
+	for _, file := range files {
+		for _, ident := range file.Unresolved {
+			if ident.Obj == nil {
+				ident.Obj = objects[ident.Name]
+			}
+		}
+	}
+}
+
 // CheckAnalyzers runs analyzers on a given package.
 func (gosec *Analyzer) CheckAnalyzers(pkg *packages.Package) {
 	ssaResult, err := gosec.buildSSA(pkg)
-- 
2.43.0


From 0973a0a91bc617114b922eddc84495a6eafdbe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:24 +0000
Subject: [PATCH 75/84] fix: return the value of a character literal instead of
 its quote

---
 helpers.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 434ad7e..6a6e58e 100644
--- a/helpers.go
+++ b/helpers.go
@@ -22,6 +22,7 @@ import (
 	"go/ast"
 	"go/token"
 	"go/types"
+	"math"
 	"os"
 	"os/exec"
 	"os/user"
@@ -111,7 +112,14 @@ func GetFloat(n ast.Node) (float64, error) {
 // GetChar will read and return a char value from an ast.BasicLit
 func GetChar(n ast.Node) (byte, error) {
 	if node, ok := n.(*ast.BasicLit); ok && node.Kind == token.CHAR {
-		return node.Value[0], nil
+		char, _, _, err := strconv.UnquoteChar(node.Value[1:], '\'')
+		if err != nil {
+			return 0, err
+		}
+		if char > math.MaxUint8 {
+			return 0, fmt.Errorf("character %s does not fit into a byte", node.Value)
+		}
+		return byte(char), nil
 	}
 	return 0, fmt.Errorf("unexpected AST node type: %T", n)
 }
-- 
2.43.0


From a6f7b280905d054d674a6b4c6deead2fea23f092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:36 +0000
Subject: [PATCH 76/84] fix: know imported packages by their names instead of
 the last elements of their paths

---
 analyzer.go       |  2 +-
 import_tracker.go | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 9b2688c..7ac79d7 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -724,7 +724,7 @@ func (gosec *Analyzer) Visit(n ast.Node) ast.Visitor {
 	// Using ast.File instead of ast.ImportSpec, so that we can track all imports at once.
 	switch i := n.(type) {
 	case *ast.File:
-		gosec.context.Imports.TrackFile(i)
+		gosec.context.Imports.trackTypedFile(i, gosec.context.Info)
 	}
 
 	for _, rule := range gosec.ruleset.RegisteredFor(n) {
diff --git a/import_tracker.go b/import_tracker.go
index a3ca960..88864d4 100644
--- a/import_tracker.go
+++ b/import_tracker.go
@@ -44,6 +44,20 @@ func (t *ImportTracker) TrackFile(file *ast.File) {
 	}
 }
 
+// trackTypedFile tracks all the imports used by the supplied file by the names of the imported packages, which
+// may differ from the last element of their paths.
+func (t *ImportTracker) trackTypedFile(file *ast.File, info *types.Info) {
+	for _, imp := range file.Imports {
+		pkgName, ok := info.Implicits[imp].(*types.PkgName)
+		path, err := strconv.Unquote(imp.Path.Value)
+		if ok && err == nil && pkgName.Imported().Complete() {
+			t.Imported[path] = append(t.Imported[path], pkgName.Name())
+			continue
+		}
+		t.TrackImport(imp)
+	}
+}
+
 // TrackPackages tracks all the imports used by the supplied packages
 func (t *ImportTracker) TrackPackages(pkgs ...*types.Package) {
 	for _, pkg := range pkgs {
-- 
2.43.0


From 909a0d148e91cb8e47b1fc5b493b4229d7de1238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:46 +0000
Subject: [PATCH 77/84] fix: the log names the path that is skipped since it
 does not exist

The message was printed with the empty result of the failed lookup.
---
 analyzer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 7ac79d7..1148ef4 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -346,7 +346,7 @@ func hasTestVariant(pkg *packages.Package, pkgs []*packages.Package) bool {
 func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.Package, error) {
 	abspath, err := GetPkgAbsPath(pkgPath)
 	if err != nil {
-		gosec.logger.Printf("Skipping: %s. Path doesn't exist.", abspath)
+		gosec.logger.Printf("Skipping: %s. Path doesn't exist.", pkgPath)
 		return []*packages.Package{}, nil
 	}
 
-- 
2.43.0


From 45addb7b0d6ea418244d9f4c202736517d442c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:12 +0000
Subject: [PATCH 78/84] fix: ignore values of rules in the configuration which
 cannot be used instead of crashing

---
 rules/directory-traversal.go   | 13 ++++++-------
 rules/hardcoded_credentials.go | 13 +++++++------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/rules/directory-traversal.go b/rules/directory-traversal.go
index 914d42f..c867efb 100644
--- a/rules/directory-traversal.go
+++ b/rules/directory-traversal.go
@@ -55,18 +55,17 @@ func (r *traversal) matchCallExpr(assign *ast.CallExpr, ctx *gosec.Context) (*is
 
 // NewDirectoryTraversal attempts to find the use of http.Dir("/")
 func NewDirectoryTraversal(id string, conf gosec.Config) (gosec.Rule, []ast.Node) {
-	pattern := `http\.Dir\("\/"\)|http\.Dir\('\/'\)`
-	if val, ok := conf[id]; ok {
-		conf := val.(map[string]interface{})
-		if configPattern, ok := conf["pattern"]; ok {
-			if cfgPattern, ok := configPattern.(string); ok {
-				pattern = cfgPattern
+	pattern := regexp.MustCompile(`http\.Dir\("\/"\)|http\.Dir\('\/'\)`)
+	if conf, ok := conf[id].(map[string]interface{}); ok {
+		if cfgPattern, ok := conf["pattern"].(string); ok {
+			if compiled, err := regexp.Compile(cfgPattern); err == nil {
+				pattern = compiled
 			}
 		}
 	}
 
 	return &traversal{
-		pattern: regexp.MustCompile(pattern),
+		pattern: pattern,
 		MetaData: issue.MetaData{
 			ID:         id,
 			What:       "Potential directory traversal",
diff --git a/rules/hardcoded_credentials.go b/rules/hardcoded_credentials.go
index 458d41d..9e80e6f 100644
--- a/rules/hardcoded_credentials.go
+++ b/rules/hardcoded_credentials.go
@@ -342,16 +342,17 @@ func (r *credentials) matchEqualityCheck(binaryExpr *ast.BinaryExpr, ctx *gosec.
 // NewHardcodedCredentials attempts to find high entropy string constants being
 // assigned to variables that appear to be related to credentials.
 func NewHardcodedCredentials(id string, conf gosec.Config) (gosec.Rule, []ast.Node) {
-	pattern := `(?i)passwd|pass|password|pwd|secret|token|pw|apiKey|bearer|cred`
+	pattern := regexp.MustCompile(`(?i)passwd|pass|password|pwd|secret|token|pw|apiKey|bearer|cred`)
 	entropyThreshold := 80.0
 	perCharThreshold := 3.0
 	ignoreEntropy := false
 	truncateString := 16
-	if val, ok := conf[id]; ok {
-		conf := val.(map[string]interface{})
+	if conf, ok := conf[id].(map[string]interface{}); ok {
 		if configPattern, ok := conf["pattern"]; ok {
 			if cfgPattern, ok := configPattern.(string); ok {
-				pattern = cfgPattern
+				if compiled, err := regexp.Compile(cfgPattern); err == nil {
+					pattern = compiled
+				}
 			}
 		}
 
@@ -376,7 +377,7 @@ func NewHardcodedCredentials(id string, conf gosec.Config) (gosec.Rule, []ast.No
 		}
 		if configTruncate, ok := conf["truncate"]; ok {
 			if cfgTruncate, ok := configTruncate.(string); ok {
-				if parsedInt, err := strconv.Atoi(cfgTruncate); err == nil {
+				if parsedInt, err := strconv.Atoi(cfgTruncate); err == nil && parsedInt >= 0 {
 					truncateString = parsedInt
 				}
 			}
@@ -384,7 +385,7 @@ func NewHardcodedCredentials(id string, conf gosec.Config) (gosec.Rule, []ast.No
 	}
 
 	return &credentials{
-		pattern:          regexp.MustCompile(pattern),
+		pattern:          pattern,
 		entropyThreshold: entropyThreshold,
 		perCharThreshold: perCharThreshold,
 		ignoreEntropy:    ignoreEntropy,
-- 
2.43.0


From a9b7044783ec5785d1f346f7b24a1db463a57bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:12 +0000
Subject: [PATCH 79/84] fix: take excluded directories which are no regular
 expressions by their names instead of crashing

---
 helpers.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/helpers.go b/helpers.go
index 6a6e58e..133bcfa 100644
--- a/helpers.go
+++ b/helpers.go
@@ -517,8 +517,11 @@ func ExcludedDirsRegExp(excludedDirs []string) []*regexp.Regexp {
 	for _, excludedDir := range excludedDirs {
 		// match whole path elements only, however the directory is written
 		dir := strings.Trim(strings.TrimPrefix(filepath.ToSlash(excludedDir), "./"), "/")
-		str := fmt.Sprintf(`(^|[\\/])(?:%s)([\\/]|$)`, strings.ReplaceAll(dir, "/", `\/`))
-		r := regexp.MustCompile(str)
+		r, err := regexp.Compile(fmt.Sprintf(`(^|[\\/])(?:%s)([\\/]|$)`, strings.ReplaceAll(dir, "/", `\/`)))
+		if err != nil {
+			// not an expression but the name of a directory, such as c++
+			r = regexp.MustCompile(fmt.Sprintf(`(^|[\\/])%s([\\/]|$)`, regexp.QuoteMeta(dir)))
+		}
 		exps = append(exps, r)
 	}
 	return exps
-- 
2.43.0


From 7fc59a4fd20c5f813446f03d57b174110e759b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:31 +0000
Subject: [PATCH 80/84] fix: do not take a constant or type for the imported
 package of the same name

---
 helpers.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/helpers.go b/helpers.go
index 133bcfa..8da3ab9 100644
--- a/helpers.go
+++ b/helpers.go
@@ -196,9 +196,11 @@ func GetCallInfo(n ast.Node, ctx *Context) (string, string, error) {
 		case *ast.SelectorExpr:
 			switch expr := fn.X.(type) {
 			case *ast.Ident:
-				// The parser doesn't resolve the variables declared in other files of the package.
-				_, isVar := ctx.Info.ObjectOf(expr).(*types.Var)
-				if isVar || (expr.Obj != nil && expr.Obj.Kind == ast.Var) {
+				// The parser doesn't resolve the variables declared in other files of the package,
+				// and constants and types can have the name of an imported package, too.
+				obj := ctx.Info.ObjectOf(expr)
+				_, isPkg := obj.(*types.PkgName)
+				if (obj != nil && !isPkg) || (expr.Obj != nil && expr.Obj.Kind == ast.Var) {
 					t := ctx.Info.TypeOf(expr)
 					if t != nil {
 						return t.String(), fn.Sel.Name, nil
-- 
2.43.0


From 8d7adbc01d62240e2465178325e5f9a6b8453daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:21 +0000
Subject: [PATCH 81/84] fix: find calls of methods on elements, results,
 conversions and other expressions

---
 helpers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/helpers.go b/helpers.go
index 8da3ab9..1828680 100644
--- a/helpers.go
+++ b/helpers.go
@@ -244,6 +244,10 @@ func GetCallInfo(n ast.Node, ctx *Context) (string, string, error) {
 					}
 				}
 			}
+			// a method of any other expression, such as an element of a slice
+			if t := ctx.Info.TypeOf(fn.X); t != nil {
+				return t.String(), fn.Sel.Name, nil
+			}
 		case *ast.Ident:
 			return ctx.Pkg.Name(), fn.Name, nil
 		}
-- 
2.43.0


From 127d1bcfc5683a5d9e06cd6c8e7c1356ec560d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:51 +0000
Subject: [PATCH 82/84] fix: analyze the initializers and function literals of
 package variables

The SSA pass lists only declared functions and the function literals within
them, so that conversions, slice accesses and nonces in the initializer of a
package variable (like the functions of a table of commands) were missed.
---
 analyzer.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 1148ef4..5125ed1 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -36,6 +36,7 @@ import (
 	"golang.org/x/tools/go/analysis"
 	"golang.org/x/tools/go/analysis/passes/buildssa"
 	"golang.org/x/tools/go/packages"
+	"golang.org/x/tools/go/ssa"
 
 	"github.com/securego/gosec/v2/analyzers"
 	"github.com/securego/gosec/v2/issue"
@@ -559,7 +560,25 @@ func (gosec *Analyzer) buildSSA(pkg *packages.Package) (interface{}, error) {
 		AllPackageFacts:   nil,
 	}
 
-	return ssaPass.Analyzer.Run(ssaPass)
+	result, err := ssaPass.Analyzer.Run(ssaPass)
+	if ssaResult, ok := result.(*buildssa.SSA); ok && err == nil {
+		// The source functions given by the pass lack those of the package variables: the initializers and the function
+		// literals within them.
+		ssaResult.SrcFuncs = appendWithAnonFuncs(ssaResult.SrcFuncs, ssaResult.Pkg.Func("init"))
+	}
+	return result, err
+}
+
+// appendWithAnonFuncs appends a function followed by all the function literals it contains.
+func appendWithAnonFuncs(funcs []*ssa.Function, fn *ssa.Function) []*ssa.Function {
+	if fn == nil {
+		return funcs
+	}
+	funcs = append(funcs, fn)
+	for _, anon := range fn.AnonFuncs {
+		funcs = appendWithAnonFuncs(funcs, anon)
+	}
+	return funcs
 }
 
 // ParseErrors parses the errors from given package
-- 
2.43.0


From ff396849eb32f675d606ad8f7b9e5d66b5c4dbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:23 +0000
Subject: [PATCH 83/84] fix: a comparison with a variable does not accept one
 of several values

if x == 3 || x == y || x == 5 { ... } tells nothing about x, but silenced the
report of a conversion of x in the branch.
---
 analyzers/conversion_overflow.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 2070cbd..3193eec 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -381,7 +381,7 @@ func outcomeHolds(block *ssa.BasicBlock, succ int, instr *ssa.Convert) bool {
 	return len(next.Preds) == 1 && next.Dominates(instr.Block())
 }
 
-// isOneOfAcceptedValues tells whether the block ends with one of several equality checks of the converted value
+// isOneOfAcceptedValues tells whether the block ends with one of several equality checks of the converted value with constants
 // and the conversion is only reached when one of them holds.
 func isOneOfAcceptedValues(block *ssa.BasicBlock, instr *ssa.Convert) bool {
 	next := block.Succs[0]
@@ -393,7 +393,13 @@ func isOneOfAcceptedValues(block *ssa.BasicBlock, instr *ssa.Convert) bool {
 		if !ok || pred.Succs[0] != next {
 			return false
 		}
-		if binOp, ok := check.Cond.(*ssa.BinOp); !ok || binOp.Op != token.EQL || !isRangeCheck(binOp, instr.X) {
+		binOp, ok := check.Cond.(*ssa.BinOp)
+		if !ok || binOp.Op != token.EQL || !isRangeCheck(binOp, instr.X) {
+			return false
+		}
+		_, isConstX := binOp.X.(*ssa.Const)
+		_, isConstY := binOp.Y.(*ssa.Const)
+		if !isConstX && !isConstY {
 			return false
 		}
 	}
-- 
2.43.0


From c14b67a0d2f7aaf7eea899bf0da1a8b3e9009f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:48 +0000
Subject: [PATCH 84/84] fix: check slice accesses by constants of any integer
 type

s[uint8(5)] and s[k:] with a constant k of type int64 panic like s[5] and s[k:]
with an int, but only constants of type int were checked.
---
 analyzers/slice_bounds.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/analyzers/slice_bounds.go b/analyzers/slice_bounds.go
index 682a07c..2a6ae9f 100644
--- a/analyzers/slice_bounds.go
+++ b/analyzers/slice_bounds.go
@@ -17,10 +17,10 @@ package analyzers
 import (
 	"errors"
 	"fmt"
+	"go/constant"
 	"go/token"
 	"regexp"
 	"strconv"
-	"strings"
 
 	"golang.org/x/tools/go/analysis"
 	"golang.org/x/tools/go/analysis/passes/buildssa"
@@ -139,7 +139,7 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 									delete(issues, instr)
 								}
 							case *ssa.IndexAddr:
-								indexValue, err := extractIntValue(tinstr.Index.String())
+								indexValue, err := extractIntValue(tinstr.Index)
 								if err != nil {
 									break
 								}
@@ -191,7 +191,7 @@ func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa
 					trackSliceBounds(depth, newCap, refinstr, violations, ifs)
 				}
 			case *ssa.IndexAddr:
-				indexValue, err := extractIntValue(refinstr.Index.String())
+				indexValue, err := extractIntValue(refinstr.Index)
 				if err == nil && !isSliceIndexInsideBounds(0, sliceCap, indexValue) {
 					*violations = append(*violations, refinstr)
 				}
@@ -352,14 +352,14 @@ func isSliceInsideBounds(l, h int, cl, ch int) bool {
 func extractSliceBounds(slice *ssa.Slice) (int, int) {
 	var low int
 	if slice.Low != nil {
-		l, err := extractIntValue(slice.Low.String())
+		l, err := extractIntValue(slice.Low)
 		if err == nil {
 			low = l
 		}
 	}
 	var high int
 	if slice.High != nil {
-		h, err := extractIntValue(slice.High.String())
+		h, err := extractIntValue(slice.High)
 		if err == nil {
 			high = h
 		}
@@ -367,15 +367,13 @@ func extractSliceBounds(slice *ssa.Slice) (int, int) {
 	return low, high
 }
 
-func extractIntValue(value string) (int, error) {
-	parts := strings.Split(value, ":")
-	if len(parts) != 2 {
+// extractIntValue gives the value of an integer constant, which may be of any integer type.
+func extractIntValue(value ssa.Value) (int, error) {
+	constVal, ok := value.(*ssa.Const)
+	if !ok || constVal.Value == nil || constVal.Value.Kind() != constant.Int {
 		return 0, fmt.Errorf("invalid value: %s", value)
 	}
-	if parts[1] != "int" {
-		return 0, fmt.Errorf("invalid value: %s", value)
-	}
-	return strconv.Atoi(parts[0])
+	return strconv.Atoi(constVal.Value.ExactString())
 }
 
 func extractSliceCapFromAlloc(instr string) (int, error) {
-- 
2.43.0

