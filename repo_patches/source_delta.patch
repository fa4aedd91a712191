From 7a38e5d7b089c166a206d587b5ba8b8484b9aa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 01/32] fix: encode the tail of an unaligned partial byte with
 the right shift

---
 generator/target/c/c.go               |  7 +++----
 generator/target/commonjs/commonjs.go | 10 ++++------
 generator/target/cpp/cpp.go           |  7 +++----
 generator/target/csharp/csharp.go     |  7 +++----
 generator/target/esm/esm.go           |  6 ++----
 generator/target/esm/esm_encode.go    |  2 +-
 generator/target/java/java.go         |  7 +++----
 7 files changed, 19 insertions(+), 27 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 9607dab..c109b41 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -239,8 +239,7 @@ static void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
             int64_t next_j = (j + 8) & ~(int64_t)7;
             if (next_j > end) next_j = end;
             uint64_t field_mask = ((((uint64_t)1) << (((next_j - 1) & 7) + 1)) - 1) & ~(((uint64_t)1 << (j & 7)) - 1);
-            int shift_left = (int)(8 - (next_j & 7));
-            if ((next_j & 7) == 0) shift_left = 8;
+            int shift_left = (int)(j - begin);
             int64_t src_byte_index = j / 8;
             int64_t src_shift;
             if (big_endian) {
@@ -2208,8 +2207,8 @@ func (g CGenerator) generateEncodeImpl(from, to int64, fieldData func(int64) str
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := j - begin
+			// expr = expr | (fieldData(j/8) & fieldMask) << (j - begin)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index d129125..18165ae 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -543,8 +543,7 @@ var fileTemplate = `
                 var nextJ2 = (j + 8) & ~7;
                 if (nextJ2 > end) nextJ2 = end;
                 var fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-                var shiftLeft2 = 8 - (nextJ2 & 7);
-                if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+                var shiftLeft2 = j - begin;
                 var srcByteIndex2 = (j / 8) | 0;
                 var srcShift2;
                 if (bigEndian) {
@@ -900,8 +899,7 @@ var fileTemplate = `
                 var nextJ2 = (j + 8) & ~7;
                 if (nextJ2 > end) nextJ2 = end;
                 var fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-                var shiftLeft2 = 8 - (nextJ2 & 7);
-                if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+                var shiftLeft2 = j - begin;
                 var srcByteIndex2 = (j / 8) | 0;
                 var srcShift2;
                 if (bigEndian) {
@@ -2529,8 +2527,8 @@ func (g CommonJSGenerator) generateEncodeImpl(from, to int64, fieldData func(int
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := j - begin
+			// expr = expr | (fieldData(j/8) & fieldMask) << (j - begin)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 15e7b44..58b607d 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -240,8 +240,7 @@ inline void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
             int64_t next_j = (j + 8) & ~(int64_t)7;
             if (next_j > end) next_j = end;
             uint64_t field_mask = ((((uint64_t)1) << (((next_j - 1) & 7) + 1)) - 1) & ~(((uint64_t)1 << (j & 7)) - 1);
-            int shift_left = (int)(8 - (next_j & 7));
-            if ((next_j & 7) == 0) shift_left = 8;
+            int shift_left = (int)(j - begin);
             int64_t src_byte_index = j / 8;
             int64_t src_shift;
             if (big_endian) {
@@ -2353,8 +2352,8 @@ func (g CppGenerator) generateEncodeImpl(from, to int64, fieldData func(int64) s
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := j - begin
+			// expr = expr | (fieldData(j/8) & fieldMask) << (j - begin)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index fbe7c4d..8ecf498 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -522,8 +522,7 @@ var structTemplate = `
                     long nextJ = (j + 8) & ~(long)7;
                     if (nextJ > end) nextJ = end;
                     ulong fieldMask = ((1UL << (int)(((nextJ - 1) & 7) + 1)) - 1UL) & ~(((ulong)1 << (int)(j & 7)) - 1UL);
-                    int shiftLeft = (int)(8 - (nextJ & 7));
-                    if ((nextJ & 7) == 0) shiftLeft = 8;
+                    int shiftLeft = (int)(j - begin);
                     long srcByteIndex = j / 8;
                     long srcShift;
                     if (bigEndian) {
@@ -2046,8 +2045,8 @@ func (g CSharpGenerator) generateEncodeImpl(from, to int64, fieldData func(int64
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := j - begin
+			// expr = expr | (fieldData(j/8) & fieldMask) << (j - begin)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 7a4635a..07ece11 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -502,8 +502,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
             let nextJ2 = (j + 8) & ~7;
             if (nextJ2 > end) nextJ2 = end;
             const fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-            let shiftLeft2 = 8 - (nextJ2 & 7);
-            if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+            const shiftLeft2 = j - begin;
             const srcByteIndex2 = (j / 8) | 0;
             let srcShift2;
             if (bigEndian) {
@@ -825,8 +824,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
             let nextJ2 = (j + 8) & ~7;
             if (nextJ2 > end) nextJ2 = end;
             const fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-            let shiftLeft2 = 8 - (nextJ2 & 7);
-            if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+            const shiftLeft2 = j - begin;
             const srcByteIndex2 = (j / 8) | 0;
             let srcShift2;
             if (bigEndian) {
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 98ebb74..dd1aec9 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -667,7 +667,7 @@ func (g ESModuleGenerator) generateEncodeImpl(from, to int64, fieldData func(int
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
+			shiftLeft := j - begin
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 6c4e7fb..138d540 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -460,8 +460,7 @@ var structTemplate = `
                 long nextJ = (j + 8) & ~7L;
                 if (nextJ > end) nextJ = end;
                 long fieldMask = ((1L << (((nextJ - 1) & 7) + 1)) - 1L) & ~((1L << (j & 7)) - 1L);
-                int shiftLeft = (int)(8 - (nextJ & 7));
-                if ((nextJ & 7) == 0) shiftLeft = 8;
+                int shiftLeft = (int)(j - begin);
                 long srcByteIndex = j / 8;
                 long srcShift;
                 if (bigEndian) {
@@ -2013,8 +2012,8 @@ func (g JavaGenerator) generateEncodeImpl(from, to int64, fieldData func(int64)
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := j - begin
+			// expr = expr | (fieldData(j/8) & fieldMask) << (j - begin)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
-- 
2.43.0


From e7a36f4fc4b395ca51d6d7c7fc40f5fb6ae7633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 02/32] fix: Go loop over nested structs after a dynamic field
 compiles

---
 generator/target/golang/golang.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 0f19679..530bced 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -1647,7 +1647,7 @@ func (g GoGenerator) generateEncodeNormalField(field *definition.NormalField, st
 				byteBase := from / 8
 				offsetExpr := fmt.Sprintf("%d+_i*%d", byteBase, elemBitSize/8)
 				if structDynamic {
-					offsetExpr = "offset+" + offsetExpr
+					offsetExpr = g.generateCastExpr(&definition.Int64, "offset") + "+" + offsetExpr
 				}
 				_ = elemTyT
 				common["DataExpr"] = fmt.Sprintf("data[%s:]", offsetExpr)
@@ -2535,7 +2535,7 @@ func (g GoGenerator) generateDecodeNormalField(field *definition.NormalField, st
 				byteBase := from / 8
 				offsetExpr := fmt.Sprintf("%d+_i*%d", byteBase, elemBitSize/8)
 				if structDynamic {
-					offsetExpr = "offset+" + offsetExpr
+					offsetExpr = g.generateCastExpr(&definition.Int64, "offset") + "+" + offsetExpr
 				}
 				common["DataExpr"] = fmt.Sprintf("data[%s:]", offsetExpr)
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopStruct", nil, common)
-- 
2.43.0


From d5ab378c9116a57bbc6a16ed6d4528766d1815c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 03/32] fix: Python decode groups the parts of an unaligned
 byte before shifting

---
 generator/target/python/python.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index a8715ff..30dae1d 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2409,6 +2409,9 @@ func (g PythonGenerator) generateDecodeImpl(from, to int64, fieldProcessor func(
 			consumed += partSize
 		}
 		exprStr := strings.Join(parts, " | ")
+		if len(parts) > 1 {
+			exprStr = "(" + exprStr + ")"
+		}
 		decodeStmt := fieldProcessor(exprStr, fieldFrom/8)
 		decodeStmts = append(decodeStmts, decodeStmt)
 	}
-- 
2.43.0


From 9b15206faab8182f5b5729476466140b30e1a07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 04/32] fix: JavaScript decode of 32-bit wide uint32 and int64
 fields

---
 generator/target/commonjs/commonjs.go | 14 +++++++++++++-
 generator/target/esm/esm_decode.go    | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 18165ae..46da9a8 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3001,6 +3001,10 @@ var fieldDecoderTemplate = `
     {{ .FieldName }} = (({{ .FieldName }}) ^ {{ .SignMask }}) - {{ .SignMask }};
 {{- end -}}
 
+{{- define "unsignedLogic" -}}
+    {{ .FieldName }} = {{ .FieldName }} >>> 0;
+{{- end -}}
+
 {{- define "signExtendLogic" -}}
     {{ .FieldName }} = ({{ .FieldName }} >>> {{ .SignShift }}) ? -(~{{ .FieldName }} + 1) : {{ .FieldName }};
 {{- end -}}
@@ -3519,6 +3523,14 @@ func (g CommonJSGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			decodeStmts = append(decodeStmts, stmt)
 		}
 
+		// bitwise operators yield signed 32-bit numbers, convert back to unsigned
+		if ty.GetTypeID().IsUint() && fieldBitSize == 32 && ty.GetTypeBitSize() == 32 {
+			stmt := util.ExecuteTemplate(fieldDecoderTemplate, "unsignedLogic", nil, map[string]any{
+				"FieldName": fieldNameStr,
+			})
+			decodeStmts = append(decodeStmts, stmt)
+		}
+
 		// set sign bit
 		if ty.GetTypeID().IsInt() {
 			originFromBitSize := fieldBitSize
@@ -3526,7 +3538,7 @@ func (g CommonJSGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			switch g.GenCtx.GenOptions.SignExtMethod {
 			case gen.SignExtMethodDefault, gen.SignExtMethodShift, gen.SignExtMethodArith:
 				// special case: sign extension for 32-bit integer
-				if originFromBitSize == 32 {
+				if originFromBitSize == 32 && ty.GetTypeBitSize() == 32 {
 					signShift := originFromBitSize - 1
 					signShiftStr := generateDec(signShift)
 					signExtendData := map[string]any{
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 9797a9f..b2d2e5a 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -405,6 +405,10 @@ var fieldDecoderTemplate = `
     {{ .FieldName }} = (({{ .FieldName }}) ^ {{ .SignMask }}) - {{ .SignMask }};
 {{- end -}}
 
+{{- define "unsignedLogic" -}}
+    {{ .FieldName }} = {{ .FieldName }} >>> 0;
+{{- end -}}
+
 {{- define "signExtendLogic" -}}
     {{ .FieldName }} = ({{ .FieldName }} >>> {{ .SignShift }}) ? -(~{{ .FieldName }} + 1) : {{ .FieldName }};
 {{- end -}}
@@ -769,11 +773,19 @@ func (g ESModuleGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			decodeStmts = append(decodeStmts, stmt)
 		}
 
+		// bitwise operators yield signed 32-bit numbers, convert back to unsigned
+		if ty.GetTypeID().IsUint() && fieldBitSize == 32 && ty.GetTypeBitSize() == 32 {
+			stmt := util.ExecuteTemplate(fieldDecoderTemplate, "unsignedLogic", nil, map[string]any{
+				"FieldName": fieldNameStr,
+			})
+			decodeStmts = append(decodeStmts, stmt)
+		}
+
 		if ty.GetTypeID().IsInt() {
 			originFromBitSize := fieldBitSize
 			switch g.GenCtx.GenOptions.SignExtMethod {
 			case gen.SignExtMethodDefault, gen.SignExtMethodShift, gen.SignExtMethodArith:
-				if originFromBitSize == 32 {
+				if originFromBitSize == 32 && ty.GetTypeBitSize() == 32 {
 					stmt := util.ExecuteTemplate(fieldDecoderTemplate, "signExtendLogic", nil, map[string]any{
 						"FieldName": fieldNameStr, "SignShift": generateDec(originFromBitSize - 1),
 					})
-- 
2.43.0


From 91765b61258353f4866d223ec0959a4a33d93f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:04 +0000
Subject: [PATCH 05/32] fix: Java array loops honour the start offset

---
 generator/target/java/java.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 138d540..10377db 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1678,7 +1678,7 @@ func (g JavaGenerator) generateEncodeNormalField(field *definition.NormalField,
 			// Fixed-bit-width element loop using bbWriteFieldBits.
 			bigEndianStr := g.generateBoolLiteral(gen.MatchOption(field.FieldOptions, "order", "big"))
 
-			bitBaseExpr := fmt.Sprintf("%d + _i * %dL", from, elemBitSize)
+			bitBaseExpr := fmt.Sprintf("start * 8L + %d + _i * %dL", from, elemBitSize)
 			if structDynamic {
 				bitBaseExpr = g.generateCastExpr(&definition.Int64, "offset") + " * 8 + (" + bitBaseExpr + ")"
 			}
@@ -1695,7 +1695,7 @@ func (g JavaGenerator) generateEncodeNormalField(field *definition.NormalField,
 			switch elemTyT := ty.ElementType.(type) {
 			case *definition.Struct:
 				byteBase := from / 8
-				offsetExpr := fmt.Sprintf("%d + _i * %d", byteBase, elemBitSize/8)
+				offsetExpr := fmt.Sprintf("start + %d + _i * %d", byteBase, elemBitSize/8)
 				if structDynamic {
 					offsetExpr = "offset + " + offsetExpr
 				}
@@ -2715,7 +2715,7 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 			// Fixed-bit-width element loop using bbReadFieldBits.
 			bigEndianStr := g.generateBoolLiteral(gen.MatchOption(field.FieldOptions, "order", "big"))
 
-			bitBaseExpr := fmt.Sprintf("%d + _i * %dL", from, elemBitSize)
+			bitBaseExpr := fmt.Sprintf("start * 8L + %d + _i * %dL", from, elemBitSize)
 			if structDynamic {
 				bitBaseExpr = g.generateCastExpr(&definition.Int64, "offset") + " * 8 + (" + bitBaseExpr + ")"
 			}
@@ -2732,7 +2732,7 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 			switch elemTyT := ty.ElementType.(type) {
 			case *definition.Struct:
 				byteBase := from / 8
-				offsetExpr := fmt.Sprintf("%d + _i * %d", byteBase, elemBitSize/8)
+				offsetExpr := fmt.Sprintf("start + %d + _i * %d", byteBase, elemBitSize/8)
 				if structDynamic {
 					offsetExpr = "offset + " + offsetExpr
 				}
-- 
2.43.0


From 380948da0046f04f0482a097af739a2bbe422aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 06/32] fix: ES module helpers for arrays of floats and strings
 are emitted

---
 generator/target/esm/esm.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 07ece11..dafb6f1 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1086,12 +1086,12 @@ func (g ESModuleGenerator) GenerateArray(array *definition.Array) (string, error
 }
 
 func (g ESModuleGenerator) GenerateArrayDefaultValue(array *definition.Array) (string, error) {
+	elemDefValue, err := g.GenerateTypeDefaultValue(array.ElementType)
+	if err != nil {
+		return "", err
+	}
 	if array.ElementType.GetTypeID().IsStruct() {
 		g.GenState.UseStructArray = true
-		elemDefValue, err := g.GenerateTypeDefaultValue(array.ElementType)
-		if err != nil {
-			return "", err
-		}
 		length := g.generateDec(array.Length)
 		return fmt.Sprintf("createArray(%s, function() { return %s; })", length, elemDefValue), nil
 	}
-- 
2.43.0


From 18b2019cbdf4cd3ed9da1ddbe721bf8727144edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 07/32] fix: constant fields that are signed, float, bool or
 narrower than their type

---
 generator/gen/gen_util.go             | 69 +++++++++++++++++++++++++++
 generator/target/c/c.go               | 24 ++++------
 generator/target/commonjs/commonjs.go | 28 +++++------
 generator/target/cpp/cpp.go           | 24 ++++------
 generator/target/csharp/csharp.go     | 24 ++++------
 generator/target/esm/esm_decode.go    | 13 ++++-
 generator/target/esm/esm_encode.go    | 14 ++----
 generator/target/golang/golang.go     | 24 ++++------
 generator/target/java/java.go         | 24 ++++------
 generator/target/python/python.go     | 24 ++++------
 10 files changed, 150 insertions(+), 118 deletions(-)

diff --git a/generator/gen/gen_util.go b/generator/gen/gen_util.go
index 1c5274e..0da670e 100644
--- a/generator/gen/gen_util.go
+++ b/generator/gen/gen_util.go
@@ -1,6 +1,10 @@
 package gen
 
 import (
+	"bytes"
+	"encoding/binary"
+	"fmt"
+
 	"github.com/xaxys/bubbler/definition"
 	"github.com/xaxys/bubbler/util"
 )
@@ -15,3 +19,68 @@ func MatchOption(options *util.OrderedMap[string, *definition.Option], name stri
 	}
 	return option.OptionValue.GetLiteralValue() == value
 }
+
+// ConstantFieldBits returns the bits a constant field puts on the wire, as an
+// unsigned number of the field's width.
+func ConstantFieldBits(field *definition.ConstantField) (uint64, error) {
+	buffer := &bytes.Buffer{}
+	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
+	if err := binary.Write(buffer, binary.LittleEndian, value); err != nil {
+		return 0, fmt.Errorf("internal error: %s", err)
+	}
+	data := make([]byte, 8)
+	copy(data, buffer.Bytes())
+	bits := binary.LittleEndian.Uint64(data)
+	if size := field.GetFieldBitSize(); size < 64 {
+		bits &= uint64(1)<<size - 1
+	}
+	return bits, nil
+}
+
+// ConstantFieldBytes splits the bits of a constant field into the chunks of up
+// to 8 bits in which they are written, in the field's byte order.
+func ConstantFieldBytes(field *definition.ConstantField) ([]byte, error) {
+	bits, err := ConstantFieldBits(field)
+	if err != nil {
+		return nil, err
+	}
+	size := field.GetFieldBitSize()
+	data := []byte{}
+	for i := int64(0); i < size; i += 8 {
+		shift := i
+		if MatchOption(field.FieldOptions, "order", "big") {
+			shift = max(0, size-i-8)
+		}
+		data = append(data, byte(bits>>shift))
+	}
+	return data, nil
+}
+
+// ConstantFieldLiteral returns the unsigned literal a decoded constant field
+// is compared with.
+func ConstantFieldLiteral(field *definition.ConstantField) (*definition.IntLiteral, error) {
+	bits, err := ConstantFieldBits(field)
+	if err != nil {
+		return nil, err
+	}
+	lit := &definition.IntLiteral{IntValue: int64(bits), Unsigned: true, Base: definition.IntBaseHex}
+	if l, ok := field.FieldConstant.(*definition.IntLiteral); ok {
+		lit.Base = l.Base
+	}
+	return lit, nil
+}
+
+// ConstantFieldWireType returns the unsigned type that holds the bits of a
+// constant field.
+func ConstantFieldWireType(field *definition.ConstantField) *definition.BasicType {
+	switch size := field.GetFieldBitSize(); {
+	case size <= 8:
+		return &definition.Uint8
+	case size <= 16:
+		return &definition.Uint16
+	case size <= 32:
+		return &definition.Uint32
+	default:
+		return &definition.Uint64
+	}
+}
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index c109b41..f3e0151 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -1,8 +1,6 @@
 package c
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1745,19 +1743,10 @@ func (g CGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldBytes(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -2676,6 +2665,7 @@ func (g CGenerator) generateDecodeConstantField(field *definition.ConstantField,
 	fieldSize := (fieldBitSize + 7) / 8
 	tySize := util.HighBit(fieldSize)
 	tyUint := typeSizeToUintStr(tySize * 8)
+	tempTy := gen.ConstantFieldWireType(field)
 	tempName := g.generateDecodeTempVarName(startBits)
 
 	decodeNormalFieldTempVarDeclData := map[string]any{
@@ -2688,14 +2678,18 @@ func (g CGenerator) generateDecodeConstantField(field *definition.ConstantField,
 	from := startBits
 	to := startBits + fieldBitSize
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literal, err := gen.ConstantFieldLiteral(field)
+	if err != nil {
+		return nil, err
+	}
+	literalValue, err := g.literalGen().GenerateLiteral(literal)
 	if err != nil {
 		return nil, err
 	}
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 46da9a8..ba82946 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -1,8 +1,6 @@
 package commonjs
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"math"
 	"strings"
@@ -2017,19 +2015,10 @@ func (g CommonJSGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CommonJSGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldBytes(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -3047,6 +3036,7 @@ func (g CommonJSGenerator) generateDecodeConstantField(field *definition.Constan
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
+	tempTy := gen.ConstantFieldWireType(field)
 	tempName := g.generateDecodeTempVarName(startBits)
 	decodeNormalFieldTempVarDeclData := map[string]any{
 		"TempName": tempName,
@@ -3057,17 +3047,25 @@ func (g CommonJSGenerator) generateDecodeConstantField(field *definition.Constan
 	from := startBits
 	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literal, err := gen.ConstantFieldLiteral(field)
 	if err != nil {
 		return nil, err
 	}
+	literalValue, err := g.literalGen().GenerateLiteral(literal)
+	if err != nil {
+		return nil, err
+	}
+	literalValue = strings.TrimSuffix(literalValue, "n")
+	if tempTy.GetTypeBitSize() > 32 {
+		literalValue += "n"
+	}
 
 	decodeConstantFieldData := map[string]any{
 		"TempName":      tempName,
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 58b607d..0076f45 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1,8 +1,6 @@
 package cpp
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1885,19 +1883,10 @@ func (g CppGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CppGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldBytes(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -2927,6 +2916,7 @@ func (g CppGenerator) generateDecodeConstantField(field *definition.ConstantFiel
 	fieldSize := (fieldBitSize + 7) / 8
 	tySize := util.HighBit(fieldSize)
 	tyUint := typeSizeToUintStr(tySize * 8)
+	tempTy := gen.ConstantFieldWireType(field)
 	tempName := g.generateDecodeTempVarName(startBits)
 
 	decodeNormalFieldTempVarDeclData := map[string]any{
@@ -2939,14 +2929,18 @@ func (g CppGenerator) generateDecodeConstantField(field *definition.ConstantFiel
 	from := startBits
 	to := startBits + fieldBitSize
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literal, err := gen.ConstantFieldLiteral(field)
+	if err != nil {
+		return nil, err
+	}
+	literalValue, err := g.literalGen().GenerateLiteral(literal)
 	if err != nil {
 		return nil, err
 	}
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 8ecf498..5a8084f 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1,8 +1,6 @@
 package csharp
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1505,19 +1503,10 @@ func (g CSharpGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CSharpGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldBytes(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -2731,6 +2720,7 @@ func (g CSharpGenerator) generateDecodeConstantField(field *definition.ConstantF
 	fieldSize := (fieldBitSize + 7) / 8
 	tySize := util.HighBit(fieldSize)
 	tyUint := typeSizeToUintStr(tySize * 8)
+	tempTy := gen.ConstantFieldWireType(field)
 	tempName := g.generateDecodeTempVarName(startBits)
 
 	decodeNormalFieldTempVarDeclData := map[string]any{
@@ -2743,14 +2733,18 @@ func (g CSharpGenerator) generateDecodeConstantField(field *definition.ConstantF
 	from := startBits
 	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literal, err := gen.ConstantFieldLiteral(field)
+	if err != nil {
+		return nil, err
+	}
+	literalValue, err := g.literalGen().GenerateLiteral(literal)
 	if err != nil {
 		return nil, err
 	}
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index b2d2e5a..a537545 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -442,17 +442,26 @@ func (g ESModuleGenerator) generateDecodeStructFieldName(name string) string {
 func (g ESModuleGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
+	tempTy := gen.ConstantFieldWireType(field)
 	tempName := g.generateDecodeTempVarName(startBits)
 	decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, map[string]any{"TempName": tempName}))
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, startBits, startBits+field.GetFieldBitSize())
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, startBits, startBits+field.GetFieldBitSize())
 	if err != nil {
 		return nil, err
 	}
 	decodeStmts = append(decodeStmts, stmts...)
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literal, err := gen.ConstantFieldLiteral(field)
 	if err != nil {
 		return nil, err
 	}
+	literalValue, err := g.literalGen().GenerateLiteral(literal)
+	if err != nil {
+		return nil, err
+	}
+	literalValue = strings.TrimSuffix(literalValue, "n")
+	if tempTy.GetTypeBitSize() > 32 {
+		literalValue += "n"
+	}
 	checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, map[string]any{"TempName": tempName, "ConstantValue": literalValue})
 	decodeStmts = append(decodeStmts, checkStr)
 	return decodeStmts, nil
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index dd1aec9..48f904e 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -1,8 +1,6 @@
 package esm
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 
@@ -320,16 +318,10 @@ func (g ESModuleGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g ESModuleGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
+	data, err := gen.ConstantFieldBytes(field)
+	if err != nil {
+		return nil, err
 	}
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	if err := binary.Write(buffer, byteOrder, value); err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
-	}
-	data := buffer.Bytes()
 	fieldData := func(i int64) string { return g.generateHex(data[i]) }
 	return g.generateEncodeImpl(startBits, startBits+field.GetFieldBitSize(), fieldData, g.generateBin, g.generateDec, false, structDynamic), nil
 }
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 530bced..7a05e10 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -1,8 +1,6 @@
 package golang
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1467,19 +1465,10 @@ func (g GoGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g GoGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldBytes(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -2345,6 +2334,7 @@ func (g GoGenerator) generateDecodeConstantField(field *definition.ConstantField
 	fieldSize := (fieldBitSize + 7) / 8
 	tySize := util.HighBit(fieldSize)
 	tyUint := typeSizeToUintStr(tySize * 8)
+	tempTy := gen.ConstantFieldWireType(field)
 	tempName := g.generateDecodeTempVarName(startBits)
 
 	decodeNormalFieldTempVarDeclData := map[string]any{
@@ -2357,14 +2347,18 @@ func (g GoGenerator) generateDecodeConstantField(field *definition.ConstantField
 	from := startBits
 	to := startBits + fieldBitSize
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literal, err := gen.ConstantFieldLiteral(field)
+	if err != nil {
+		return nil, err
+	}
+	literalValue, err := g.literalGen().GenerateLiteral(literal)
 	if err != nil {
 		return nil, err
 	}
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 10377db..a15379a 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1,8 +1,6 @@
 package java
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"math"
 	"strings"
@@ -1488,19 +1486,10 @@ func (g JavaGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g JavaGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldBytes(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -2478,6 +2467,7 @@ func (g JavaGenerator) generateDecodeConstantField(field *definition.ConstantFie
 	fieldSize := (fieldBitSize + 7) / 8
 	tySize := util.HighBit(fieldSize)
 	tyUint := typeSizeToUintStr(tySize * 8)
+	tempTy := gen.ConstantFieldWireType(field)
 	tempName := g.generateDecodeTempVarName(startBits)
 
 	decodeNormalFieldTempVarDeclData := map[string]any{
@@ -2490,14 +2480,18 @@ func (g JavaGenerator) generateDecodeConstantField(field *definition.ConstantFie
 	from := startBits
 	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literal, err := gen.ConstantFieldLiteral(field)
+	if err != nil {
+		return nil, err
+	}
+	literalValue, err := g.literalGen().GenerateLiteral(literal)
 	if err != nil {
 		return nil, err
 	}
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 30dae1d..6b38cc5 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -1,8 +1,6 @@
 package python
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1157,19 +1155,10 @@ func (g PythonGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g PythonGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldBytes(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -1958,19 +1947,24 @@ func (g PythonGenerator) generateDecodeConstantField(field *definition.ConstantF
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
+	tempTy := gen.ConstantFieldWireType(field)
 	tempName := g.generateDecodeTempVarName(startBits)
 
 	from := startBits
 	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literal, err := gen.ConstantFieldLiteral(field)
+	if err != nil {
+		return nil, err
+	}
+	literalValue, err := g.literalGen().GenerateLiteral(literal)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 22bd1946552f6f74c9c94ce746ac4a51884220e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:10 +0000
Subject: [PATCH 08/32] fix: Kotlin negative float literals keep their sign in
 member calls

---
 generator/target/kotlin/kotlin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index a30193d..a353922 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -589,6 +589,9 @@ func (g *KotlinGenerator) literalForType(lit definition.Literal, ty *definition.
 		if ty.GetTypeID() == definition.TypeID_Float32 {
 			s += "f"
 		}
+		if strings.HasPrefix(s, "-") {
+			s = "(" + s + ")"
+		}
 		return s, nil
 	case *definition.IntLiteral:
 		resolved := *v
-- 
2.43.0


From 2c244840bab460ce4044e1d8fa8fd96b2184fb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:09 +0000
Subject: [PATCH 09/32] fix: a nested variable-length struct is sized and
 placed as a dynamic field

---
 definition/struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/definition/struct.go b/definition/struct.go
index 1684b7c..d297678 100644
--- a/definition/struct.go
+++ b/definition/struct.go
@@ -43,6 +43,9 @@ func (s Struct) GetTypeName() string {
 }
 
 func (s Struct) GetTypeBitSize() int64 {
+	if s.StructDynamic {
+		return -1
+	}
 	return s.StructBitSize
 }
 
-- 
2.43.0


From ba99ab3c40ddb49e4cba334193b12304827e1516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 10/32] fix: anonymous constants produce no member

---
 generator/target/commonjs/commonjs.go | 4 ++++
 generator/target/csharp/csharp.go     | 4 ++++
 generator/target/esm/esm.go           | 4 ++++
 generator/target/java/java.go         | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index ba82946..995280a 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -1471,6 +1471,10 @@ var constantFieldTemplate = `
 `
 
 func (g CommonJSGenerator) GenerateConstantField(field *definition.ConstantField) (string, error) {
+	if field.FieldName == "" {
+		return "", nil // an anonymous constant only exists on the wire
+	}
+
 	literalGentor := g.literalGen()
 
 	funcMap := template.FuncMap{
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 5a8084f..cb554b4 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -837,6 +837,10 @@ var constantFieldTemplate = `
 `
 
 func (g CSharpGenerator) GenerateConstantField(field *definition.ConstantField) (string, error) {
+	if field.FieldName == "" {
+		return "", nil // an anonymous constant only exists on the wire
+	}
+
 	literalGentor := g.literalGen()
 
 	funcMap := template.FuncMap{
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index dafb6f1..00b303c 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1310,6 +1310,10 @@ var constantFieldTemplate = `
 `
 
 func (g ESModuleGenerator) GenerateConstantField(field *definition.ConstantField) (string, error) {
+	if field.FieldName == "" {
+		return "", nil // an anonymous constant only exists on the wire
+	}
+
 	literalGentor := g.literalGen()
 	funcMap := template.FuncMap{
 		"GenerateType":    g.GenerateType,
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index a15379a..e406b13 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -789,6 +789,10 @@ var constantFieldTemplate = `
 `
 
 func (g JavaGenerator) GenerateConstantField(field *definition.ConstantField) (string, error) {
+	if field.FieldName == "" {
+		return "", nil // an anonymous constant only exists on the wire
+	}
+
 	literalGentor := g.literalGen()
 
 	funcMap := template.FuncMap{
-- 
2.43.0


From eab68aebfb71197900f4b8db7e435525a1a941f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 11/32] fix: C# arithmetic sign extension skips full-width
 integers

---
 generator/target/csharp/csharp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index cb554b4..0766ef1 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -3267,7 +3267,7 @@ func (g CSharpGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fiel
 		decodeStmts = append(decodeStmts, g.generateDecodeImpl(from, to, fieldProcessor, dataDataFunc)...)
 
 		// set sign bit
-		if ty.GetTypeID().IsInt() {
+		if ty.GetTypeID().IsInt() && ty.GetTypeBitSize() > fieldBitSize {
 			originFromBitSize := fieldBitSize
 
 			switch g.GenCtx.GenOptions.SignExtMethod {
-- 
2.43.0


From 1392299349b0cfea84166364b691cad870d60b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 12/32] fix: decode_size rejects lengths that overflow, and
 short data before nested structs

---
 generator/target/c/c.go                  | 10 ++++++--
 generator/target/cpp/cpp.go              | 16 +++++++++----
 generator/target/csharp/csharp.go        | 30 +++++++++++++++++++-----
 generator/target/golang/golang.go        | 12 +++++-----
 generator/target/java/java.go            |  9 +++++++
 generator/target/kotlin/kotlin_decode.go |  3 ++-
 6 files changed, 60 insertions(+), 20 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index f3e0151..98d98b6 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -2324,11 +2324,13 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         uint64_t len = 0;
         uint8_t shift = 0;
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
+            if (shift >= 56) return -1;
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
+        if (shift >= 56) return -1;
         len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
         offset++;
         if (size < offset + {{ $fromByte }} + len) return -(int64_t)(offset + {{ $fromByte }} + len);
@@ -2341,11 +2343,13 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         uint64_t len = 0;
         uint8_t shift = 0;
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
+            if (shift >= 56) return -1;
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
+        if (shift >= 56) return -1;
         len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
         offset++;
         if (size < offset + {{ $fromByte }} + len) return -(int64_t)(offset + {{ $fromByte }} + len);
@@ -2390,11 +2394,13 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         uint64_t len = 0;
         uint8_t shift = 0;
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
+            if (shift >= 56) return -1;
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
+        if (shift >= 56) return -1;
         len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
         offset++;
         if (size < offset + {{ $fromByte }} + len) return -(int64_t)(offset + {{ $fromByte }} + len);
@@ -2568,8 +2574,8 @@ var fieldDecoderTemplate = `
     {
         uint64_t {{ .TempName }} = 0;
         {{ .TyUint8 }} shift = 0;
-        while (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
-        {{ .TempName }} |= (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
+        while (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (uint64_t)(((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
+        {{ .TempName }} |= (uint64_t)(((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
         {{ .FieldName }}.length = {{ .TempName }};
         {{ if .MemoryCopy -}}
         {{ .FieldName }}.data = ({{ .TyUint8 }}*)malloc({{ .TempName }});
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 0076f45..9a7702b 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2486,11 +2486,13 @@ var decoderTemplate = `
             uint64_t len = 0;
             uint8_t shift = 0;
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
+                if (shift >= 56) return -1;
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
+            if (shift >= 56) return -1;
             len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             offset++;
             if (size < offset + {{ $fromByte }} + len) return -static_cast<int64_t>(offset + {{ $fromByte }} + len);
@@ -2503,11 +2505,13 @@ var decoderTemplate = `
             uint64_t len = 0;
             uint8_t shift = 0;
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
+                if (shift >= 56) return -1;
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
+            if (shift >= 56) return -1;
             len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             offset++;
             if (size < offset + {{ $fromByte }} + len) return -static_cast<int64_t>(offset + {{ $fromByte }} + len);
@@ -2561,18 +2565,20 @@ var decoderTemplate = `
             uint64_t len = 0;
             uint8_t shift = 0;
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
+                if (shift >= 56) return -1;
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
+            if (shift >= 56) return -1;
             len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             offset++;
             if (size < offset + {{ $fromByte }} + len) return -static_cast<int64_t>(offset + {{ $fromByte }} + len);
             offset += len;
         }
 {{- else if $f.FieldType.GetTypeID.IsStruct -}}
-    {{- $structType := $f.FieldType.ElementType -}}
+    {{- $structType := $f.FieldType -}}
     {{- if $structType.GetTypeDynamic }}
         {   // {{ $f }}
             uint64_t sub_offset = offset + {{ $fromByte }};
@@ -2783,11 +2789,11 @@ var fieldDecoderTemplate = `
             uint64_t {{ .TempName }} = 0;
             {{ .TyUint8 }} shift = 0;
         {{- if .CompatibleMode }}
-            while (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
-            {{ .TempName }} |= (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
+            while (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= static_cast<uint64_t>(static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
+            {{ .TempName }} |= static_cast<uint64_t>(static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
         {{- else }}
-            while (data[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
-            {{ .TempName }} |= (data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
+            while (data[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= static_cast<uint64_t>(data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
+            {{ .TempName }} |= static_cast<uint64_t>(data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
         {{- end }}
             {{ .FieldName }}.length = {{ .TempName }};
     {{- if .MemoryCopy }}
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 0766ef1..503840b 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2250,26 +2250,32 @@ var decoderTemplate = `
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift > 28 || _shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
                     _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift > 28 || _shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - (offset + {{ $fromByte }})) return -1;
                 if (data.Length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- else }}
                 if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift > 28 || _shift == 28 && (data[offset + {{ $fromByte }}] & 0x78) != 0) return -1;
                     _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift > 28 || _shift == 28 && (data[offset + {{ $fromByte }}] & 0x78) != 0) return -1;
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - (offset + {{ $fromByte }})) return -1;
                 if (data.Length < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- end }}
                 offset += _length;
@@ -2282,26 +2288,32 @@ var decoderTemplate = `
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift > 28 || _shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
                     _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift > 28 || _shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - (offset + {{ $fromByte }})) return -1;
                 if (data.Length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- else }}
                 if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift > 28 || _shift == 28 && (data[offset + {{ $fromByte }}] & 0x78) != 0) return -1;
                     _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift > 28 || _shift == 28 && (data[offset + {{ $fromByte }}] & 0x78) != 0) return -1;
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - (offset + {{ $fromByte }})) return -1;
                 if (data.Length < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- end }}
                 offset += _length;
@@ -2316,9 +2328,9 @@ var decoderTemplate = `
                 {{- if $memcpy }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].DecodeSize(data, offset + start + {{ $fromByte }});
                 {{- else }}
-                int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].DecodeSize(memoryData.Slice(offset + {{ $fromByte }}));
+                int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].DecodeSize(memoryData.Slice(Math.Min(offset + {{ $fromByte }}, memoryData.Length)));
                 {{- end }}
-                if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
+                if (_subSize < 0) return (int)Math.Max((long)_subSize - (offset + {{ $fromByte }}), int.MinValue);
                 offset += _subSize;
             }
             {{- else }}
@@ -2327,9 +2339,9 @@ var decoderTemplate = `
                 {{- if $memcpy }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].DecodeSize(data, offset + start + {{ $fromByte }});
                 {{- else }}
-                int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].DecodeSize(memoryData.Slice(offset + {{ $fromByte }}));
+                int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].DecodeSize(memoryData.Slice(Math.Min(offset + {{ $fromByte }}, memoryData.Length)));
                 {{- end }}
-                if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
+                if (_subSize < 0) return (int)Math.Max((long)_subSize - (offset + {{ $fromByte }}), int.MinValue);
                 offset += _subSize;
             }
             {{- end -}}
@@ -2362,26 +2374,32 @@ var decoderTemplate = `
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift > 28 || _shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
                     _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift > 28 || _shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - (offset + {{ $fromByte }})) return -1;
                 if (data.Length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- else }}
                 if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift > 28 || _shift == 28 && (data[offset + {{ $fromByte }}] & 0x78) != 0) return -1;
                     _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift > 28 || _shift == 28 && (data[offset + {{ $fromByte }}] & 0x78) != 0) return -1;
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - (offset + {{ $fromByte }})) return -1;
                 if (data.Length < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- end }}
                 offset += _length;
@@ -2392,9 +2410,9 @@ var decoderTemplate = `
                 {{- if $memcpy }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}.DecodeSize(data, offset + start + {{ $fromByte }});
                 {{- else }}
-                int _subSize = this.{{ TocamelCase $f.FieldName }}.DecodeSize(memoryData.Slice(offset + {{ $fromByte }}));
+                int _subSize = this.{{ TocamelCase $f.FieldName }}.DecodeSize(memoryData.Slice(Math.Min(offset + {{ $fromByte }}, memoryData.Length)));
                 {{- end }}
-                if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
+                if (_subSize < 0) return (int)Math.Max((long)_subSize - (offset + {{ $fromByte }}), int.MinValue);
                 offset += _subSize;
             }
     {{- end -}}
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 7a05e10..c3d0ab2 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -1973,13 +1973,13 @@ func (this *{{ $structName }}) Decode(data []byte) int {
         lengthValue := uint64(0)
         shift := uint(0)
         for data[offset + {{ $fromByte }}] & 0x80 != 0 {
-            if shift >= 63 { return -1 }
+            if shift >= 56 { return -1 }
             lengthValue |= uint64(data[offset + {{ $fromByte }}]&0x7F) << shift
             shift += 7
             offset++
             if len(data) <= offset + {{ $fromByte }} { return -(offset + {{ $fromByte }} + 1) }
         }
-        if shift >= 63 { return -1 }
+        if shift >= 56 { return -1 }
         lengthValue |= uint64(data[offset + {{ $fromByte }}]&0x7F) << shift
         if lengthValue > uint64(^uint(0)>>1) { return -1 }
         length := int(lengthValue)
@@ -1998,13 +1998,13 @@ func (this *{{ $structName }}) Decode(data []byte) int {
         lengthValue := uint64(0)
         shift := uint(0)
         for data[offset + {{ $fromByte }}] & 0x80 != 0 {
-            if shift >= 63 { return -1 }
+            if shift >= 56 { return -1 }
             lengthValue |= uint64(data[offset + {{ $fromByte }}]&0x7F) << shift
             shift += 7
             offset++
             if len(data) <= offset + {{ $fromByte }} { return -(offset + {{ $fromByte }} + 1) }
         }
-        if shift >= 63 { return -1 }
+        if shift >= 56 { return -1 }
         lengthValue |= uint64(data[offset + {{ $fromByte }}]&0x7F) << shift
         if lengthValue > uint64(^uint(0)>>1) { return -1 }
         length := int(lengthValue)
@@ -2059,13 +2059,13 @@ func (this *{{ $structName }}) Decode(data []byte) int {
         lengthValue := uint64(0)
         shift := uint(0)
         for data[offset + {{ $fromByte }}] & 0x80 != 0 {
-            if shift >= 63 { return -1 }
+            if shift >= 56 { return -1 }
             lengthValue |= uint64(data[offset + {{ $fromByte }}]&0x7F) << shift
             shift += 7
             offset++
             if len(data) <= offset + {{ $fromByte }} { return -(offset + {{ $fromByte }} + 1) }
         }
-        if shift >= 63 { return -1 }
+        if shift >= 56 { return -1 }
         lengthValue |= uint64(data[offset + {{ $fromByte }}]&0x7F) << shift
         if lengthValue > uint64(^uint(0)>>1) { return -1 }
         length := int(lengthValue)
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index e406b13..dc07518 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -2151,13 +2151,16 @@ var decoderTemplate = `
             int _length = 0;
             short _shift = 0;
             while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                if (_shift > 28 || _shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 _shift += 7;
                 offset++;
                 if (data.length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
             }
+            if (_shift > 28 || _shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
             _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
             offset++;
+            if (_length > Integer.MAX_VALUE - (offset + start + {{ $fromByte }})) return -1;
             if (data.length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
             offset += _length;
         }
@@ -2168,13 +2171,16 @@ var decoderTemplate = `
             int _length = 0;
             short _shift = 0;
             while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                if (_shift > 28 || _shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 _shift += 7;
                 offset++;
                 if (data.length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
             }
+            if (_shift > 28 || _shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
             _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
             offset++;
+            if (_length > Integer.MAX_VALUE - (offset + start + {{ $fromByte }})) return -1;
             if (data.length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
             offset += _length;
         }
@@ -2215,13 +2221,16 @@ var decoderTemplate = `
             int _length = 0;
             short _shift = 0;
             while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                if (_shift > 28 || _shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 _shift += 7;
                 offset++;
                 if (data.length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
             }
+            if (_shift > 28 || _shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
             _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
             offset++;
+            if (_length > Integer.MAX_VALUE - (offset + start + {{ $fromByte }})) return -1;
             if (data.length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
             offset += _length;
         }
diff --git a/generator/target/kotlin/kotlin_decode.go b/generator/target/kotlin/kotlin_decode.go
index cbfdfe9..c782562 100644
--- a/generator/target/kotlin/kotlin_decode.go
+++ b/generator/target/kotlin/kotlin_decode.go
@@ -89,12 +89,13 @@ func (g *KotlinGenerator) emitDecodeSizeValue(b *strings.Builder, ty definition.
 		fmt.Fprintf(b, "%s    while (true) {\n", indent)
 		fmt.Fprintf(b, "%s        if (data.size <= %s) return -(%s + 1 - start)\n", indent, pos, pos)
 		fmt.Fprintf(b, "%s        val part = data[%s].toInt() and 0xFF\n", indent, pos)
+		fmt.Fprintf(b, "%s        if (shift > 28 || (shift == 28 && (part and 0x78) != 0)) return -1\n", indent)
 		fmt.Fprintf(b, "%s        length = length or ((part and 0x7F) shl shift)\n", indent)
 		fmt.Fprintf(b, "%s        offset++\n", indent)
 		fmt.Fprintf(b, "%s        if ((part and 0x80) == 0) break\n", indent)
 		fmt.Fprintf(b, "%s        shift += 7\n", indent)
-		fmt.Fprintf(b, "%s        if (shift > 28) return -1\n", indent)
 		fmt.Fprintf(b, "%s    }\n", indent)
+		fmt.Fprintf(b, "%s    if (length > Int.MAX_VALUE - (%s)) return -1\n", indent, pos)
 		fmt.Fprintf(b, "%s    if (data.size - start < offset + %d + length) return -(offset + %d + length)\n", indent, fromByte, fromByte)
 		fmt.Fprintf(b, "%s    offset += length\n", indent)
 		fmt.Fprintf(b, "%s}\n", indent)
-- 
2.43.0


From 7d090af7314e75655517b09bb51e01110abf477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:41 +0000
Subject: [PATCH 13/32] fix: JS string decode stops at the terminator on
 truncated UTF-8

---
 generator/target/commonjs/commonjs.go | 24 ++++++++++++++----------
 generator/target/esm/esm.go           | 24 ++++++++++++++----------
 2 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 995280a..97d4f98 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -476,13 +476,15 @@ var fileTemplate = `
     function stringFromUTF8Bytes(data, start) {
         var str = "";
         var offset = start;
-        while (offset < data.length && data[offset] && data[offset] !== 0) {
+        var end = start;
+        while (end < data.length && data[end]) end++;
+        while (offset < end) {
             var code = data[offset++];
             if (code < 0x80) str += String.fromCharCode(code);
-            else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
-            else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F));
+            else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | ((offset < end ? data[offset++] : 0) & 0x3F));
+            else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | (((offset < end ? data[offset++] : 0) & 0x3F) << 6) | ((offset < end ? data[offset++] : 0) & 0x3F));
             else {
-                code = ((code & 0x7) << 18) | ((data[offset++] & 0x3F) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F);
+                code = ((code & 0x7) << 18) | (((offset < end ? data[offset++] : 0) & 0x3F) << 12) | (((offset < end ? data[offset++] : 0) & 0x3F) << 6) | ((offset < end ? data[offset++] : 0) & 0x3F);
                 if (code < 0x10000) str += String.fromCharCode(code);
                 else {
                     code -= 0x10000;
@@ -490,7 +492,7 @@ var fileTemplate = `
                 }
             }
         }
-        return [str, offset - start];
+        return [str, end - start];
     }
     {{- end }}
 
@@ -832,13 +834,15 @@ var fileTemplate = `
     function stringFromUTF8Bytes(data, start) {
         var str = "";
         var offset = start;
-        while (offset < data.length && data[offset] && data[offset] !== 0) {
+        var end = start;
+        while (end < data.length && data[end]) end++;
+        while (offset < end) {
             var code = data[offset++];
             if (code < 0x80) str += String.fromCharCode(code);
-            else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
-            else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F));
+            else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | ((offset < end ? data[offset++] : 0) & 0x3F));
+            else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | (((offset < end ? data[offset++] : 0) & 0x3F) << 6) | ((offset < end ? data[offset++] : 0) & 0x3F));
             else {
-                code = ((code & 0x7) << 18) | ((data[offset++] & 0x3F) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F);
+                code = ((code & 0x7) << 18) | (((offset < end ? data[offset++] : 0) & 0x3F) << 12) | (((offset < end ? data[offset++] : 0) & 0x3F) << 6) | ((offset < end ? data[offset++] : 0) & 0x3F);
                 if (code < 0x10000) str += String.fromCharCode(code);
                 else {
                     code -= 0x10000;
@@ -846,7 +850,7 @@ var fileTemplate = `
                 }
             }
         }
-        return [str, offset - start];
+        return [str, end - start];
     }
     {{- end }}
 
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 00b303c..8391a38 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -438,13 +438,15 @@ function stringToUTF8Bytes(str, data, start) {
 function stringFromUTF8Bytes(data, start) {
     let str = "";
     let offset = start;
-    while (offset < data.length && data[offset] && data[offset] !== 0) {
+    let end = start;
+    while (end < data.length && data[end]) end++;
+    while (offset < end) {
         let code = data[offset++];
         if (code < 0x80) str += String.fromCharCode(code);
-        else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
-        else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F));
+        else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | ((offset < end ? data[offset++] : 0) & 0x3F));
+        else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | (((offset < end ? data[offset++] : 0) & 0x3F) << 6) | ((offset < end ? data[offset++] : 0) & 0x3F));
         else {
-            code = ((code & 0x7) << 18) | ((data[offset++] & 0x3F) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F);
+            code = ((code & 0x7) << 18) | (((offset < end ? data[offset++] : 0) & 0x3F) << 12) | (((offset < end ? data[offset++] : 0) & 0x3F) << 6) | ((offset < end ? data[offset++] : 0) & 0x3F);
             if (code < 0x10000) str += String.fromCharCode(code);
             else {
                 code -= 0x10000;
@@ -452,7 +454,7 @@ function stringFromUTF8Bytes(data, start) {
             }
         }
     }
-    return [str, offset - start];
+    return [str, end - start];
 }
 {{- end }}
 
@@ -760,13 +762,15 @@ function stringToUTF8Bytes(str, data, start) {
 function stringFromUTF8Bytes(data, start) {
     let str = "";
     let offset = start;
-    while (offset < data.length && data[offset] && data[offset] !== 0) {
+    let end = start;
+    while (end < data.length && data[end]) end++;
+    while (offset < end) {
         let code = data[offset++];
         if (code < 0x80) str += String.fromCharCode(code);
-        else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
-        else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F));
+        else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | ((offset < end ? data[offset++] : 0) & 0x3F));
+        else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | (((offset < end ? data[offset++] : 0) & 0x3F) << 6) | ((offset < end ? data[offset++] : 0) & 0x3F));
         else {
-            code = ((code & 0x7) << 18) | ((data[offset++] & 0x3F) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F);
+            code = ((code & 0x7) << 18) | (((offset < end ? data[offset++] : 0) & 0x3F) << 12) | (((offset < end ? data[offset++] : 0) & 0x3F) << 6) | ((offset < end ? data[offset++] : 0) & 0x3F);
             if (code < 0x10000) str += String.fromCharCode(code);
             else {
                 code -= 0x10000;
@@ -774,7 +778,7 @@ function stringFromUTF8Bytes(data, start) {
             }
         }
     }
-    return [str, offset - start];
+    return [str, end - start];
 }
 {{- end }}
 
-- 
2.43.0


From 87f01060dc5a9589edb0d81d168a2cdb767dfe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:28 +0000
Subject: [PATCH 14/32] fix: OrderedMap.Remove and Sub keep the position of an
 entry stored under the default key

---
 util/ordered_map.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/ordered_map.go b/util/ordered_map.go
index 41e2465..cf4ce60 100644
--- a/util/ordered_map.go
+++ b/util/ordered_map.go
@@ -30,8 +30,8 @@ func (m *OrderedMap[K, V]) Sub(start, end int) *OrderedMap[K, V] {
 		return nil
 	}
 	copy := NewOrderedMap[K, V]()
-	for _, entry := range m.entries[start:end] {
-		if entry.Key != m.defaultK {
+	for pos, entry := range m.entries[start:end] {
+		if i, ok := m.index[entry.Key]; ok && i == start+pos {
 			copy.Put(entry.Key, entry.Value)
 		} else {
 			copy.PutAnonymous(entry.Value)
@@ -106,7 +106,7 @@ func (m *OrderedMap[K, V]) Remove(key K) {
 		delete(m.index, key)
 		m.entries = append(m.entries[:index], m.entries[index+1:]...)
 		for i := index; i < len(m.entries); i++ {
-			if m.entries[i].Key != m.defaultK {
+			if j, ok := m.index[m.entries[i].Key]; ok && j == i+1 {
 				m.index[m.entries[i].Key] = i
 			}
 		}
-- 
2.43.0


From fe51aa5d2eb4f29dffc437f814cae42609818655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:20 +0000
Subject: [PATCH 15/32] fix: calc evaluates operators of equal precedence from
 the left, compares numbers by value and negates parenthesised floats

---
 util/calc.go | 211 +++++++++++++++++++++++++++++----------------------
 1 file changed, 121 insertions(+), 90 deletions(-)

diff --git a/util/calc.go b/util/calc.go
index 88e79af..f277d8d 100644
--- a/util/calc.go
+++ b/util/calc.go
@@ -116,117 +116,147 @@ func calcBitAnd(c *consumer) interface{} {
 
 func calcEqual(c *consumer) interface{} {
 	oprand1 := calcRelational(c)
-	switch c.Peek() {
-	case "==":
-		c.Next()
-		oprand2 := calcEqual(c)
+	for {
+		switch c.Peek() {
+		case "==":
+			c.Next()
+			oprand2 := calcRelational(c)
+			oprand1 = calcSame(oprand1, oprand2)
+		case "!=":
+			c.Next()
+			oprand2 := calcRelational(c)
+			oprand1 = !calcSame(oprand1, oprand2)
+		default:
+			return oprand1
+		}
+	}
+}
+
+// calcSame compares numbers by value, whatever their types, and other values
+// as they are.
+func calcSame(oprand1, oprand2 interface{}) bool {
+	if !IsNumber(oprand1) || !IsNumber(oprand2) {
 		return oprand1 == oprand2
-	case "!=":
-		c.Next()
-		oprand2 := calcEqual(c)
-		return oprand1 != oprand2
-	default:
-		return oprand1
 	}
+	if IsFloat(oprand1) || IsFloat(oprand2) {
+		return ToFloat64(oprand1) == ToFloat64(oprand2)
+	}
+	return ToInt64(oprand1) == ToInt64(oprand2)
 }
 
 func calcRelational(c *consumer) interface{} {
 	oprand1 := calcShift(c)
-	switch c.Peek() {
-	case "<":
-		c.Next()
-		oprand2 := calcRelational(c)
-		if IsFloat(oprand1) || IsFloat(oprand2) {
-			return ToFloat64(oprand1) < ToFloat64(oprand2)
-		}
-		return ToInt64(oprand1) < ToInt64(oprand2)
-	case ">":
-		c.Next()
-		oprand2 := calcRelational(c)
-		if IsFloat(oprand1) || IsFloat(oprand2) {
-			return ToFloat64(oprand1) > ToFloat64(oprand2)
-		}
-		return ToInt64(oprand1) > ToInt64(oprand2)
-	case "<=":
-		c.Next()
-		oprand2 := calcRelational(c)
-		if IsFloat(oprand1) || IsFloat(oprand2) {
-			return ToFloat64(oprand1) <= ToFloat64(oprand2)
+	for {
+		switch c.Peek() {
+		case "<":
+			c.Next()
+			oprand2 := calcShift(c)
+			if IsFloat(oprand1) || IsFloat(oprand2) {
+				oprand1 = ToFloat64(oprand1) < ToFloat64(oprand2)
+			} else {
+				oprand1 = ToInt64(oprand1) < ToInt64(oprand2)
+			}
+		case ">":
+			c.Next()
+			oprand2 := calcShift(c)
+			if IsFloat(oprand1) || IsFloat(oprand2) {
+				oprand1 = ToFloat64(oprand1) > ToFloat64(oprand2)
+			} else {
+				oprand1 = ToInt64(oprand1) > ToInt64(oprand2)
+			}
+		case "<=":
+			c.Next()
+			oprand2 := calcShift(c)
+			if IsFloat(oprand1) || IsFloat(oprand2) {
+				oprand1 = ToFloat64(oprand1) <= ToFloat64(oprand2)
+			} else {
+				oprand1 = ToInt64(oprand1) <= ToInt64(oprand2)
+			}
+		case ">=":
+			c.Next()
+			oprand2 := calcShift(c)
+			if IsFloat(oprand1) || IsFloat(oprand2) {
+				oprand1 = ToFloat64(oprand1) >= ToFloat64(oprand2)
+			} else {
+				oprand1 = ToInt64(oprand1) >= ToInt64(oprand2)
+			}
+		default:
+			return oprand1
 		}
-		return ToInt64(oprand1) <= ToInt64(oprand2)
-	case ">=":
-		c.Next()
-		oprand2 := calcRelational(c)
-		if IsFloat(oprand1) || IsFloat(oprand2) {
-			return ToFloat64(oprand1) >= ToFloat64(oprand2)
-		}
-		return ToInt64(oprand1) >= ToInt64(oprand2)
-	default:
-		return oprand1
 	}
 }
 
 func calcShift(c *consumer) interface{} {
 	oprand1 := calcAdditive(c)
-	switch c.Peek() {
-	case "<<":
-		c.Next()
-		oprand2 := calcShift(c)
-		return ToInt64(oprand1) << ToInt64(oprand2)
-	case ">>":
-		c.Next()
-		oprand2 := calcShift(c)
-		return ToInt64(oprand1) >> ToInt64(oprand2)
-	default:
-		return oprand1
+	for {
+		switch c.Peek() {
+		case "<<":
+			c.Next()
+			oprand2 := calcAdditive(c)
+			oprand1 = ToInt64(oprand1) << ToInt64(oprand2)
+		case ">>":
+			c.Next()
+			oprand2 := calcAdditive(c)
+			oprand1 = ToInt64(oprand1) >> ToInt64(oprand2)
+		default:
+			return oprand1
+		}
 	}
 }
 
 func calcAdditive(c *consumer) interface{} {
 	oprand1 := calcMultiplicative(c)
-	switch c.Peek() {
-	case "+":
-		c.Next()
-		oprand2 := calcAdditive(c)
-		if IsFloat(oprand1) || IsFloat(oprand2) {
-			return ToFloat64(oprand1) + ToFloat64(oprand2)
-		}
-		return ToInt64(oprand1) + ToInt64(oprand2)
-	case "-":
-		c.Next()
-		oprand2 := calcAdditive(c)
-		if IsFloat(oprand1) || IsFloat(oprand2) {
-			return ToFloat64(oprand1) - ToFloat64(oprand2)
+	for {
+		switch c.Peek() {
+		case "+":
+			c.Next()
+			oprand2 := calcMultiplicative(c)
+			if IsFloat(oprand1) || IsFloat(oprand2) {
+				oprand1 = ToFloat64(oprand1) + ToFloat64(oprand2)
+			} else {
+				oprand1 = ToInt64(oprand1) + ToInt64(oprand2)
+			}
+		case "-":
+			c.Next()
+			oprand2 := calcMultiplicative(c)
+			if IsFloat(oprand1) || IsFloat(oprand2) {
+				oprand1 = ToFloat64(oprand1) - ToFloat64(oprand2)
+			} else {
+				oprand1 = ToInt64(oprand1) - ToInt64(oprand2)
+			}
+		default:
+			return oprand1
 		}
-		return ToInt64(oprand1) - ToInt64(oprand2)
-	default:
-		return oprand1
 	}
 }
 
 func calcMultiplicative(c *consumer) interface{} {
 	oprand1 := calcUnary(c)
-	switch c.Peek() {
-	case "*":
-		c.Next()
-		oprand2 := calcMultiplicative(c)
-		if IsFloat(oprand1) || IsFloat(oprand2) {
-			return ToFloat64(oprand1) * ToFloat64(oprand2)
+	for {
+		switch c.Peek() {
+		case "*":
+			c.Next()
+			oprand2 := calcUnary(c)
+			if IsFloat(oprand1) || IsFloat(oprand2) {
+				oprand1 = ToFloat64(oprand1) * ToFloat64(oprand2)
+			} else {
+				oprand1 = ToInt64(oprand1) * ToInt64(oprand2)
+			}
+		case "/":
+			c.Next()
+			oprand2 := calcUnary(c)
+			if IsFloat(oprand1) || IsFloat(oprand2) {
+				oprand1 = ToFloat64(oprand1) / ToFloat64(oprand2)
+			} else {
+				oprand1 = ToInt64(oprand1) / ToInt64(oprand2)
+			}
+		case "%":
+			c.Next()
+			oprand2 := calcUnary(c)
+			oprand1 = ToInt64(oprand1) % ToInt64(oprand2)
+		default:
+			return oprand1
 		}
-		return ToInt64(oprand1) * ToInt64(oprand2)
-	case "/":
-		c.Next()
-		oprand2 := calcMultiplicative(c)
-		if IsFloat(oprand1) || IsFloat(oprand2) {
-			return ToFloat64(oprand1) / ToFloat64(oprand2)
-		}
-		return ToInt64(oprand1) / ToInt64(oprand2)
-	case "%":
-		c.Next()
-		oprand2 := calcMultiplicative(c)
-		return ToInt64(oprand1) % ToInt64(oprand2)
-	default:
-		return oprand1
 	}
 }
 
@@ -237,10 +267,11 @@ func calcUnary(c *consumer) interface{} {
 		return calcUnary(c)
 	case "-":
 		c.Next()
-		if IsFloat(c.Peek()) {
-			return -ToFloat64(calcUnary(c))
+		oprand := calcUnary(c)
+		if IsFloat(oprand) {
+			return -ToFloat64(oprand)
 		}
-		return -ToInt64(calcUnary(c))
+		return -ToInt64(oprand)
 	case "~":
 		c.Next()
 		return ^ToInt64(calcUnary(c))
-- 
2.43.0


From ab6cdba2f0fa5e12b517363fab261a130fc82eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:54 +0000
Subject: [PATCH 16/32] fix: -rmpath removes whole path segments only, and
 files are never written outside the output directory

---
 generator/gen/gen_ctx.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/generator/gen/gen_ctx.go b/generator/gen/gen_ctx.go
index e703aae..10c783b 100644
--- a/generator/gen/gen_ctx.go
+++ b/generator/gen/gen_ctx.go
@@ -54,11 +54,8 @@ func (ctx *GenCtx) WritePackage(pkg *definition.Package, ext string, text string
 func (ctx *GenCtx) WriteFile(file string, text string) error {
 	text = normalizeGeneratedIndent(text)
 	for _, rmpath := range ctx.GenOptions.RemovePath {
-		if strings.HasPrefix(file, rmpath) {
-			file = file[len(rmpath):]
-			for strings.HasPrefix(file, "/") {
-				file = file[1:]
-			}
+		if rmpath != "" && strings.HasPrefix(file, rmpath+"/") {
+			file = strings.TrimLeft(file[len(rmpath):], "/")
 			break
 		}
 	}
@@ -66,6 +63,9 @@ func (ctx *GenCtx) WriteFile(file string, text string) error {
 		fmt.Print(text)
 		return nil
 	}
+	if local := filepath.ToSlash(filepath.Clean("./" + file)); local == ".." || strings.HasPrefix(local, "../") {
+		return fmt.Errorf("output file %q is outside of the output directory", file)
+	}
 	path := filepath.Join(ctx.OutputPath, file)
 	return ctx.WriteFileAbs(path, text)
 }
-- 
2.43.0


From 23da14464ebaf78f35c85b8d840ddc586abe6080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:04 +0000
Subject: [PATCH 17/32] fix: Go relative imports start from the directory of
 the importing package

---
 README.md                         | 2 +-
 README_cn.md                      | 2 +-
 definition/package.go             | 7 +++++++
 generator/target/golang/golang.go | 2 +-
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index 903c505..bc6887b 100644
--- a/README.md
+++ b/README.md
@@ -134,7 +134,7 @@ When selecting the target language, you can use the aliases inside `[]`. For exa
   - Without `-memcpy`: A slice of the original buffer will be assigned to the `bytes` field. The `string` field will always be copied.
   - With `-relpath`: Generate relative path imports (e.g. `import "./foo_bb"` or `import "../subpkg/foo_bb"`). If `go_package` is set, the generated relative path will be calculated based on the package path defined by `go_package`.
   - With `-unroll`: Fixed-width loops use package-private `bbWriteFieldBits` / `bbReadFieldBits`; decoders validate the input size before reading.
-  **Notice!** The `-rmpath` option is NOT considered when calculating relative paths between modules for Go. That is, if the package path of A is `github.com/xaxys/a`, the package path of B is `gitlab.com/user/b`, and `-rmpath=github.com/xaxys` is set, then the output path of A will be `a`, the output path of B will be `gitlab.com/user/b`, but the imported path of A inside B will still be calculated as `../../github.com/xaxys/a`, instead of `../../a`.
+  **Notice!** The `-rmpath` option is NOT considered when calculating relative paths between modules for Go. That is, if the package path of A is `github.com/xaxys/a`, the package path of B is `gitlab.com/user/b`, and `-rmpath=github.com/xaxys` is set, then the output path of A will be `a`, the output path of B will be `gitlab.com/user/b`, but the imported path of A inside B will still be calculated as `../../../github.com/xaxys/a`, instead of `../../../a`.
 
 - `java`: Java language, output one `.java` file for each structure defined in each `.bb` file. The folder structure will be affected by the `java_package` option. (i.e., `com.example.rovlink` will generate in the `com/example/rovlink` directory)
   - Force enabled: `-memcpy`.
diff --git a/README_cn.md b/README_cn.md
index 249d9d2..9062ccf 100644
--- a/README_cn.md
+++ b/README_cn.md
@@ -134,7 +134,7 @@ Targets:
   - 不使用 `-memcpy`：将原始缓冲区的切片分配给 `bytes` 字段。`string` 字段将始终被复制。
   - 使用 `-relpath`：生成相对路径导入（如 `import "./foo_bb"` 或 `import "../subpkg/foo_bb"`）。对于设置了 `go_package` 的情况，生成的相对路径将基于 `go_package` 定义的包路径进行计算。
   - 使用 `-unroll`：定长循环使用包私有的 `bbWriteFieldBits` / `bbReadFieldBits`；解码器会在读取前验证输入长度。
-  **注意！**生成相对路径时不会考虑 `-rmpath` 选项。即假如 A 的包路径为 `github.com/xaxys/a`，B 的包路径为 `gitlab.com/user/b`，而 `-rmpath=github.com/xaxys`，则 A 的生成路径为 `a`，B 的生成路径为 `gitlab.com/user/b`，但 B 中导入 A 的路径仍然会被计算为 `../../github.com/xaxys/a`，而不是 `../../a`。
+  **注意！**生成相对路径时不会考虑 `-rmpath` 选项。即假如 A 的包路径为 `github.com/xaxys/a`，B 的包路径为 `gitlab.com/user/b`，而 `-rmpath=github.com/xaxys`，则 A 的生成路径为 `a`，B 的生成路径为 `gitlab.com/user/b`，但 B 中导入 A 的路径仍然会被计算为 `../../../github.com/xaxys/a`，而不是 `../../../a`。
 
 - `java`：Java 语言，为每个 `.bb` 文件中定义的每个数据结构生成一个 `.java` 文件。生成的文件夹结构将受到 `java_package` 选项的影响。例如，`com.example.rovlink` 将在 `com/example/rovlink` 目录中生成。
   - 强制启用：`-memcpy`。
diff --git a/definition/package.go b/definition/package.go
index 88bcc25..01af495 100644
--- a/definition/package.go
+++ b/definition/package.go
@@ -112,6 +112,13 @@ func (p Package) ToRelativePath(other *Package, ext string) string {
 	return strings.Join(diff, "/") + ext
 }
 
+// ToRelativeDirStrict returns the relative path from the directory of this
+// package to the directory of other package, for targets where a package is a
+// directory. The returned path starts with "./" or "../"
+func (p Package) ToRelativeDirStrict(other *Package) string {
+	return Package{PackagePath: p.PackageFullPaths}.ToRelativePathStrict(other, "")
+}
+
 // ToPyRelativePath returns the relative python path of this package to other package
 // Special handling for Python
 //
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index c3d0ab2..d988183 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -334,7 +334,7 @@ package {{ .GenUnit.GoPackage.PackageName }}
 import (
 {{- range $unit := $imports.Values -}}
 {{- if $.GenOptions.RelativePath }}
-    . "{{ $.GenUnit.GoPackage.ToRelativePathStrict $unit.GoPackage "" }}"
+    . "{{ $.GenUnit.GoPackage.ToRelativeDirStrict $unit.GoPackage }}"
 {{- else }}
     . "{{ $unit.GoPackage.ToPath "/" "" }}"
 {{- end }}
-- 
2.43.0


From f7c0cbb50ae12fea858d3f11cc187ca56d902eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:33 +0000
Subject: [PATCH 18/32] fix: reject sizes whose number of bits does not fit in
 64-bit arithmetic

A size of [1152921504606846975#8], an array of 2305843009213693952 int64 or
two void fields of 2^62 bits wrapped around and were accepted with a wrong
(zero or negative) size.
---
 compiler/proto_visitor.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index fe000a6..745c4d0 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2,6 +2,7 @@ package compiler
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/xaxys/bubbler/definition"
 	"github.com/xaxys/bubbler/parser"
@@ -154,6 +155,15 @@ func (v *ProtoVisitor) VisitStructDef(ctx *parser.StructDefContext) any {
 
 	// check field alignment
 	err := structDef.ForEachField(func(field definition.Field, index int, fixedStart int64, isDynamicStart bool) error {
+		if fieldSize := field.GetFieldBitSize(); fieldSize > math.MaxInt64-fixedStart {
+			return &definition.CompileError{
+				Position: field,
+				Err: &definition.InvalidSizeError{
+					Size: fieldSize,
+					Msg:  "struct is too large",
+				},
+			}
+		}
 
 		var isMustAlignedType func(normalField *definition.NormalField, ty definition.Type) bool
 		isMustAlignedType = func(normalField *definition.NormalField, ty definition.Type) bool {
@@ -889,6 +899,16 @@ func (v *ProtoVisitor) VisitSize_(ctx *parser.Size_Context) any {
 			panic("unreachable")
 		}
 	}
+	if bytes > (math.MaxInt64-bits)/8 {
+		return &definition.CompileError{
+			Position: definition.BasePosition{
+				File:   v.Unit.UnitName.Path,
+				Line:   ctx.GetStart().GetLine(),
+				Column: ctx.GetStart().GetColumn(),
+			},
+			Err: fmt.Errorf("size %s is too large", ctx.GetText()),
+		}
+	}
 	total := bytes*8 + bits
 	if total == 0 {
 		return &definition.CompileError{
@@ -2059,6 +2079,20 @@ func (v *ProtoVisitor) VisitArrayType(ctx *parser.ArrayTypeContext) any {
 		}
 	}
 
+	if elemSize := base.GetTypeBitSize(); elemSize > 0 && length > math.MaxInt64/elemSize {
+		return &definition.CompileError{
+			Position: definition.BasePosition{
+				File:   v.Unit.UnitName.Path,
+				Line:   ctx.IntLit().GetStart().GetLine(),
+				Column: ctx.IntLit().GetStart().GetColumn(),
+			},
+			Err: &definition.InvalidSizeError{
+				Size: length,
+				Msg:  "array is too large",
+			},
+		}
+	}
+
 	arrayDef := &definition.Array{
 		ElementType: base,
 		Length:      length,
-- 
2.43.0


From a3270225e8e017e9aaeccd78c4d0af856c0a64d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:00 +0000
Subject: [PATCH 19/32] fix: reject constant fields whose value does not fit
 the declared width

'uint8 c [#4] = 0xFF;' was accepted: the encoder wrote a truncated value and
the decoder then never matched (or the generated code did not compile).
---
 compiler/proto_visitor.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 745c4d0..0ff6db4 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -844,6 +844,13 @@ func (v *ProtoVisitor) VisitFieldConstant(ctx *parser.FieldConstantContext) any
 		}
 	}
 
+	if value, ok := constant.GetLiteralValue().(int64); ok && !fitsIn(value, size, type_.TypeTypeID.IsInt()) {
+		return &definition.CompileError{
+			Position: pos,
+			Err:      fmt.Errorf("constant value %d does not fit in %d bits of type '%s'", value, size, type_),
+		}
+	}
+
 	options := util.NewOrderedMap[string, *definition.Option]()
 	if ctx.FieldOptions() != nil {
 		ret := ctx.FieldOptions().Accept(v)
@@ -874,6 +881,14 @@ func (v *ProtoVisitor) VisitFieldConstant(ctx *parser.FieldConstantContext) any
 	return fieldDef
 }
 
+// fitsIn tells whether value can be stored in a field of size bits.
+func fitsIn(value int64, size int64, signed bool) bool {
+	if signed {
+		return size >= 64 || (value >= -(int64(1)<<(size-1)) && value < int64(1)<<(size-1))
+	}
+	return value >= 0 && (size >= 63 || value < int64(1)<<size)
+}
+
 func (v *ProtoVisitor) VisitSize_(ctx *parser.Size_Context) any {
 	bytes := int64(0)
 	bits := int64(0)
-- 
2.43.0


From 8b77b95c32aed40ce56e7539c498f105e9e50222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:01 +0000
Subject: [PATCH 20/32] fix: reject enum values that are negative or exceed the
 enum's width

'B = -1' was taken for a value without a number and renumbered, numbers
wider than the enum were truncated when encoded, and enums wider than 64 bits
were accepted although no type can hold them.
---
 compiler/proto_visitor.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 0ff6db4..f91104f 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2295,8 +2295,32 @@ func (v *ProtoVisitor) VisitEnumDef(ctx *parser.EnumDefContext) any {
 		panic("unreachable")
 	}
 
+	if size > 64 {
+		return &definition.CompileError{
+			Position: definition.BasePosition{
+				File:   v.Unit.UnitName.Path,
+				Line:   ctx.Size_().GetStart().GetLine(),
+				Column: ctx.Size_().GetStart().GetColumn(),
+			},
+			Err: &definition.InvalidSizeError{
+				Size: size,
+				Msg:  "enum cannot be wider than 64 bits",
+			},
+		}
+	}
+
 	var errs definition.TopLevelError
 	for _, val := range values.Values() {
+		if !fitsIn(val.EnumValue, size, false) {
+			ex := &definition.CompileError{
+				Position: val,
+				Err: &definition.InvalidEnumDefError{
+					DefName: name,
+					Err:     fmt.Errorf("enum value '%s' does not fit in %d bits", val.EnumValueName, size),
+				},
+			}
+			errs = definition.TopLevelErrorsJoin(errs, ex)
+		}
 		dupErr := v.Unit.AddLocalName(val.EnumValueName, val)
 		if dupErr != nil {
 			ex := &definition.CompileError{
@@ -2420,6 +2444,15 @@ func (v *ProtoVisitor) VisitEnumValue(ctx *parser.EnumValueContext) any {
 		case definition.Literal:
 			switch val := val.(type) {
 			case *definition.IntLiteral:
+				if val.IntValue < 0 {
+					return &definition.CompileError{
+						Position: val,
+						Err: &definition.InvalidEnumDefError{
+							DefName: name,
+							Err:     fmt.Errorf("enum value cannot be negative"),
+						},
+					}
+				}
 				value = val.IntValue
 			default:
 				return &definition.CompileError{
-- 
2.43.0


From 5a81b9100e204b8430a77010b1a38ce0168e1605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:02 +0000
Subject: [PATCH 21/32] fix: reject arrays of structs with a narrower declared
 size

A struct field's width has to be the struct's own; 'S<2> a [1];' with a
one-byte S was accepted and its elements overlapped.
---
 compiler/proto_visitor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index f91104f..e3acb30 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -540,7 +540,11 @@ func (v *ProtoVisitor) VisitFieldNormal(ctx *parser.FieldNormalContext) any {
 				}
 			}
 		}
-		if _, ok := type_.(*definition.Struct); ok && size != type_Size {
+		elemType := type_
+		if arrTy, ok := type_.(*definition.Array); ok {
+			elemType = arrTy.ElementType
+		}
+		if _, ok := elemType.(*definition.Struct); ok && size != type_Size {
 			return &definition.CompileError{
 				Position: pos,
 				Err: &definition.InvalidSizeError{
-- 
2.43.0


From 6b945646c941115a7fd9c6250ea10f15f46d09a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:57 +0000
Subject: [PATCH 22/32] fix: keep the value of float literals in generated code

A literal of an accessor expression was printed with six decimals whatever
its value, so 0.0000001 became 0.000000.
---
 generator/gen/gen_dispatcher.go       | 11 +++++++++++
 generator/target/c/c.go               |  2 +-
 generator/target/commonjs/commonjs.go |  2 +-
 generator/target/cpp/cpp.go           |  2 +-
 generator/target/csharp/csharp.go     |  2 +-
 generator/target/golang/golang.go     |  2 +-
 generator/target/java/java.go         |  2 +-
 generator/target/python/python.go     |  2 +-
 8 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/generator/gen/gen_dispatcher.go b/generator/gen/gen_dispatcher.go
index 84875de..1777f55 100644
--- a/generator/gen/gen_dispatcher.go
+++ b/generator/gen/gen_dispatcher.go
@@ -2,6 +2,7 @@ package gen
 
 import (
 	"fmt"
+	"strconv"
 
 	"github.com/xaxys/bubbler/definition"
 )
@@ -79,6 +80,16 @@ func FormatIntLiteral(literal *definition.IntLiteral, opts *GenOptions) string {
 	}
 }
 
+// FormatFloatLiteral renders a float with six decimals where that is exact,
+// and otherwise with as many digits as its value needs.
+func FormatFloatLiteral(literal *definition.FloatLiteral) string {
+	text := fmt.Sprintf("%f", literal.FloatValue)
+	if value, err := strconv.ParseFloat(text, 64); err != nil || value != literal.FloatValue {
+		text = strconv.FormatFloat(literal.FloatValue, 'e', -1, 64)
+	}
+	return text
+}
+
 type GenLiteralDispatcher struct {
 	LiteralGeneratorImpl
 }
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 98d98b6..be27f6c 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -3406,7 +3406,7 @@ func (g CLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral) (s
 }
 
 func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 97d4f98..65153e8 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3849,7 +3849,7 @@ func (g CommonJSLiteralGenerator) GenerateIntLiteral(literal *definition.IntLite
 }
 
 func (g CommonJSLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CommonJSLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 9a7702b..64a2420 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -3671,7 +3671,7 @@ func (g CLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral) (s
 }
 
 func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 503840b..cf18d52 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -3596,7 +3596,7 @@ func (g CSharpLiteralGenerator) GenerateIntLiteral(literal *definition.IntLitera
 }
 
 func (g CSharpLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CSharpLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index d988183..b106520 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -3023,7 +3023,7 @@ func (g CLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral) (s
 }
 
 func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index dc07518..ef78c59 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -3337,7 +3337,7 @@ func (g JavaLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral)
 }
 
 func (g JavaLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g JavaLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 6b38cc5..fd9a6ca 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2571,7 +2571,7 @@ func (g PythonLiteralGenerator) GenerateIntLiteral(literal *definition.IntLitera
 }
 
 func (g PythonLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g PythonLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
-- 
2.43.0


From bb3bbf2fe110c91b1e3e8702fbd61a682430b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:58 +0000
Subject: [PATCH 23/32] fix: an absolute import path names the same file
 however it is spelled

---
 fileio/path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileio/path.go b/fileio/path.go
index b3c5b0b..37a82a1 100644
--- a/fileio/path.go
+++ b/fileio/path.go
@@ -39,7 +39,7 @@ func GetAbsolutelyPath(file string) (absPath string, err error) {
 // GetAbsolutelyPathWithBasePath returns unwarpped error
 func GetAbsolutelyPathWithBasePath(file string, relative string) (absPath string, err error) {
 	if filepath.IsAbs(file) {
-		absPath = file
+		absPath = filepath.Clean(file)
 	} else {
 		absPath, err = filepath.Abs(filepath.Join(filepath.Dir(relative), file))
 		if err != nil {
-- 
2.43.0


From a37ac4f7dff909510999145e90b77ed621a3548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:48 +0000
Subject: [PATCH 24/32] fix: the sign of a negative hexadecimal literal goes
 before its prefix

---
 generator/gen/gen_dispatcher.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/generator/gen/gen_dispatcher.go b/generator/gen/gen_dispatcher.go
index 1777f55..61ee1d3 100644
--- a/generator/gen/gen_dispatcher.go
+++ b/generator/gen/gen_dispatcher.go
@@ -70,11 +70,16 @@ func FormatIntLiteral(literal *definition.IntLiteral, opts *GenOptions) string {
 			return fmt.Sprintf("%d", u)
 		}
 	}
+	// The sign goes in front of the prefix of the base.
+	sign, magnitude := "", uint64(literal.IntValue)
+	if literal.IntValue < 0 {
+		sign, magnitude = "-", -magnitude
+	}
 	switch base {
 	case definition.IntBaseHex:
-		return fmt.Sprintf("0x%X", literal.IntValue)
+		return fmt.Sprintf("%s0x%X", sign, magnitude)
 	case definition.IntBaseBin:
-		return fmt.Sprintf("0b%b", literal.IntValue)
+		return fmt.Sprintf("%s0b%b", sign, magnitude)
 	default:
 		return fmt.Sprintf("%d", literal.IntValue)
 	}
-- 
2.43.0


From 31c24c58f83d08f294075f2eb19084841e4030b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:50 +0000
Subject: [PATCH 25/32] fix: infinite and NaN literals are written as the
 target writes them

---
 generator/gen/gen_dispatcher.go    | 12 +++++++++++-
 generator/target/esm/esm_decode.go |  2 +-
 generator/target/golang/golang.go  | 14 ++++++++++++++
 generator/target/kotlin/kotlin.go  | 19 ++++++++++++++++++-
 generator/target/python/python.go  |  4 ++++
 5 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/generator/gen/gen_dispatcher.go b/generator/gen/gen_dispatcher.go
index 61ee1d3..753e757 100644
--- a/generator/gen/gen_dispatcher.go
+++ b/generator/gen/gen_dispatcher.go
@@ -2,6 +2,7 @@ package gen
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 
 	"github.com/xaxys/bubbler/definition"
@@ -86,8 +87,17 @@ func FormatIntLiteral(literal *definition.IntLiteral, opts *GenOptions) string {
 }
 
 // FormatFloatLiteral renders a float with six decimals where that is exact,
-// and otherwise with as many digits as its value needs.
+// and otherwise with as many digits as its value needs. Infinities and NaN are
+// rendered as quotients, which most targets accept as constants.
 func FormatFloatLiteral(literal *definition.FloatLiteral) string {
+	switch value := literal.FloatValue; {
+	case math.IsNaN(value):
+		return "(0.0 / 0.0)"
+	case math.IsInf(value, 1):
+		return "(1.0 / 0.0)"
+	case math.IsInf(value, -1):
+		return "(-1.0 / 0.0)"
+	}
 	text := fmt.Sprintf("%f", literal.FloatValue)
 	if value, err := strconv.ParseFloat(text, 64); err != nil || value != literal.FloatValue {
 		text = strconv.FormatFloat(literal.FloatValue, 'e', -1, 64)
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index a537545..1412b36 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -1023,7 +1023,7 @@ func (g ESModuleLiteralGenerator) GenerateIntLiteral(literal *definition.IntLite
 }
 
 func (g ESModuleLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%g", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g ESModuleLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index b106520..a2c94ad 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -2,6 +2,7 @@ package golang
 
 import (
 	"fmt"
+	"math"
 	"strings"
 	"text/template"
 
@@ -2936,6 +2937,19 @@ func (g GoExprGenerator) GenerateCastExpr(expr *definition.CastExpr) (string, er
 }
 
 func (g GoExprGenerator) GenerateConstantExpr(expr *definition.ConstantExpr) (string, error) {
+	if literal, ok := expr.ConstantValue.(*definition.FloatLiteral); ok {
+		switch value := literal.FloatValue; {
+		case math.IsNaN(value):
+			g.GenState.UseMath = true
+			return "math.NaN()", nil
+		case math.IsInf(value, 1):
+			g.GenState.UseMath = true
+			return "math.Inf(1)", nil
+		case math.IsInf(value, -1):
+			g.GenState.UseMath = true
+			return "math.Inf(-1)", nil
+		}
+	}
 	generator := g.LiteralGenerator
 	if generator == nil {
 		generator = NewCLiteralGenerator(nil)
diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index a353922..e55284e 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -2,6 +2,7 @@ package kotlin
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -582,11 +583,27 @@ func (g *KotlinGenerator) literalForType(lit definition.Literal, ty *definition.
 	case *definition.StringLiteral:
 		return strconv.Quote(v.StringValue), nil
 	case *definition.FloatLiteral:
+		single := ty.GetTypeID() == definition.TypeID_Float32
+		class := "Double"
+		if single {
+			class = "Float"
+		}
+		switch {
+		case math.IsNaN(v.FloatValue) && !single:
+			// the bits that the other targets write
+			return fmt.Sprintf("Double.fromBits(0x%XL)", math.Float64bits(v.FloatValue)), nil
+		case math.IsNaN(v.FloatValue):
+			return class + ".NaN", nil
+		case math.IsInf(v.FloatValue, 1):
+			return class + ".POSITIVE_INFINITY", nil
+		case math.IsInf(v.FloatValue, -1):
+			return class + ".NEGATIVE_INFINITY", nil
+		}
 		s := strconv.FormatFloat(v.FloatValue, 'g', -1, 64)
 		if !strings.ContainsAny(s, ".eE") {
 			s += ".0"
 		}
-		if ty.GetTypeID() == definition.TypeID_Float32 {
+		if single {
 			s += "f"
 		}
 		if strings.HasPrefix(s, "-") {
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index fd9a6ca..e8f1867 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2,6 +2,7 @@ package python
 
 import (
 	"fmt"
+	"math"
 	"strings"
 	"text/template"
 
@@ -2571,6 +2572,9 @@ func (g PythonLiteralGenerator) GenerateIntLiteral(literal *definition.IntLitera
 }
 
 func (g PythonLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
+	if value := literal.FloatValue; math.IsInf(value, 0) || math.IsNaN(value) {
+		return fmt.Sprintf("float(\"%f\")", value), nil
+	}
 	return gen.FormatFloatLiteral(literal), nil
 }
 
-- 
2.43.0


From 7da475025d1dbadf10f7bd290a1fd84627b8a5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:13 +0000
Subject: [PATCH 26/32] fix: string literals keep their value in generated code

---
 generator/gen/gen_dispatcher.go       | 27 +++++++++++++++++++++++++++
 generator/target/c/c.go               |  2 +-
 generator/target/commonjs/commonjs.go |  2 +-
 generator/target/cpp/cpp.go           |  2 +-
 generator/target/csharp/csharp.go     |  2 +-
 generator/target/esm/esm_decode.go    |  2 +-
 generator/target/golang/golang.go     |  2 +-
 generator/target/java/java.go         |  2 +-
 generator/target/kotlin/kotlin.go     |  2 +-
 generator/target/python/python.go     |  2 +-
 10 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/generator/gen/gen_dispatcher.go b/generator/gen/gen_dispatcher.go
index 753e757..4503fe5 100644
--- a/generator/gen/gen_dispatcher.go
+++ b/generator/gen/gen_dispatcher.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"strconv"
+	"strings"
 
 	"github.com/xaxys/bubbler/definition"
 )
@@ -105,6 +106,32 @@ func FormatFloatLiteral(literal *definition.FloatLiteral) string {
 	return text
 }
 
+// FormatStringLiteral renders a string between double quotes; other control
+// characters than line ends and tabs are escaped in the given format.
+func FormatStringLiteral(literal *definition.StringLiteral, control string) string {
+	var text strings.Builder
+	text.WriteByte('"')
+	for i := 0; i < len(literal.StringValue); i++ {
+		switch c := literal.StringValue[i]; {
+		case c == '"' || c == '\\':
+			text.WriteByte('\\')
+			text.WriteByte(c)
+		case c == '\n':
+			text.WriteString(`\n`)
+		case c == '\r':
+			text.WriteString(`\r`)
+		case c == '\t':
+			text.WriteString(`\t`)
+		case c < 0x20 || c == 0x7F:
+			fmt.Fprintf(&text, control, c)
+		default:
+			text.WriteByte(c)
+		}
+	}
+	text.WriteByte('"')
+	return text.String()
+}
+
 type GenLiteralDispatcher struct {
 	LiteralGeneratorImpl
 }
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index be27f6c..c0f9306 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -3410,5 +3410,5 @@ func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
-	return fmt.Sprintf(`"%s"`, literal.StringValue), nil
+	return gen.FormatStringLiteral(literal, `\%03o`), nil
 }
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 65153e8..075a60c 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3853,5 +3853,5 @@ func (g CommonJSLiteralGenerator) GenerateFloatLiteral(literal *definition.Float
 }
 
 func (g CommonJSLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
-	return fmt.Sprintf(`"%s"`, literal.StringValue), nil
+	return gen.FormatStringLiteral(literal, `\u%04x`), nil
 }
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 64a2420..ce9f878 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -3675,5 +3675,5 @@ func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
-	return fmt.Sprintf(`"%s"`, literal.StringValue), nil
+	return gen.FormatStringLiteral(literal, `\%03o`), nil
 }
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index cf18d52..e666020 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -3600,5 +3600,5 @@ func (g CSharpLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLi
 }
 
 func (g CSharpLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
-	return fmt.Sprintf(`"%s"`, literal.StringValue), nil
+	return gen.FormatStringLiteral(literal, `\u%04x`), nil
 }
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 1412b36..b8d89e1 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -1027,5 +1027,5 @@ func (g ESModuleLiteralGenerator) GenerateFloatLiteral(literal *definition.Float
 }
 
 func (g ESModuleLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
-	return fmt.Sprintf("%q", literal.StringValue), nil
+	return gen.FormatStringLiteral(literal, `\u%04x`), nil
 }
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index a2c94ad..3f9b386 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -3041,5 +3041,5 @@ func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
-	return fmt.Sprintf(`"%s"`, literal.StringValue), nil
+	return gen.FormatStringLiteral(literal, `\u%04x`), nil
 }
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index ef78c59..5a14498 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -3341,5 +3341,5 @@ func (g JavaLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLite
 }
 
 func (g JavaLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
-	return fmt.Sprintf(`"%s"`, literal.StringValue), nil
+	return gen.FormatStringLiteral(literal, `\u%04x`), nil
 }
diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index e55284e..6fdcf09 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -581,7 +581,7 @@ func (g *KotlinGenerator) literalForType(lit definition.Literal, ty *definition.
 	case *definition.BoolLiteral:
 		return strconv.FormatBool(v.BoolValue), nil
 	case *definition.StringLiteral:
-		return strconv.Quote(v.StringValue), nil
+		return strings.ReplaceAll(gen.FormatStringLiteral(v, `\u%04x`), "$", `\$`), nil
 	case *definition.FloatLiteral:
 		single := ty.GetTypeID() == definition.TypeID_Float32
 		class := "Double"
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index e8f1867..c428866 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2579,5 +2579,5 @@ func (g PythonLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLi
 }
 
 func (g PythonLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
-	return fmt.Sprintf(`"%s"`, literal.StringValue), nil
+	return gen.FormatStringLiteral(literal, `\u%04x`), nil
 }
-- 
2.43.0


From 5a439af53515056c98b904122b8b793efe331a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:25 +0000
Subject: [PATCH 27/32] fix: single-quoted imports and every escape of the
 grammar denote their text

---
 compiler/import_visitor.go  |  4 +---
 compiler/literal_visitor.go | 43 ++++++++++++++++++++++++++++++-------
 2 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/compiler/import_visitor.go b/compiler/import_visitor.go
index b79e9ff..3585fe2 100644
--- a/compiler/import_visitor.go
+++ b/compiler/import_visitor.go
@@ -1,8 +1,6 @@
 package compiler
 
 import (
-	"strconv"
-
 	"github.com/xaxys/bubbler/definition"
 	"github.com/xaxys/bubbler/fileio"
 	"github.com/xaxys/bubbler/parser"
@@ -48,7 +46,7 @@ func (v *ImportVisitor) VisitImportStatement(ctx *parser.ImportStatementContext)
 	}
 
 	fileLit := ctx.StrLit().STR_LIT().GetText()
-	file, err := strconv.Unquote(fileLit)
+	file, err := unquote(fileLit)
 	if err != nil {
 		return topLevelErrorWrapper(
 			&definition.InvalidLiteralError{
diff --git a/compiler/literal_visitor.go b/compiler/literal_visitor.go
index 68e2d87..141d47b 100644
--- a/compiler/literal_visitor.go
+++ b/compiler/literal_visitor.go
@@ -1,8 +1,8 @@
 package compiler
 
 import (
-	"fmt"
 	"strconv"
+	"unicode/utf8"
 
 	"github.com/xaxys/bubbler/definition"
 	"github.com/xaxys/bubbler/parser"
@@ -177,12 +177,7 @@ func (v *LiteralVisitor) VisitBoolLit(ctx *parser.BoolLitContext) any {
 
 // VisitStrLit returns string or error
 func (v *LiteralVisitor) VisitStrLit(ctx *parser.StrLitContext) any {
-	lit := ctx.STR_LIT().GetText()
-	// 'abc' -> "abc"
-	if lit[0] == '\'' && lit[len(lit)-1] == '\'' {
-		lit = fmt.Sprintf(`"%s"`, lit[1:len(lit)-1])
-	}
-	lit, err := strconv.Unquote(lit)
+	lit, err := unquote(ctx.STR_LIT().GetText())
 	if err != nil {
 		return &definition.CompileError{
 			Position: &definition.BasePosition{
@@ -191,7 +186,7 @@ func (v *LiteralVisitor) VisitStrLit(ctx *parser.StrLitContext) any {
 				Column: ctx.STR_LIT().GetSymbol().GetColumn(),
 			},
 			Err: &definition.InvalidLiteralError{
-				Literal: lit,
+				Literal: ctx.STR_LIT().GetText(),
 				Err:     err,
 			},
 		}
@@ -199,6 +194,38 @@ func (v *LiteralVisitor) VisitStrLit(ctx *parser.StrLitContext) any {
 	return lit
 }
 
+// unquote returns the value of a string literal in either kind of quotes.
+func unquote(lit string) (string, error) {
+	var value []byte
+	for rest := lit[1 : len(lit)-1]; rest != ""; {
+		if len(rest) > 1 && rest[0] == '\\' {
+			switch rest[1] {
+			case '\'', '"':
+				value = append(value, rest[1])
+				rest = rest[2:]
+				continue
+			case 'X':
+				rest = `\x` + rest[2:]
+			}
+		} else if rest[0] != '\\' {
+			value = append(value, rest[0])
+			rest = rest[1:]
+			continue
+		}
+		c, multibyte, tail, err := strconv.UnquoteChar(rest, 0)
+		if err != nil {
+			return "", err
+		}
+		if multibyte {
+			value = utf8.AppendRune(value, c)
+		} else {
+			value = append(value, byte(c))
+		}
+		rest = tail
+	}
+	return string(value), nil
+}
+
 // VisitValue returns ValueExpr
 func (v *LiteralVisitor) VisitValue(ctx *parser.ValueContext) any {
 	return &definition.ValueExpr{}
-- 
2.43.0


From 6a26b7500240798bba047f544eab517b6a627f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:09 +0000
Subject: [PATCH 28/32] fix: a type reference with a name of the wrong style is
 an error, not a crash

---
 compiler/proto_visitor.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index e3acb30..0fc78cf 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2163,7 +2163,11 @@ func (v *ProtoVisitor) VisitStructType(ctx *parser.StructTypeContext) any {
 		return ctx.StructDef().Accept(v)
 	}
 	if ctx.StructName() != nil {
-		name := ctx.StructName().Accept(v).(string)
+		ret := ctx.StructName().Accept(v)
+		if err, ok := ret.(error); ok {
+			return err
+		}
+		name := ret.(string)
 		if !v.Unit.GlobalTypes.Has(name) {
 			pos := definition.BasePosition{
 				File:   v.Unit.UnitName.Path,
@@ -2201,7 +2205,11 @@ func (v *ProtoVisitor) VisitStructType(ctx *parser.StructTypeContext) any {
 
 func (v *ProtoVisitor) VisitEnumType(ctx *parser.EnumTypeContext) any {
 	if ctx.EnumName() != nil {
-		name := ctx.EnumName().Accept(v).(string)
+		ret := ctx.EnumName().Accept(v)
+		if err, ok := ret.(error); ok {
+			return err
+		}
+		name := ret.(string)
 		if !v.Unit.GlobalTypes.Has(name) {
 			pos := definition.BasePosition{
 				File:   v.Unit.UnitName.Path,
-- 
2.43.0


From a14ff37d2f82db507da59a11b5cdf5ba952dbda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:40 +0000
Subject: [PATCH 29/32] fix: every run of generator.Generate gets a generator
 of its own

---
 generator/generator.go | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 277b57a..1df37b4 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -22,21 +22,27 @@ type Generator interface {
 	Generate(ctx *gen.GenCtx) (err error, warning error)
 }
 
-var TargetMap *util.OrderedMap[string, Generator]
+// Target makes the generators of one target. A generator keeps what it has
+// generated, so every run gets its own.
+type Target struct {
+	New func() Generator
+}
+
+var TargetMap *util.OrderedMap[string, *Target]
 
 func init() {
-	// dumpGen := dump.NewDumpGenerator()
-	cGen := c.NewCGenerator()
-	cppGen := cpp.NewCppGenerator()
-	csharpGen := csharp.NewCSharpGenerator()
-	commonjsGen := commonjs.NewCommonJSGenerator()
-	esmGen := esm.NewESModuleGenerator()
-	goGen := golang.NewGoGenerator()
-	javaGen := java.NewJavaGenerator()
-	kotlinGen := kotlin.NewKotlinGenerator()
-	pythonGen := python.NewPythonGenerator()
+	// dumpGen := &Target{func() Generator { return dump.NewDumpGenerator() }}
+	cGen := &Target{func() Generator { return c.NewCGenerator() }}
+	cppGen := &Target{func() Generator { return cpp.NewCppGenerator() }}
+	csharpGen := &Target{func() Generator { return csharp.NewCSharpGenerator() }}
+	commonjsGen := &Target{func() Generator { return commonjs.NewCommonJSGenerator() }}
+	esmGen := &Target{func() Generator { return esm.NewESModuleGenerator() }}
+	goGen := &Target{func() Generator { return golang.NewGoGenerator() }}
+	javaGen := &Target{func() Generator { return java.NewJavaGenerator() }}
+	kotlinGen := &Target{func() Generator { return kotlin.NewKotlinGenerator() }}
+	pythonGen := &Target{func() Generator { return python.NewPythonGenerator() }}
 
-	TargetMap = util.NewOrderedMap[string, Generator]()
+	TargetMap = util.NewOrderedMap[string, *Target]()
 	// TargetMap.Put("dump", dumpGen)
 	TargetMap.Put("c", cGen)
 	TargetMap.Put("cpp", cppGen)
@@ -59,7 +65,7 @@ func init() {
 
 func ListGenerators() []string {
 	var ret []string
-	var last Generator
+	var last *Target
 	var aliases []string
 	for _, entry := range TargetMap.Entries() {
 		key := entry.Key
@@ -88,7 +94,7 @@ func GetGenerator(target string) (Generator, error) {
 			Err: &definition.TargetNotSpecifiedError{},
 		}
 	}
-	generator, ok := TargetMap.Get(target)
+	entry, ok := TargetMap.Get(target)
 	if !ok {
 		return nil, &definition.GeneralError{
 			Err: &definition.TargetNotSupportedError{
@@ -96,7 +102,7 @@ func GetGenerator(target string) (Generator, error) {
 			},
 		}
 	}
-	return generator, nil
+	return entry.New(), nil
 }
 
 func Generate(target string, output string, options *gen.GenOptions, units ...*definition.CompilationUnit) (retErr error, retWarning error) {
-- 
2.43.0


From 4e75c68723082ea44669d92d89c316f80bbd693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:23 +0000
Subject: [PATCH 30/32] fix: a negative constant in an accessor expression
 keeps its sign to itself

---
 generator/gen/gen_dispatcher.go       | 10 ++++++++++
 generator/target/c/c.go               |  2 +-
 generator/target/commonjs/commonjs.go |  2 +-
 generator/target/cpp/cpp.go           |  2 +-
 generator/target/csharp/csharp.go     |  2 +-
 generator/target/esm/esm_decode.go    |  2 +-
 generator/target/golang/golang.go     |  2 +-
 generator/target/java/java.go         |  2 +-
 generator/target/kotlin/kotlin.go     |  2 +-
 generator/target/python/python.go     |  2 +-
 10 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/generator/gen/gen_dispatcher.go b/generator/gen/gen_dispatcher.go
index 4503fe5..3e6593a 100644
--- a/generator/gen/gen_dispatcher.go
+++ b/generator/gen/gen_dispatcher.go
@@ -106,6 +106,16 @@ func FormatFloatLiteral(literal *definition.FloatLiteral) string {
 	return text
 }
 
+// ParenNegative puts a negative constant of an expression in parentheses, so
+// that its sign neither joins another one ("--10") nor applies to more than the
+// constant ("-10 ** 2").
+func ParenNegative(text string, err error) (string, error) {
+	if strings.HasPrefix(text, "-") {
+		text = "(" + text + ")"
+	}
+	return text, err
+}
+
 // FormatStringLiteral renders a string between double quotes; other control
 // characters than line ends and tabs are escaped in the given format.
 func FormatStringLiteral(literal *definition.StringLiteral, control string) string {
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index c0f9306..b974453 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -3347,7 +3347,7 @@ func (g CExprGenerator) GenerateConstantExpr(expr *definition.ConstantExpr) (str
 	if generator == nil {
 		generator = NewCLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	return gen.ParenNegative(g.AcceptLiteral(expr.ConstantValue, generator))
 }
 
 func (g CExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 075a60c..25007e4 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3778,7 +3778,7 @@ func (g CommonJSExprGenerator) GenerateConstantExpr(expr *definition.ConstantExp
 	if generator == nil {
 		generator = NewCommonJSLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	return gen.ParenNegative(g.AcceptLiteral(expr.ConstantValue, generator))
 }
 
 func (g CommonJSExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index ce9f878..a26044a 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -3615,7 +3615,7 @@ func (g CppExprGenerator) GenerateConstantExpr(expr *definition.ConstantExpr) (s
 	if generator == nil {
 		generator = NewCLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	return gen.ParenNegative(g.AcceptLiteral(expr.ConstantValue, generator))
 }
 
 func (g CppExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index e666020..8d30f2f 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -3540,7 +3540,7 @@ func (g CSharpExprGenerator) GenerateConstantExpr(expr *definition.ConstantExpr)
 	if generator == nil {
 		generator = NewCSharpLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	return gen.ParenNegative(g.AcceptLiteral(expr.ConstantValue, generator))
 }
 
 func (g CSharpExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index b8d89e1..06d659f 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -956,7 +956,7 @@ func (g ESModuleExprGenerator) GenerateConstantExpr(expr *definition.ConstantExp
 	if generator == nil {
 		generator = NewESModuleLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	return gen.ParenNegative(g.AcceptLiteral(expr.ConstantValue, generator))
 }
 
 func (g ESModuleExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 3f9b386..3fc3235 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -2954,7 +2954,7 @@ func (g GoExprGenerator) GenerateConstantExpr(expr *definition.ConstantExpr) (st
 	if generator == nil {
 		generator = NewCLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	return gen.ParenNegative(g.AcceptLiteral(expr.ConstantValue, generator))
 }
 
 func (g GoExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 5a14498..daefd5a 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -3246,7 +3246,7 @@ func (g JavaExprGenerator) GenerateConstantExpr(expr *definition.ConstantExpr) (
 	if generator == nil {
 		generator = NewJavaLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	return gen.ParenNegative(g.AcceptLiteral(expr.ConstantValue, generator))
 }
 
 func (g JavaExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index 6fdcf09..82de805 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -489,7 +489,7 @@ func (g *KotlinGenerator) generateExpr(expr definition.Expr, value string) (stri
 	case *definition.RawExpr:
 		return e.Expr, nil
 	case *definition.ConstantExpr:
-		return g.literalForType(e.ConstantValue, e.ConstantType)
+		return gen.ParenNegative(g.literalForType(e.ConstantValue, e.ConstantType))
 	case *definition.CastExpr:
 		inner, err := g.generateExpr(e.Expr1, value)
 		if err != nil {
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index c428866..6ec75b2 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2513,7 +2513,7 @@ func (g PythonExprGenerator) GenerateConstantExpr(expr *definition.ConstantExpr)
 	if generator == nil {
 		generator = NewPythonLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	return gen.ParenNegative(g.AcceptLiteral(expr.ConstantValue, generator))
 }
 
 func (g PythonExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
-- 
2.43.0


From 5d64293b25d9c2811d4e2832beefb18d3edf7a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:23 +0000
Subject: [PATCH 31/32] fix: a logical not in a Python accessor is followed by
 its operand

---
 generator/target/python/python.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 6ec75b2..e4d6e03 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2463,7 +2463,7 @@ var exprOpToString = map[definition.ExprOp]string{
 	definition.ExprOp_BOR:    "|",
 	definition.ExprOp_AND:    "and",
 	definition.ExprOp_OR:     "or",
-	definition.ExprOp_NOT:    "not",
+	definition.ExprOp_NOT:    "not ",
 	definition.ExprOp_BNOT:   "~",
 	definition.ExprOp_ASSIGN: "=",
 }
-- 
2.43.0


From 12c4180621184bdb92afcb33671a10376ace0d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:35 +0000
Subject: [PATCH 32/32] fix: the accessors of an embedded struct's field belong
 to the embedding struct too

---
 definition/field.go  | 14 +++++++++++++-
 definition/method.go |  9 +++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/definition/field.go b/definition/field.go
index 318653a..9d7d6dc 100644
--- a/definition/field.go
+++ b/definition/field.go
@@ -130,10 +130,22 @@ func (f NormalField) Copy() Field {
 		FieldName:    f.FieldName,
 		FieldType:    f.FieldType,
 		FieldBitSize: f.FieldBitSize,
-		FieldMethods: f.FieldMethods,
 		FieldOptions: f.FieldOptions,
 		FieldBelongs: f.FieldBelongs,
 	}
+	if f.FieldMethods != nil {
+		// the methods of the copy belong to the copy
+		newField.FieldMethods = util.NewOrderedMap[string, *util.OrderedMap[MethodKindID, Method]]()
+		for _, group := range f.FieldMethods.Entries() {
+			newGroup := util.NewOrderedMap[MethodKindID, Method]()
+			for _, method := range group.Value.Entries() {
+				newMethod := method.Value.Copy()
+				newMethod.SetMethodBelongs(&newField)
+				newGroup.Put(method.Key, newMethod)
+			}
+			newField.FieldMethods.Put(group.Key, newGroup)
+		}
+	}
 	return &newField
 }
 
diff --git a/definition/method.go b/definition/method.go
index 52dcb65..1e26b0a 100644
--- a/definition/method.go
+++ b/definition/method.go
@@ -39,6 +39,7 @@ type Method interface {
 	GetMethodName() string
 	GetMethodBelongs() *NormalField
 	SetMethodBelongs(*NormalField)
+	Copy() Method
 }
 
 var _ Method = (*GetMethod)(nil)
@@ -68,6 +69,10 @@ func (m *GetMethod) SetMethodBelongs(belongs *NormalField) {
 	m.MethodBelongs = belongs
 }
 
+func (m GetMethod) Copy() Method {
+	return &m
+}
+
 type SetMethod struct {
 	BasePosition
 
@@ -93,6 +98,10 @@ func (m *SetMethod) SetMethodBelongs(belongs *NormalField) {
 	m.MethodBelongs = belongs
 }
 
+func (m SetMethod) Copy() Method {
+	return &m
+}
+
 // type Method struct {
 //     BasePosition
 
-- 
2.43.0

