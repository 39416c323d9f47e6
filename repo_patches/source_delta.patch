From 873a3166b79d96099fe2bec97ced35cd35707ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 01/34] fix: stop parsing when the selection set of an inline
 fragment is invalid

---
 bytecode/bytecode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 844a1c2..191ca73 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -513,7 +513,10 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 						return ctx.err(`expected selection set open ("{") on inline fragment but got "` + string(c) + `"`)
 					}
 					ctx.charNr++
-					ctx.parseSelectionSet()
+					criticalErr := ctx.parseSelectionSet()
+					if criticalErr {
+						return criticalErr
+					}
 					ctx.instructionEnd()
 					c, eof = ctx.mightIgnoreNextTokens()
 					if eof {
-- 
2.43.0


From 6e25caf37a99cab089de405c8a0d52bae01bf91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:38 +0000
Subject: [PATCH 02/34] fix: limit the nesting depth of queries so parsing
 cannot overflow the stack

---
 bytecode/bytecode.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 191ca73..001af2c 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -25,6 +25,19 @@ type ParserCtx struct {
 	Hasher               hash.Hash32
 	cache                *cache.BytecodeCache
 	CacheableQueryMinLen int // Default = 300
+	nesting              int // Number of selection sets, input values or list types the parser is currently inside of
+}
+
+// maxNesting limits how deep selection sets, input values and list types can be nested
+// The parser is recursive so without a limit a query could overflow the stack
+const maxNesting = 1000
+
+func (ctx *ParserCtx) enterNesting() (criticalErr bool) {
+	if ctx.nesting >= maxNesting {
+		return ctx.err("query is nested too deep")
+	}
+	ctx.nesting++
+	return false
 }
 
 // NewParserCtx returns a new instance of ParserCtx
@@ -389,10 +402,11 @@ func (ctx *ParserCtx) parseGraphqlTypeName(c byte) bool {
 			return ctx.unexpectedEOF()
 		}
 
-		criticalErr := ctx.parseGraphqlTypeName(c)
+		criticalErr := ctx.enterNesting() || ctx.parseGraphqlTypeName(c)
 		if criticalErr {
 			return criticalErr
 		}
+		ctx.nesting--
 
 		c, eof = ctx.mightIgnoreNextTokens()
 		if eof {
@@ -513,10 +527,11 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 						return ctx.err(`expected selection set open ("{") on inline fragment but got "` + string(c) + `"`)
 					}
 					ctx.charNr++
-					criticalErr := ctx.parseSelectionSet()
+					criticalErr := ctx.enterNesting() || ctx.parseSelectionSet()
 					if criticalErr {
 						return criticalErr
 					}
+					ctx.nesting--
 					ctx.instructionEnd()
 					c, eof = ctx.mightIgnoreNextTokens()
 					if eof {
@@ -613,10 +628,11 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 		if c == '{' {
 			ctx.charNr++
 
-			criticalErr := ctx.parseSelectionSet()
+			criticalErr := ctx.enterNesting() || ctx.parseSelectionSet()
 			if criticalErr {
 				return criticalErr
 			}
+			ctx.nesting--
 
 			// ctx.charNr++
 
@@ -755,10 +771,11 @@ func (ctx *ParserCtx) parseInputValue() bool {
 		}
 
 		for {
-			criticalErr := ctx.parseInputValue()
+			criticalErr := ctx.enterNesting() || ctx.parseInputValue()
 			if criticalErr {
 				return criticalErr
 			}
+			ctx.nesting--
 
 			c, eof := ctx.mightIgnoreNextTokens()
 			if eof {
@@ -784,7 +801,12 @@ func (ctx *ParserCtx) parseInputValue() bool {
 
 	if c == '{' {
 		ctx.charNr++
-		return ctx.parseAssignmentSet('}')
+		criticalErr := ctx.enterNesting() || ctx.parseAssignmentSet('}')
+		if criticalErr {
+			return criticalErr
+		}
+		ctx.nesting--
+		return false
 	}
 
 	if c == 't' || c == 'f' {
-- 
2.43.0


From e8969dd2a1c89af64a72bd487709054d83191005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 03/34] fix: do not crash on a type method named Resolve

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index da6d644..abdca17 100644
--- a/parse.go
+++ b/parse.go
@@ -739,7 +739,7 @@ func (c *parseCtx) checkFunction(name string, t reflect.Type, isTypeMethod bool,
 	trimmedName := name
 
 	if strings.HasPrefix(name, "Resolve") {
-		if len(name) > 0 {
+		if len(name) > len("Resolve") {
 			trimmedName = strings.TrimPrefix(name, "Resolve")
 			if isTypeMethod && strings.ToUpper(string(trimmedName[0]))[0] != trimmedName[0] {
 				// Resolve name must start with a uppercase letter
-- 
2.43.0


From 203ae5832e3bb9216f5ee014b0aa6bb0602a0fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:05 +0000
Subject: [PATCH 04/34] fix: write a value for __typename with a selection set

---
 resolver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resolver.go b/resolver.go
index 00e1747..0157d71 100644
--- a/resolver.go
+++ b/resolver.go
@@ -572,6 +572,7 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 		name := b2s(ctx.query.Res[startOfName:endOfName])
 		if name == "__typename" {
 			if fieldHasSelection {
+				ctx.writeNull()
 				criticalErr = ctx.err("cannot have a selection set on this field")
 			} else {
 				ctx.writeQuoted(typeObj.typeNameBytes)
-- 
2.43.0


From ed5818339af724ff9abd5f93723e31b33a7d9f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:07 +0000
Subject: [PATCH 05/34] fix: write a value when binding the arguments of a
 field fails

---
 resolver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resolver.go b/resolver.go
index 0157d71..16ca382 100644
--- a/resolver.go
+++ b/resolver.go
@@ -802,6 +802,7 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 
 		outs, criticalErr := ctx.callQlMethod(method, &goValue, ctx.seekInst() == 'v')
 		if criticalErr {
+			ctx.writeNull()
 			return criticalErr
 		}
 
-- 
2.43.0


From 2279cca1a64f273ac8378887efe4f7548ca83e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:09 +0000
Subject: [PATCH 06/34] fix: move past the end of a list value

---
 resolver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resolver.go b/resolver.go
index 16ca382..d9578f0 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1595,6 +1595,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			}
 			arr = reflect.Append(arr, arrayEntry)
 		}
+		ctx.skipInst(2) // read ActionEnd and NULL
 
 		goValue.Set(arr)
 	case bytecode.ValueObject:
-- 
2.43.0


From 4c59e5f527a72e5ad3ee4c48dc6683faef759b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:10 +0000
Subject: [PATCH 07/34] fix: move past null values for pointers

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index d9578f0..34e2e90 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1405,7 +1405,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 	isPtr, valueSet, criticalErr = ctx.checkInputIsPtr(goValue, valueStructure, func(goValue *reflect.Value, input *input) (valueSet bool, criticalErr bool) {
 		if ctx.query.Res[ctx.charNr+1] == bytecode.ValueNull {
 			// keep goValue at it's default
-			ctx.skipInst(6)
+			ctx.skipInst(7)
 			return false, false
 		}
 		return ctx.bindInputToGoValue(goValue, input, variablesAllowed)
-- 
2.43.0


From b19eef80df3cbaa6e02c7657b68ff46c93bf9abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:12 +0000
Subject: [PATCH 08/34] fix: keep pointer input objects whose last property is
 null

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 34e2e90..18c6938 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1617,7 +1617,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			}
 
 			field := goValue.Field(structFieldValueStructure.goFieldIdx)
-			valueSet, criticalErr = ctx.bindInputToGoValue(&field, &structFieldValueStructure, variablesAllowed)
+			_, criticalErr := ctx.bindInputToGoValue(&field, &structFieldValueStructure, variablesAllowed)
 			return criticalErr
 		})
 		if criticalErr {
-- 
2.43.0


From 955d588c9efb11e3ed101eff4cf8339e4b93e127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:14 +0000
Subject: [PATCH 09/34] fix: SetContext on a request without a context

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 18c6938..7424d72 100644
--- a/resolver.go
+++ b/resolver.go
@@ -114,7 +114,7 @@ func (ctx *Ctx) GetContext() context.Context {
 func (ctx *Ctx) SetContext(newContext context.Context) {
 	if newContext == nil {
 		ctx.context = nil
-	} else if ctx == nil {
+	} else if ctx.context == nil {
 		ctx.context = &newContext
 	} else {
 		*ctx.context = newContext
-- 
2.43.0


From e8fbd984d3adc05ae0a31a2df93949bce897349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 10/34] fix: match fragments by their full name

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 7424d72..79245c0 100644
--- a/resolver.go
+++ b/resolver.go
@@ -475,7 +475,7 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 		if fragmentNameEnd >= ctxQueryResLen {
 			continue
 		}
-		if bytes.Equal(ctx.query.Res[fragmentNameStart:fragmentNameEnd], name) {
+		if ctx.query.Res[fragmentNameEnd] == 0 && bytes.Equal(ctx.query.Res[fragmentNameStart:fragmentNameEnd], name) {
 			originalCharNr := ctx.charNr
 			ctx.charNr = fragmentNameEnd + 1
 
-- 
2.43.0


From cb6f07d8b84a796bfb5952d45b70cf93bca783e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:17 +0000
Subject: [PATCH 11/34] fix: cache the mutation type fields under the mutation
 type

---
 inject_schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inject_schema.go b/inject_schema.go
index 56ee03e..55230c9 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -93,7 +93,7 @@ func (s *Schema) getQLSchema() qlSchema {
 				}
 				sort.Slice(res, func(a int, b int) bool { return res[a].Name < res[b].Name })
 
-				s.graphqlObjFields[s.rootQuery.typeName] = res
+				s.graphqlObjFields[s.rootMethod.typeName] = res
 				return res
 			},
 			Interfaces: []qlType{},
-- 
2.43.0


From ed05436a0da3240720533a472ad7ac9e1d71a64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:19 +0000
Subject: [PATCH 12/34] fix: copy the fragment locations stored in the cache

---
 bytecode/cache/bytecode_cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytecode/cache/bytecode_cache.go b/bytecode/cache/bytecode_cache.go
index e8520f5..d8afffd 100644
--- a/bytecode/cache/bytecode_cache.go
+++ b/bytecode/cache/bytecode_cache.go
@@ -70,7 +70,7 @@ func (c BytecodeCache) SetEntry(query, bytecode []byte, target *string, targetId
 		bytecode:         make([]byte, len(bytecode)),
 		target:           targetCopy,
 		targetIdx:        targetIdx,
-		fragmentLocation: fragmentLocation,
+		fragmentLocation: append([]int(nil), fragmentLocation...),
 	}
 	copy(newCacheEntry.query, query)
 	copy(newCacheEntry.bytecode, bytecode)
-- 
2.43.0


From ce7d973c3d31c79b2684acf2afced3e128144549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:20 +0000
Subject: [PATCH 13/34] fix: write times in UTC

---
 helpers/time.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers/time.go b/helpers/time.go
index 9cb0594..81e719a 100644
--- a/helpers/time.go
+++ b/helpers/time.go
@@ -20,5 +20,5 @@ func ParseIso8601String(val string) (time.Time, error) {
 // TimeToIso8601String converts a time.Time to a string in the ISO 8601 format
 // The value is appended to the target
 func TimeToIso8601String(target *[]byte, t time.Time) {
-	*target = t.AppendFormat(*target, timeISO8601Layout)
+	*target = t.UTC().AppendFormat(*target, timeISO8601Layout)
 }
-- 
2.43.0


From d2bdfdaa7c08f26f8ccbcad789d555b6839186ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:22 +0000
Subject: [PATCH 14/34] fix: check the range of variables bound to unsigned
 integers

---
 resolver.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resolver.go b/resolver.go
index 79245c0..028c2e3 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1270,15 +1270,15 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				uintVal := uint64(intVal)
 
 				switch goValue.Kind() {
-				case reflect.Int8:
+				case reflect.Uint8:
 					if uint64(uint8(uintVal)) != uintVal {
 						return false, ctx.errf("cannot assign %d to a 8bit unsigned integer", uintVal)
 					}
-				case reflect.Int16:
+				case reflect.Uint16:
 					if uint64(uint16(uintVal)) != uintVal {
 						return false, ctx.errf("cannot assign %d to a 16bit unsigned integer", uintVal)
 					}
-				case reflect.Int32:
+				case reflect.Uint32:
 					if uint64(uint32(uintVal)) != uintVal {
 						return false, ctx.errf("cannot assign %d to a 32bit unsigned integer", uintVal)
 					}
-- 
2.43.0


From 24ced84a04f41c6a2fcfb0e0598f8c8d427f1d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:23 +0000
Subject: [PATCH 15/34] fix: check the range of ID values bound to small
 integers

---
 resolver.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/resolver.go b/resolver.go
index 028c2e3..f7d7469 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1134,7 +1134,9 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				if err != nil {
 					return false, ctx.err("id argument must match a number type")
 				}
-				// TODO check if the int value can be assigned to int8 - int32
+				if goValue.OverflowInt(int64(intValue)) {
+					return false, ctx.err("cannot assign " + stringValue + " to a " + goValue.Kind().String())
+				}
 				goValue.SetInt(int64(intValue))
 				valueSet = true
 			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
@@ -1145,7 +1147,9 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				if intValue < 0 {
 					return false, ctx.err("id argument must match a number above 0")
 				}
-				// TODO check if the int value can be assigned to uint8 - uint32
+				if goValue.OverflowUint(uint64(intValue)) {
+					return false, ctx.err("cannot assign " + stringValue + " to a " + goValue.Kind().String())
+				}
 				goValue.SetUint(uint64(intValue))
 				valueSet = true
 			default:
@@ -1342,7 +1346,9 @@ func (ctx *Ctx) assignStringToValue(goValue *reflect.Value, valueStructure *inpu
 			if err != nil {
 				return ctx.err("id argument must match a number type")
 			}
-			// TODO check if the int value can be assigned to int8 - int32
+			if goValue.OverflowInt(int64(intValue)) {
+				return ctx.err("cannot assign " + stringValue + " to a " + goValue.Kind().String())
+			}
 			goValue.SetInt(int64(intValue))
 		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			intValue, err := strconv.Atoi(stringValue)
@@ -1352,7 +1358,9 @@ func (ctx *Ctx) assignStringToValue(goValue *reflect.Value, valueStructure *inpu
 			if intValue < 0 {
 				return ctx.err("id argument must match a number above 0")
 			}
-			// TODO check if the int value can be assigned to uint8 - uint32
+			if goValue.OverflowUint(uint64(intValue)) {
+				return ctx.err("cannot assign " + stringValue + " to a " + goValue.Kind().String())
+			}
 			goValue.SetUint(uint64(intValue))
 		default:
 			return ctx.err("internal error: cannot assign to this ID field")
-- 
2.43.0


From 9d3490f2bfa9774b01516c079e89719db0ba5065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:02 +0000
Subject: [PATCH 16/34] fix: read scalar argument values by their length

---
 resolver.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/resolver.go b/resolver.go
index f7d7469..2edfe7b 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1424,11 +1424,9 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 
 	getValue := func() (start int, end int) {
 		start = ctx.charNr
-		for {
-			if ctx.readInst() == 0 {
-				return start, ctx.charNr - 1
-			}
-		}
+		end = start + int(ctx.readUint32(start-4))
+		ctx.charNr = end + 1 // also skip the NULL byte behind the value
+		return start, end
 	}
 
 	ctx.skipInst(1)             // read ActionValue
-- 
2.43.0


From dde7df85aaa0d570b206c1ded3bd31863f66025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:04 +0000
Subject: [PATCH 17/34] fix: copy strings handed to resolvers

---
 resolver.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resolver.go b/resolver.go
index 2edfe7b..e2849c0 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1095,7 +1095,7 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				return false, ctx.err("cannot assign " + jsonDataType.String() + " to this field's value")
 			}
 		}
-		stringValue := b2s(jsonData.GetStringBytes())
+		stringValue := string(jsonData.GetStringBytes())
 
 		if valueStructure.isEnum {
 			if jsonDataType != fastjson.TypeString {
@@ -1234,7 +1234,7 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 		valueSet = true
 	case fastjson.TypeString:
 		valueSet = true
-		criticalErr := ctx.assignStringToValue(goValue, valueStructure, b2s(jsonData.GetStringBytes()))
+		criticalErr := ctx.assignStringToValue(goValue, valueStructure, string(jsonData.GetStringBytes()))
 		if criticalErr {
 			return valueSet, criticalErr
 		}
@@ -1538,7 +1538,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 		}
 	case bytecode.ValueString:
 		startString, endString := getValue()
-		stringValue := b2s(ctx.query.Res[startString:endString])
+		stringValue := string(ctx.query.Res[startString:endString])
 		criticalErr := ctx.assignStringToValue(goValue, valueStructure, stringValue)
 		if criticalErr {
 			return false, criticalErr
-- 
2.43.0


From e1de7dfeddd6ad0c1afc0b5860ce39e2501c4c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:05 +0000
Subject: [PATCH 18/34] fix: do not crash on file variables without form files

---
 resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resolver.go b/resolver.go
index e2849c0..8f0bce5 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1160,6 +1160,9 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				return false, ctx.err("cannot assign " + jsonDataType.String() + " to Time value")
 			}
 
+			if ctx.getFormFile == nil {
+				return false, ctx.err("form files are not supported")
+			}
 			file, err := ctx.getFormFile(stringValue)
 			if err != nil {
 				return false, ctx.err(err.Error())
-- 
2.43.0


From 3df618cfe97c487cc738835d269c52a8ea6c39cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 19/34] fix: ignore unexported fields of input structs

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index abdca17..1fff083 100644
--- a/parse.go
+++ b/parse.go
@@ -605,8 +605,8 @@ func (c *parseCtx) checkFunctionInputStruct(field *reflect.StructField, idx int)
 		return fmt.Errorf("%s, struct field: %s", err.Error(), field.Name)
 	}
 
-	if field.Anonymous {
-		// skip field
+	if field.Anonymous || field.PkgPath != "" {
+		// skip embedded and unexported fields, these cannot be set
 		return res, true, nil
 	}
 
-- 
2.43.0


From 83687cf2a4dfc8fef7fd4ec539029b362cebb54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 20/34] fix: list the arguments of directives

---
 parse.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/parse.go b/parse.go
index 1fff083..4f50a2f 100644
--- a/parse.go
+++ b/parse.go
@@ -326,17 +326,6 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		}
 	}
 
-	if options == nil || !options.SkipGraphqlTypesInjection {
-		s.injectQLTypes(ctx)
-	}
-
-	for _, method := range ctx.parsedMethods {
-		err = ctx.checkFunctionIns(method)
-		if err != nil {
-			return err
-		}
-	}
-
 	for _, directiveLocation := range ctx.schema.definedDirectives {
 		for _, directive := range directiveLocation {
 			if directive.parsedMethod.checkedIns {
@@ -350,6 +339,17 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		}
 	}
 
+	if options == nil || !options.SkipGraphqlTypesInjection {
+		s.injectQLTypes(ctx)
+	}
+
+	for _, method := range ctx.parsedMethods {
+		err = ctx.checkFunctionIns(method)
+		if err != nil {
+			return err
+		}
+	}
+
 	s.ctx = newCtx(s)
 	s.parsed = true
 
-- 
2.43.0


From 76f3b4957dd40529ee396286a2a3bdc7a5485041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:41 +0000
Subject: [PATCH 21/34] fix: describe enums and nested input objects in
 introspection

---
 inject_schema.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/inject_schema.go b/inject_schema.go
index 55230c9..954dfab 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -223,18 +223,28 @@ func (s *Schema) inputToQLType(in *input) (res *qlType, isNonNull bool) {
 		return
 	}
 
+	if in.isEnum {
+		enumType := s.definedEnums[in.enumTypeIndex].qlType
+		return &enumType, true
+	}
+
 	switch in.kind {
 	case reflect.Struct:
 		isNonNull = true
 
+		structContent := in.structContent
+		if in.isStructPointers {
+			structContent = s.inTypes[in.structName].structContent
+		}
+
 		res = &qlType{
 			Kind:        typeKindInputObject,
 			Name:        h.StrPtr(in.structName),
 			Description: h.PtrToEmptyStr,
 			InputFields: func() []qlInputValue {
-				res := make([]qlInputValue, len(in.structContent))
+				res := make([]qlInputValue, len(structContent))
 				i := 0
-				for key, item := range in.structContent {
+				for key, item := range structContent {
 					res[i] = qlInputValue{
 						Name:         key,
 						Description:  h.PtrToEmptyStr,
-- 
2.43.0


From 87579c3e32541c2c0b28abb90f89bfdf975b207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 22/34] fix: keep hidden fields hidden in copied schemas

---
 copy_schema.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copy_schema.go b/copy_schema.go
index 680d957..7f09eb9 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -174,6 +174,7 @@ func (o *obj) copy() *obj {
 		goTypeName:     o.goTypeName,
 		goPkgPath:      o.goPkgPath,
 		qlFieldName:    o.qlFieldName[:],
+		hidden:         o.hidden,
 		customObjValue: o.customObjValue, // maybe TODO
 		structFieldIdx: o.structFieldIdx,
 		dataValueType:  o.dataValueType,
-- 
2.43.0


From b5b34fb9e04b1454c43f41f9c0ba441873bdb82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:44 +0000
Subject: [PATCH 23/34] fix: copy the description of graphql types

---
 copy_schema.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 7f09eb9..2fc3b1d 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -133,8 +133,7 @@ func (m *qlType) copy() *qlType {
 		*res.Name = *m.Name
 	}
 	if m.Description != nil {
-		res.Name = helpers.StrPtr("")
-		*res.Name = *m.Name
+		res.Description = helpers.StrPtr(*m.Description)
 	}
 	if m.Interfaces != nil {
 		res.Interfaces = make([]qlType, len(m.Interfaces))
-- 
2.43.0


From 920d6cf38e9350cb00ab0febb40422fa5b76caec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:46 +0000
Subject: [PATCH 24/34] fix: give copied schemas their own tracer

---
 copy_schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copy_schema.go b/copy_schema.go
index 2fc3b1d..4d1dc0c 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -69,7 +69,7 @@ func (ctx *Ctx) copy(schema *Schema) *Ctx {
 		operatorHasArguments:     ctx.operatorHasArguments,
 		operatorArgumentsStartAt: ctx.operatorArgumentsStartAt,
 		tracingEnabled:           ctx.tracingEnabled,
-		tracing:                  ctx.tracing,
+		tracing:                  newTracer(),
 		prefRecordingStartTime:   ctx.prefRecordingStartTime,
 		rawVariables:             ctx.rawVariables,
 		variablesParsed:          false,
-- 
2.43.0


From c023871fc603133afd9acfc9e653e16e18cc0ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:48 +0000
Subject: [PATCH 25/34] fix: register enums with named string keys and reject
 non maps

---
 enums.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enums.go b/enums.go
index f609252..7f75257 100644
--- a/enums.go
+++ b/enums.go
@@ -72,7 +72,7 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 	mapReflection := reflect.ValueOf(enumMap)
 	invalidTypeMsg := fmt.Errorf("RegisterEnum input must be of type map[string]CustomType(int..|uint..|string) as input, %+v given", enumMap)
 
-	if enumMap == nil || mapReflection.IsZero() || mapReflection.IsNil() {
+	if enumMap == nil || mapReflection.Kind() != reflect.Map || mapReflection.IsNil() {
 		return nil, invalidTypeMsg
 	}
 
@@ -108,7 +108,7 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 	i := 0
 	for iter.Next() {
 		k := iter.Key()
-		keyStr := k.Interface().(string)
+		keyStr := k.String()
 		if keyStr == "" {
 			return nil, errors.New("RegisterEnum input map cannot contain empty keys")
 		}
-- 
2.43.0


From e439376935745cc3976adbb0e3b5051498ba6e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:49 +0000
Subject: [PATCH 26/34] fix: do not mix up enums with equal names from
 different packages

---
 enums.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enums.go b/enums.go
index 7f75257..c152bd6 100644
--- a/enums.go
+++ b/enums.go
@@ -29,7 +29,7 @@ func (s *Schema) getEnum(t reflect.Type) (int, *enum) {
 	}
 
 	for i, enum := range s.definedEnums {
-		if enum.typeName == t.Name() {
+		if enum.contentType == t {
 			return i, &enum
 		}
 	}
-- 
2.43.0


From 5f1d0e8670060e061746da07438b9ff0b30bacfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 27/34] fix: reject directives whose method is not a function

---
 directives.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/directives.go b/directives.go
index cd3cadf..6444484 100644
--- a/directives.go
+++ b/directives.go
@@ -125,12 +125,12 @@ func checkDirective(directive *Directive) error {
 		return errors.New("method must be defined")
 	}
 	directive.methodReflection = reflect.ValueOf(directive.Method)
-	if directive.methodReflection.IsNil() {
-		return errors.New("method must be defined")
-	}
 	if directive.methodReflection.Kind() != reflect.Func {
 		return errors.New("method is not a function")
 	}
+	if directive.methodReflection.IsNil() {
+		return errors.New("method must be defined")
+	}
 	methodType := directive.methodReflection.Type()
 	switch methodType.NumOut() {
 	case 0:
-- 
2.43.0


From 566b4ca45ad10be003f79f108ab341fd1bde906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:53 +0000
Subject: [PATCH 28/34] fix: do not register a directive partially

---
 directives.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/directives.go b/directives.go
index 6444484..4e00e65 100644
--- a/directives.go
+++ b/directives.go
@@ -85,21 +85,18 @@ func (s *Schema) RegisterDirective(directive Directive) error {
 		return err
 	}
 
-	ptrToDirective := &directive
+	// Check for already defined directives with the same name
 	for _, location := range directive.Where {
-		directivesForLocation, ok := s.definedDirectives[location]
-		if !ok {
-			directivesForLocation = []*Directive{}
-		} else {
-			// Check for already defined directives with the same name
-			for _, alreadyDefinedDirective := range directivesForLocation {
-				if directive.Name == alreadyDefinedDirective.Name {
-					return errors.New("you cannot have duplicated directive names in " + location.String() + " with name " + directive.Name)
-				}
+		for _, alreadyDefinedDirective := range s.definedDirectives[location] {
+			if directive.Name == alreadyDefinedDirective.Name {
+				return errors.New("you cannot have duplicated directive names in " + location.String() + " with name " + directive.Name)
 			}
 		}
-		directivesForLocation = append(directivesForLocation, ptrToDirective)
-		s.definedDirectives[location] = directivesForLocation
+	}
+
+	ptrToDirective := &directive
+	for _, location := range directive.Where {
+		s.definedDirectives[location] = append(s.definedDirectives[location], ptrToDirective)
 	}
 
 	return nil
-- 
2.43.0


From dd76666a9b9955cf58e3c5a4eee3bce1ae45f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:55 +0000
Subject: [PATCH 29/34] fix: stop at the maximum depth inside interfaces

---
 resolver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resolver.go b/resolver.go
index 8f0bce5..ffec9ae 100644
--- a/resolver.go
+++ b/resolver.go
@@ -761,7 +761,7 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		}
 
 		dept++
-		if dept == ctx.schema.MaxDepth {
+		if dept >= ctx.schema.MaxDepth {
 			ctx.writeNull()
 			return ctx.err("reached max dept")
 		}
@@ -903,7 +903,7 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		// TODO improve performance of the below
 		for _, implementation := range typeObj.implementations {
 			if implementation.goTypeName == goValueName && implementation.goPkgPath == goValuePkgPath {
-				criticalErr := ctx.resolveFieldDataValue(implementation, dept+1, hasSubSelection)
+				criticalErr := ctx.resolveFieldDataValue(implementation, dept, hasSubSelection)
 				ctx.currentReflectValueIdx--
 				return criticalErr
 			}
-- 
2.43.0


From bf84f74b4d2448cfa0ddf9df33dc8759a270e5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 30/34] fix: do not wrap around the stack of go values

---
 copy_schema.go |  2 +-
 resolver.go    | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 4d1dc0c..54494b7 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -75,7 +75,7 @@ func (ctx *Ctx) copy(schema *Schema) *Ctx {
 		variablesParsed:          false,
 		variablesJSONParser:      &fastjson.Parser{},
 		variables:                nil,
-		reflectValues:            [256]reflect.Value{},
+		reflectValues:            make([]reflect.Value, 256),
 		currentReflectValueIdx:   0,
 		funcInputs:               []reflect.Value{},
 		values:                   nil,
diff --git a/resolver.go b/resolver.go
index ffec9ae..df0c6ff 100644
--- a/resolver.go
+++ b/resolver.go
@@ -38,8 +38,8 @@ type Ctx struct {
 	variables           *fastjson.Value  // Parsed variables, only use this if variablesParsed == true
 
 	// Zero alloc values
-	reflectValues          [256]reflect.Value
-	currentReflectValueIdx uint8
+	reflectValues          []reflect.Value
+	currentReflectValueIdx int
 	funcInputs             []reflect.Value
 	ctxReflection          reflect.Value // ptr to the value
 
@@ -52,7 +52,7 @@ func newCtx(s *Schema) *Ctx {
 		schema:                 s,
 		query:                  *bytecode.NewParserCtx(),
 		charNr:                 0,
-		reflectValues:          [256]reflect.Value{},
+		reflectValues:          make([]reflect.Value, 256),
 		currentReflectValueIdx: 0,
 		variablesJSONParser:    &fastjson.Parser{},
 		tracing:                newTracer(),
@@ -71,6 +71,10 @@ func (ctx *Ctx) setNextGoValue(value reflect.Value) {
 }
 
 func (ctx *Ctx) setGoValue(value reflect.Value) {
+	if ctx.currentReflectValueIdx == len(ctx.reflectValues) {
+		ctx.reflectValues = append(ctx.reflectValues, value)
+		return
+	}
 	ctx.reflectValues[ctx.currentReflectValueIdx] = value
 }
 
-- 
2.43.0


From 84f8c2b865d67c554106abf6b2197d88e533b6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:59 +0000
Subject: [PATCH 31/34] fix: reject fragments that spread themselves

---
 resolver.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/resolver.go b/resolver.go
index df0c6ff..595ec91 100644
--- a/resolver.go
+++ b/resolver.go
@@ -40,6 +40,7 @@ type Ctx struct {
 	// Zero alloc values
 	reflectValues          []reflect.Value
 	currentReflectValueIdx int
+	activeFragments        []int // locations of the fragments currently being resolved
 	funcInputs             []reflect.Value
 	ctxReflection          reflect.Value // ptr to the value
 
@@ -426,6 +427,9 @@ func (ctx *Ctx) resolveSelectionSet(typeObj *obj, dept uint8, firstField *bool)
 	}
 }
 
+// maxActiveFragments limits how deep fragment spreads can be nested within each other
+const maxActiveFragments = 500
+
 func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 	isInline := ctx.readInst() == 't'
 	directivesCount := ctx.readInst()
@@ -498,7 +502,18 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 				return false
 			}
 
+			for _, active := range ctx.activeFragments {
+				if active == location {
+					return ctx.err("fragment " + b2s(name) + " cannot spread itself")
+				}
+			}
+			if len(ctx.activeFragments) == maxActiveFragments {
+				return ctx.err("too many nested fragments")
+			}
+
+			ctx.activeFragments = append(ctx.activeFragments, location)
 			criticalErr := ctx.resolveSelectionSet(typeObj, dept, firstField)
+			ctx.activeFragments = ctx.activeFragments[:len(ctx.activeFragments)-1]
 			ctx.charNr = originalCharNr
 			return criticalErr
 		}
-- 
2.43.0


From d586784f069534c146e871711bdad7ee3796364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:19 +0000
Subject: [PATCH 32/34] fix: let introspection of a copied schema use the copy

---
 copy_schema.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/copy_schema.go b/copy_schema.go
index 54494b7..bcb62cd 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -53,6 +53,14 @@ func (s *Schema) Copy() *Schema {
 		graphqlObjFields: map[string][]qlField{},
 	}
 
+	// Let the introspection data refer to the copy
+	schemaKey := getObjKey([]byte("__schema"))
+	if _, ok := res.rootQuery.objContents[schemaKey]; ok {
+		contents := reflect.ValueOf(res.getQLSchema())
+		res.rootQuery.objContents[schemaKey].customObjValue = &contents
+		res.types[res.rootQuery.typeName].objContents[schemaKey].customObjValue = &contents
+	}
+
 	res.ctx = s.ctx.copy(res)
 
 	return res
-- 
2.43.0


From 097f9e58e367ee8b835203a866b76b550a8ae1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:49 +0000
Subject: [PATCH 33/34] fix: accept only the documented ISO 8601 form

---
 helpers/time.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers/time.go b/helpers/time.go
index 81e719a..5d3dde5 100644
--- a/helpers/time.go
+++ b/helpers/time.go
@@ -11,7 +11,7 @@ var timeISO8601Layout = "2006-01-02T15:04:05.000Z"
 // ParseIso8601String parses a string in the ISO 8601 format
 func ParseIso8601String(val string) (time.Time, error) {
 	parsedTime, err := time.Parse(timeISO8601Layout, val)
-	if err != nil {
+	if err != nil || parsedTime.Format(timeISO8601Layout) != val {
 		return time.Time{}, errors.New("time value doesn't match the ISO 8601 layout")
 	}
 	return parsedTime, nil
-- 
2.43.0


From 31db3232758973c7d46faf7a35697524563a80a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:45 +0000
Subject: [PATCH 34/34] fix: allow SetValue when the request's values are a nil
 map

---
 resolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resolver.go b/resolver.go
index 595ec91..e5929c7 100644
--- a/resolver.go
+++ b/resolver.go
@@ -102,6 +102,10 @@ func (ctx *Ctx) SetValue(key string, value interface{}) {
 		ctx.values = &map[string]interface{}{
 			key: value,
 		}
+	} else if *ctx.values == nil {
+		*ctx.values = map[string]interface{}{
+			key: value,
+		}
 	} else {
 		(*ctx.values)[key] = value
 	}
-- 
2.43.0

