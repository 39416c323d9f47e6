#!/usr/bin/env python3
# writes /verif/properties.jsonl
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if 'observe' in kw: a["observe_at"]=kw['observe']
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

B="bytecode/bytecode.go"; R="resolver.go"
p("C01","Compiling a query always terminates and never crashes",
 "For every byte sequence passed as a query and every operation target, compiling it returns after finitely many steps without a panic, an out-of-range access or a stack overflow, however long or deeply nested the text is. It ends with at least one error or with a compiled program.",
 ["inputs"],"all query byte strings (any length, any bytes, any nesting), all targets, any reused parser state left by earlier queries",
 "The tests parse about sixty well-formed queries and a dozen broken ones; truncation at any byte, arbitrary bytes and unbounded nesting are never exercised.",
 [B,"bytecode/bytecode_instructions.go","bytecode/cache/bytecode_cache.go"],
 [("bounds check before every read of the query text","bytecode.go checkC/eof"),("progress of every scan loop","bytecode.go parse*"),("nesting limit","bytecode.go enterNesting")],
 observe=["(*ParserCtx).ParseQueryToBytecode","(*Schema).Resolve"])
p("C02","Compiled programs are well nested and self-describing",
 "Whenever a query compiles without errors, the program is a properly nested sequence of instructions in which every stored length equals the distance to the end it describes, every directive and argument flag and count equals what follows, every recorded fragment location points at a fragment, the entry point points at the requested operation, and each field carries the hash of its real name (not its alias). Compiling never alters instructions that were already written.",
 ["inputs"],"all query texts that compile, all targets",
 "The tests compare about thirty fixed programs byte for byte; lengths above 255, combinations of aliases, directives, arguments and nesting, and arbitrary names are unexplored.",
 [B,"bytecode/bytecode_instructions.go"],
 [("back-patched lengths","bytecode.go writeUint32, writeUint32At call sites"),("name hash","bytecode.go parseSelectionSet Hasher"),("fragment table","bytecode.go parseOperatorOrFragment FragmentLocations")],
 observe=["(*ParserCtx).Res","(*ParserCtx).FragmentLocations","(*ParserCtx).TargetIdx"])
p("C03","Names and scalar literals reach the program unchanged",
 "Every name in a query is carried over byte for byte and only names made of a letter or underscore followed by letters, digits or underscores (at most 254 bytes) are accepted. A number literal is carried over as its digits, minus signs, point and exponent (written E), with only '_' and '+' removed, and is marked as float exactly when it has a point or an exponent; the words true, false and null are recognised only as whole words.",
 ["inputs"],"all names, number literals and keywords in all queries, whatever follows them",
 "The tests use short ASCII names and a handful of literals; boundary lengths (254/255), every terminator and keyword-prefixed names (nullable, trueA, onFoo) are not covered.",
 [B],[("name scanner","bytecode.go parseAndWriteName"),("number scanner","bytecode.go parseNumberInputValue"),("keyword matcher","bytecode.go matches, matchesWord")])
p("C04","Output scalars are encoded as valid JSON without loss",
 "Every string value is written as one valid JSON string literal that decodes to the same text, with invalid UTF-8 replaced by U+FFFD and U+2028/U+2029 escaped. Every integer, float and boolean is written as a valid JSON scalar that reads back as the same value (non-finite floats as 0.0), and appending it leaves earlier output untouched.",
 ["inputs"],"all Go strings (any bytes), all integers, all floats of both widths, any existing output buffer",
 "The repository has no test for the encoders other than a benchmark and a few resolver round trips.",
 ["helpers/encodeString.go","helpers/encodeFloat.go",R],
 [("string escaping","helpers/encodeString.go StringToJSON"),("float formatting","helpers/encodeFloat.go FloatToJSON"),("kind dispatch","resolver.go valueToJSON")])
p("C05","Every response is one well-formed JSON document",
 "Whatever the query, variables, resolver results and errors are, the bytes produced by executing a request form exactly one syntactically valid JSON object: each key is followed by exactly one value, every bracket is closed, and separators are placed correctly. This also holds when fields fail, are skipped by directives, or when the query does not compile.",
 ["inputs","fault_sequences"],"all queries, schemas, variables, resolver results and error positions; with and without metadata and tracing",
 "Tests check selected outputs; the combinations of skipped first/last fields, failing fields, empty lists, fragments and errors are unbounded.",
 [R],[("comma placement","resolver.go resolveSelectionSet, resolveField"),("null on error paths","resolver.go resolveFieldDataValue"),("envelope","resolver.go Resolve")])
p("C06","Integer inputs are stored exactly or rejected",
 "An integer argument given as a literal, a variable, or an ID string is stored in a resolver argument of any signed or unsigned width with exactly its mathematical value, or the request reports an error and the resolver is not called. A value outside the range of the destination is never wrapped or truncated, a value inside it that fits 64 signed bits is accepted, and negative values never reach unsigned arguments.",
 ["inputs"],"all integer texts, all ten integer destination widths, literal, variable and ID sources, at any nesting in lists, pointers and input objects",
 "Tests pass small in-range values; the boundaries of the ten widths times three sources are not tested.",
 [R],[("range checks on literals","resolver.go bindInputToGoValue"),("range checks on variables","resolver.go bindJSONToValue"),("ID strings","resolver.go assignStringToValue, bindJSONToValue")])
p("C07","Execution depth is bounded and always terminates",
 "No field is resolved deeper than the configured maximum depth: at the limit the response holds null there and an error says so. Executing any compiled query terminates without exhausting the stack, including fragments that refer to themselves directly or in a cycle and data that refers to itself.",
 ["inputs","configurations"],"all queries (including cyclic fragments), all self-referential schemas, all maximum depths 0..255",
 "One test checks one depth on one schema; cyclic fragments, interface chains, list nesting and other limits are untested.",
 [R],[("depth counter","resolver.go resolveFieldDataValue dept"),("fragment recursion","resolver.go resolveSpread"),("value stack index","resolver.go setNextGoValue, currentReflectValueIdx")])
p("C08","The compiled-query cache is transparent and bounded",
 "A query answered from the cache yields exactly the program, fragment locations and entry point that compiling the same text for the same operation target would yield, no matter which queries were compiled before or between; a cached answer is never given for a different text or target. The cache never holds more than a fixed number of entries, and a query that failed to compile is never cached.",
 ["inputs","histories"],"all sequences of queries and targets on one parser, of any length",
 "One test checks that two calls hit the cache; eviction, equal-length collisions, differing targets and later mutation of the parser's buffers need histories of queries.",
 ["bytecode/cache/bytecode_cache.go",B],[("lookup key","bytecode/cache/bytecode_cache.go GetEntry"),("insertion, copying and eviction","bytecode/cache/bytecode_cache.go SetEntry"),("use","bytecode.go ParseQueryToBytecode")])
p("C09","Resolver errors are reported once, with the exact path",
 "An error returned by a resolver is added exactly once to the response's errors with the JSON path of response keys (aliases) and list indexes leading to that field, and never stops sibling or parent fields from being resolved. The path visible inside a resolver equals the position of the field being resolved, and is unchanged for the next field whatever happened in the previous one.",
 ["inputs","fault_sequences"],"all queries and all subsets of resolvers that fail, including inside lists, fragments and skipped fields",
 "Two tests check one error each; the path bookkeeping has to hold for every order of nesting, list index and early exit.",
 [R],[("path push/pop","resolver.go resolveField, resolveFieldDataValue"),("error records","resolver.go err")])
p("C10","Directives skip exactly the selected field or fragment",
 "A field or fragment with @skip(if: true) or @include(if: false), or with any custom directive whose method asks to skip, contributes nothing to the response and its resolvers are not called; with the opposite condition it is executed exactly as if the directive were absent. What precedes and follows it is unaffected, unknown directives are reported as errors, and several directives skip if any of them does.",
 ["inputs"],"all queries, all positions of directives on fields, inline fragments and spreads, all conditions as literals or variables",
 "Tests cover one directive at one position each.",
 [R,"directives.go"],[("skip jump","resolver.go resolveField, resolveSpread"),("directive lookup and call","resolver.go resolveDirective"),("built-in directives","parse.go NewSchema")])
p("C11","Arguments reach resolvers exactly, independent of order",
 "Each argument or input-object property written in a query reaches the resolver's field of that name with exactly the written value (literal, list, object, null, enum, or variable with its value or default), whatever other arguments precede or follow it. Omitted arguments keep the Go zero value, and unknown names are reported as errors.",
 ["inputs"],"all argument sets, orders and nestings of lists, objects, nulls, strings (any bytes) and variables",
 "Tests bind one argument shape at a time; interactions between consecutive values (cursor position after each kind) are what breaks.",
 [R],[("cursor movement per value kind","resolver.go bindInputToGoValue"),("object walking","resolver.go walkInputObject"),("variable lookup","resolver.go findOperatorArgument, bindExternalVariableValue")])
p("C12","HTTP request handling: bodies, batches and parameters",
 "A request is decoded by its content type (JSON body, plain text or form-data 'operations' on non-GET, otherwise URL parameters) into query, variables and operation name and is answered as a direct execution of those would be. A batch is answered with a JSON array holding one response per element in order, where a malformed element yields an error response in its place; malformed bodies yield an error response and never a crash.",
 ["inputs"],"all methods, content types, bodies and batches",
 "Tests issue about ten fixed requests.",
 ["implement_helpers.go"],[("dispatch","implement_helpers.go HandleRequest"),("body decoding","implement_helpers.go getBodyData")])
p("C13","Introspection describes exactly the executable schema",
 "Introspected types mirror Go types: value types are NON_NULL, pointers, interfaces and function fields are nullable, slices and arrays are LIST of their element's type, and named types resolve to scalars, enums, objects or interfaces by kind. Every visible field, argument, enum value, directive and type that a query can use is listed exactly once in name order, and hidden fields are never listed.",
 ["programs","configurations"],"all schemas that parse",
 "Tests introspect one schema.",
 ["inject_schema.go","grahql_types.go"],[("type mapping","inject_schema.go objToQLType, inputToQLType, wrapQLTypeInNonNull"),("listing and caching","inject_schema.go getQLSchema, getAllQLTypes, getDirectives")])
p("C14","A copied schema behaves like the original and independently",
 "A copy of a parsed schema answers every request exactly as the original does. Requests executed on a copy never change the results, errors, context values or cached state of the original or of other copies.",
 ["inputs","histories"],"all parsed schemas, all requests on original and copies in any sequential order",
 "One test copies a schema and runs one query.",
 ["copy_schema.go"],[("deep copies","copy_schema.go")])
p("C15","The request context stores and returns what was set",
 "A value set on the request context under a key is returned for that key until overwritten, other keys are unaffected, and missing keys report not found. The Go context returned is the one last set (or the request's own, or nil), and context cancellation turns later resolver results into null with the context's error.",
 ["inputs","histories"],"all sequences of set and get calls in any resolver, with and without initial values or context",
 "Tests set one value and read it back.",
 [R],[("value map","resolver.go GetValue, GetValueOk, SetValue"),("context","resolver.go GetContext, SetContext")])
p("C16","Enums map names to Go values and back exactly",
 "For every registered enum, an input name is bound to exactly the Go value registered under it and an output value is written as exactly the name registered for it; unknown names are errors and unregistered values are null. Registration accepts exactly non-empty maps from valid names to a named integer or string type.",
 ["inputs","configurations"],"all enum maps over all integer and string kinds, all names and values",
 "Tests register two enums and use two values.",
 ["enums.go",R],[("registration","enums.go registerEnumCheck"),("input lookup","resolver.go bindInputToGoValue, bindJSONToValue, assignStringToValue"),("output lookup","resolver.go resolveFieldDataValue")])
p("C17","Syntax errors carry the exact line and column",
 "The location of a syntax error is the line and column of the byte where parsing stopped: the line is one plus the number of line terminators (LF, CR, or CRLF counted once) before it and the column is the number of bytes since the last terminator. Errors are only ever appended and keep the order in which they occurred.",
 ["inputs"],"all query texts and all error positions, including end of input and every mix of line terminators",
 "One test checks one location.",
 [B],[("line counting","bytecode.go err")])
p("C18","GraphQL names are derived and validated by one rule",
 "A custom field name, enum key or type name is accepted exactly when it is non-empty, starts with an ASCII letter and continues with ASCII letters, digits or underscores. A Go field or method name is exposed with its first letter lower-cased unless the second character is not a lower-case letter, and one-character names are lower-cased; the 'gq' tag's name, '-' and 'id' parts override this exactly as documented.",
 ["inputs"],"all Go names, all tags, all enum keys and type names",
 "Tests use a few names.",
 ["parse.go","type_rename.go","enums.go"],[("validation","parse.go validGraphQlName"),("derivation","parse.go formatGoNameToQL"),("tags","parse.go parseFieldTagGQ")])
p("C19","Malformed registrations are rejected and leave no trace",
 "Enums and directives cannot be registered after the schema is parsed, and a registration that returns an error or reports that nothing was added leaves the registered set unchanged. A directive is accepted exactly when its name is non-empty and made of letters, digits and underscores, its locations are given, its method is a function returning exactly one directive modifier, and no other directive of that name exists for one of its locations.",
 ["inputs","histories"],"all sequences of registrations, all directive definitions",
 "Tests register one valid directive and a few invalid enums.",
 ["directives.go","enums.go"],[("directive checks","directives.go checkDirective, RegisterDirective"),("enum guard","enums.go RegisterEnum")])
p("C20","Operations and fragments are selected by exact name and type",
 "With an operation name given, exactly the operation of that name is executed, and an unknown name is an error. A fragment spread executes the fragment whose name is exactly the spread's name, in the place of the spread, exactly when its type condition equals the type it is used on; otherwise it contributes nothing, and an undefined fragment is an error.",
 ["inputs"],"all documents with any number of operations and fragments whose names are equal, prefixes of each other, or unrelated",
 "Tests use one or two fragments with unrelated names.",
 [R,B],[("fragment lookup","resolver.go resolveSpread"),("operation target","bytecode.go parseOperatorOrFragment")])
p("C21","Time values are exchanged as ISO 8601 instants",
 "A time of the years 0 to 9999 returned by a resolver is written as the UTC instant in the form YYYY-MM-DDThh:mm:ss.mmmZ, so that reading it back gives the same instant to the millisecond whatever its time zone. An input time is accepted exactly when it has that form and is rejected with an error otherwise.",
 ["inputs"],"all time values in all zones, all input strings",
 "Tests use one UTC time.",
 ["helpers/time.go",R],[("format","helpers/time.go TimeToIso8601String"),("parse","helpers/time.go ParseIso8601String")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import sys
for x in P:
    assert len(x['title'])<=80,x['id']
    n=x['statement'].count('. ')+1
    assert n<=3,(x['id'],n)
