HOOKS = {}
NOTES = {
 "C20": "The parser's functions (prefix kept, instructions start with NULL, parseOperatorOrFragment: the entry point is exactly the operation of the requested name, fragments are recorded), Resolve (the parser is asked for exactly the requested name; without errors exactly one operation is executed, at the entry point), resolveOperation (the root of its kind, its own selection) and resolveSpread (runs exactly the body of the first fragment of exactly that name, exactly when the type names are equal; otherwise nothing is written and execution goes on behind the spread; an undefined fragment is an error) under contract. resolveSelectionSet and resolveDirective are trusted contracts here (C05, C10); the layout of the compiled program is an assumption (C02).",
 "C03": "parseAndWriteName (what is appended is byte for byte the text read, a whole word of the name alphabet, at most 254 bytes), parseNumberInputValue (over recursive functions of the query text: the payload is exactly the bytes of the literal without '_' and '+' and with the exponent written E, at their ranks; float exactly when a point or exponent was read), matches, matchesWord and the callers of the boolean and null instructions (the whole word true, false or null is what was read) under contract for all texts. Strings are C02's concern (well nested) and bounded here.",
 "C10": "resolveDirective (runs exactly the method of the first directive registered under exactly that name for the place it is at, with its arguments; unknown names are errors), resolveField and resolveSpread (every directive is asked, in order, until one skips or fails; a skipped field or fragment runs nothing, writes nothing, restores the path and goes on exactly behind itself; otherwise the member or body is executed behind the directives) and the methods of skip and include under contract. callQlMethod (C11), resolveFieldDataValue and resolveSelectionSet are trusted contracts here; the layout of the program is an assumption (C02).",
 "C09": "err (one error per call, with a fresh copy of the current path), resolveField, resolveFieldDataValue, resolveSelectionSet, resolveSpread, resolveDirective under contract: a value is resolved at exactly the path of its parent followed by its response key or list index, path, value stack and earlier errors are as before on every way out, an error returned by a resolver is recorded with its own text before its value is resolved, and list elements are the elements of their index. callQlMethod (user code; leaves path and value stack alone) is a trusted contract.",
 "C07": "resolveSelectionSet, resolveSpread, resolveField, resolveFieldDataValue, resolveOperation under contract: every selection set and field is entered within the maximum depth (no wrap-around), at the limit exactly null is written and an error recorded, and every recursion decreases the measure (255 - depth, 500 - active fragments, bytes of the program left, kind of step, nesting of the type descriptor) and every loop has one, so execution terminates. Assumed: type descriptors are finite; resolvers themselves terminate.",
 "C02": "All parser functions under contract over an arbitrary finished program fin: if fin has the bytes a function appended, that range of fin is derivable in the grammar of compiled programs (names, types, values, objects, directives, fields, spreads, operation arguments, operations, fragments; every stored length equals the distance to its end modulo 2^32, every count and flag equals what follows, the field hash is the hasher's result over exactly the real name's bytes). Bytes already written are kept, fragment locations point at fragments, the entry point is an operation (exactly the requested one: C20). FNV itself (hash/fnv) is a trusted contract; texts long enough for the cache are covered by C08.",
 "C05": "Resolve and the whole executor (resolveOperation, resolveSelectionSet, resolveSpread, resolveField, resolveFieldDataValue, resolveDirective, writeQuoted, writeByte, writeNull) under contract: a fold of a JSON syntax automaton over the response bytes, so every call leaves exactly one member or value and Resolve ends with the automaton accepting. Trusted: callQlMethod leaves the response alone, valueToJSON/StringToJSON (functional contracts under C04) and the time text (C21) are values, error paths are comma separated values, json.Marshal. Numbers are only checked for their alphabet here (their form is C04).",
 "C15": "GetValue, GetValueOk, SetValue, GetContext, SetContext under full contracts; Resolve starts execution with the request's own values and context (obligation at its call of resolveOperation); resolveFieldDataValue writes null and reports an error for a method while the context is cancelled. callQlMethod's frame (it leaves the response and the compiled query alone) is a trusted contract here.",
 "C21": "TimeToIso8601String, ParseIso8601String, the three binding functions and resolveFieldDataValue (branch for times) under contract: the response gets the quoted UTC text of the time, an input is accepted exactly when it is of the form, and what is stored is the instant it names. time.Parse/AppendFormat/UTC with the one layout constant (checked to be the only value the variable ever holds) are trusted contracts; times are restricted to years 0 to 9999.",
 "C06": "The five binding functions under contract: every call of reflect's SetInt/SetUint carries the obligation that the destination kind holds the value and that the value is the integer read from the request (or a registered enum entry), and the posts say the variable holds exactly the decimal/JSON integer. reflect, strconv and fastjson are trusted contracts; user data behind reflect.Value is a ghost array. Enum entries having the kind of their type is C16.",
 "C01": "All parser functions under contract; every index, slice, nil dereference, recursion measure and loop measure is an obligation. The cache lookup and the hex/utf16/utf8/errors functions are trusted contracts.",
 "C08": "GetEntry, SetEntry, ParseQueryToBytecode and NewParserCtx under contract: every entry of the cache satisfies the ghost relation compiled(text, target, program, fragment locations, entry point), at most 100 lengths of 20 texts are kept and no cached buffer shares memory with the parser or its caller. That parsing is a function of text and target alone (parseOperatorOrFragment) is a trusted contract that defines the ghost relation; its frame is discharged under C17.",
 "C18": "validGraphQlName, formatGoNameToQL, parseFieldTagGQ and TypeRename under full functional contracts; strings/bytes/reflect functions are trusted contracts. That these functions are the ones called when fields, methods and enum keys are registered is covered by the bounded replay only.",
 "C04": "StringToJSON, FloatToJSON and valueToJSON under full functional contracts: folds of a JSON string reader and a JSON number reader over the appended bytes, so the literal is well formed, decodes to the source text / reads back as the value, and earlier output is untouched. UTF-8 decoding, strconv.FormatFloat/AppendInt/AppendUint (their text is a numeral that reads back as the argument) and reflect.Value getters are trusted contracts.",
 "C17": "ParserCtx.err under a functional contract (line and column as recursive functions of the bytes before the stop position); every parser function carries 'exactly one error, located at the byte where the parser stopped, or none', so the statement holds for the result of a whole parse. errors.New and the cache are trusted.",
}
_T = "check under construction"
NA = {i: _T for i in "C11 C12 C13 C14 C16 C19".split()}
