# C06: integer inputs are stored exactly or rejected.
property C06
checks pre post frame
opt externals havoc

prelude <<<
(declare-fun decval (Str) Int)            ; the integer a decimal text stands for
(declare-fun jsonval (Int) Int)           ; the integer a JSON number stands for
(declare-fun jsontext (Int) Str)          ; the text of a JSON string
(declare-fun wasRead (Int) Bool)          ; the integer was read from the request, unchanged
(declare-fun ofGo (Int) Bool)             ; the integer is the content of a Go variable (an enum entry)
(declare-fun mustReject () Bool)
(define-fun at ((a (Array Int Int)) (k Int)) Int (select a k))
(define-fun put ((a (Array Int Int)) (k Int) (x Int)) (Array Int Int) (store a k x))
>>>
# stored: the integer last stored in the variable behind a reflect.Value
ghost stored (Array Int Int)

pure (reflect.Value).Kind (*fastjson.Value).Type
def kindOf(v) = pure("(reflect.Value).Kind", v)
def signed(k) = k == reflect.Int || k == reflect.Int8 || k == reflect.Int16 || k == reflect.Int32 || k == reflect.Int64
def unsigned(k) = k == reflect.Uint || k == reflect.Uint8 || k == reflect.Uint16 || k == reflect.Uint32 || k == reflect.Uint64
def inRange(k, x) = (k == reflect.Int8 ==> -128 <= x && x <= 127) && (k == reflect.Int16 ==> -32768 <= x && x <= 32767) && (k == reflect.Int32 ==> -2147483648 <= x && x <= 2147483647) && (k == reflect.Uint8 ==> x <= 255) && (k == reflect.Uint16 ==> x <= 65535) && (k == reflect.Uint32 ==> x <= 4294967295) && (unsigned(k) ==> 0 <= x && x <= 18446744073709551615) && (signed(k) ==> -9223372036854775808 <= x && x <= 9223372036854775807)
def integer(k) = signed(k) || unsigned(k)

extern (reflect.Value).SetInt(v, x)
  requires @destination-is-a-signed-integer-that-holds-it ofGo(x) || signed(kindOf(v)) && inRange(kindOf(v), x)
  requires @value-is-the-integer-read ofGo(x) || wasRead(x)
  modifies stored
  ensures stored == put(old(stored), v, x)
extern (reflect.Value).SetUint(v, x)
  requires @destination-is-an-unsigned-integer-that-holds-it ofGo(x) || unsigned(kindOf(v)) && inRange(kindOf(v), x)
  requires @value-is-the-integer-read ofGo(x) || wasRead(x)
  modifies stored
  ensures stored == put(old(stored), v, x)
extern (reflect.Value).Int(v) (r)
  ensures ofGo(r)
extern (reflect.Value).Uint(v) (r)
  ensures ofGo(r)
def bits(n, x) = (n == 8 ==> -128 <= x && x <= 127) && (n == 16 ==> -32768 <= x && x <= 32767) && (n == 32 ==> -2147483648 <= x && x <= 2147483647) && -9223372036854775808 <= x && x <= 9223372036854775807
def ubits(n, x) = 0 <= x && (n == 8 ==> x <= 255) && (n == 16 ==> x <= 65535) && (n == 32 ==> x <= 4294967295) && x <= 18446744073709551615
extern strconv.ParseInt(s, base, bitSize) (r, err)
  requires base == 10
  ensures err == nil ==> r == decval(s) && wasRead(r) && bits(bitSize, r)
extern strconv.ParseUint(s, base, bitSize) (r, err)
  requires base == 10
  ensures err == nil ==> r == decval(s) && wasRead(r) && ubits(bitSize, r)
extern strconv.Atoi(s) (r, err)
  ensures err == nil ==> r == decval(s) && wasRead(r) && bits(64, r)
extern (*fastjson.Value).Int64(v) (r, err)
  ensures err == nil ==> r == jsonval(v) && wasRead(r) && bits(64, r)
extern (*fastjson.Value).Uint64(v) (r, err)
  ensures err == nil ==> r == jsonval(v) && wasRead(r) && ubits(64, r)
extern (*fastjson.Value).GetStringBytes(v, keys) (r)
  ensures str(r) == jsontext(v)
extern (reflect.Value).OverflowInt(v, x) (r)
  ensures signed(kindOf(v)) ==> (r == !inRange(kindOf(v), x))
extern (reflect.Value).OverflowUint(v, x) (r)
  ensures unsigned(kindOf(v)) && 0 <= x ==> (r == !inRange(kindOf(v), x))
trusted yarql.b2s(data) (r)
  ensures r == str(data)

# the value instruction at the cursor: its kind and the text it carries
def byteAt(ctx, i) = old(ctx.query.Res[i])
def instKind(ctx) = byteAt(ctx, old(ctx.charNr) + 1)
def instLen(ctx) = let p = old(ctx.charNr) in byteAt(ctx, p + 2) + 256 * byteAt(ctx, p + 3) + 65536 * byteAt(ctx, p + 4) + 16777216 * byteAt(ctx, p + 5)
def lit(ctx) = old(str_of(arr(ctx.query.Res), off(ctx.query.Res) + ctx.charNr + 6, instLen(ctx)))
def indirect(in) = old(in.kind) == reflect.Ptr && !old(in.isFile)
def holds(v, x) = at(stored, old(*v)) == x

fn (*yarql.Ctx).bindInputToGoValue(ctx, goValue, valueStructure, variablesAllowed) (set, critical)
  requires ctx != nil && ctx.query != nil && goValue != nil
  modifies everything()
  ensures @integer-literal-stored-exactly instKind(ctx) == bytecode.ValueInt && integer(kindOf(old(*goValue))) && !indirect(valueStructure) && !critical ==> set && holds(goValue, decval(lit(ctx)))
  ensures @id-string-stored-exactly instKind(ctx) == bytecode.ValueString && integer(kindOf(old(*goValue))) && !indirect(valueStructure) && old(valueStructure.isID) && !old(valueStructure.isEnum) && !critical ==> set && holds(goValue, decval(lit(ctx)))

fn (*yarql.Ctx).assignStringToValue(ctx, goValue, valueStructure, stringValue) (critical)
  requires ctx != nil && goValue != nil
  modifies everything()
  ensures @id-string-stored-exactly integer(kindOf(old(*goValue))) && old(valueStructure.isID) && !old(valueStructure.isEnum) && !critical ==> holds(goValue, decval(stringValue))

fn (*yarql.Ctx).bindJSONToValue(ctx, goValue, valueStructure, jsonData) (set, critical)
  requires ctx != nil && goValue != nil
  modifies everything()
  ensures @json-number-stored-exactly pure("(*fastjson.Value).Type", jsonData) == fastjson.TypeNumber && integer(kindOf(old(*goValue))) && !indirect(valueStructure) && !critical ==> set && holds(goValue, jsonval(jsonData))
  ensures @id-string-stored-exactly pure("(*fastjson.Value).Type", jsonData) == fastjson.TypeString && integer(kindOf(old(*goValue))) && !indirect(valueStructure) && old(valueStructure.isID) && !old(valueStructure.isEnum) && !critical ==> set && holds(goValue, decval(jsontext(jsonData)))

fn (*yarql.Ctx).bindOperatorArgumentTo(ctx, goValue, valueStructure, argumentName) (set, critical)
  requires ctx != nil && ctx.query != nil && goValue != nil
  modifies everything()
fn (*yarql.Ctx).bindExternalVariableValue(ctx, goValue, valueStructure, argumentName) (set, found, critical)
  requires ctx != nil && goValue != nil
  modifies everything()
extern (*fastjson.Object).Visit(o, f)
  fnopt repeats
