# C21: time values are exchanged as ISO 8601 instants.
property C21
checks pre post frame
opt externals havoc

prelude <<<
(declare-fun isotext (Int) Str)           ; the instant written as YYYY-MM-DDThh:mm:ss.mmmZ, in UTC
(declare-fun isIso (Str) Bool)            ; the text has that form and names an existing date and time
(declare-fun instant (Str) Int)           ; the time it names
(declare-fun formatted (Str Int) Str)     ; a time formatted with a layout, in its own zone
(declare-fun timeOf (Int) Int)             ; the time behind a reflect.Value
(declare-fun jsontext (Int) Str)           ; the text of a JSON string
(define-fun at ((a (Array Int Int)) (k Int)) Int (select a k))
(define-fun put ((a (Array Int Int)) (k Int) (x Int)) (Array Int Int) (store a k x))
>>>
# held: what was last stored with Set behind a reflect.Value
ghost held (Array Int Int)
pure (reflect.Value).Kind (*fastjson.Value).Type (reflect.Value).Interface
def LAYOUT = "2006-01-02T15:04:05.000Z"
def kindOf(v) = pure("(reflect.Value).Kind", v)
def prefixKept(s) = len(s) >= old(len(s)) && (forall k :: 0 <= k && k < old(len(s)) ==> s[k] == old(s[k]))
def grown(s) = fresh(s) || (base(s) == old(base(s)) && off(s) == old(off(s)))
# from position n on, s holds the text t
def holds(s, n, t) = forall k :: 0 <= k && k < len(t) ==> s[n + k] == t[k]

extern (time.Time).UTC(t) (r)
  ensures formatted(LAYOUT, r) == isotext(t)
extern (time.Time).AppendFormat(t, b, layout) (r)
  modifies b[*]
  ensures len(r) >= len(b) && (forall k :: 0 <= k && k < len(b) ==> r[k] == old(b[k]))
  ensures base(r) == base(b) && off(r) == off(b) && cap(r) == cap(b) || fresh(r)
  ensures len(r) == len(b) + len(formatted(layout, t)) && holds(r, len(b), formatted(layout, t))
extern (time.Time).Format(t, layout) (r)
  ensures r == formatted(layout, t)
extern time.Parse(layout, value) (t, err)
  ensures layout == LAYOUT && isIso(value) ==> err == nil && t == instant(value) && formatted(layout, t) == value
  ensures layout == LAYOUT && err == nil && formatted(layout, t) == value ==> isIso(value)
extern errors.New(s) (r)
  ensures r != nil

fn helpers.TimeToIso8601String(target, t)
  requires target != nil
  modifies *target, (*target)[*]
  ensures @the-text-names-the-instant-in-utc len(*target) == old(len(*target)) + len(isotext(t)) && holds(*target, old(len(*target)), isotext(t))
  ensures prefixKept(*target) && grown(*target)

fn helpers.ParseIso8601String(val) (t, err)
  ensures @accepted-exactly-when-of-the-form (err == nil) == isIso(val)
  ensures @gives-the-instant-it-names err == nil ==> t == instant(val)

extern reflect.ValueOf(i) (r)
  ensures typeis(i, time.Time) ==> timeOf(r) == unbox(i, time.Time)
extern (reflect.Value).Set(v, x)
  modifies held
  ensures held == put(old(held), v, x)
extern (*fastjson.Value).GetStringBytes(v, keys) (r)
  ensures str(r) == jsontext(v)
extern (*fastjson.Object).Visit(o, f)
  fnopt repeats
trusted yarql.b2s(data) (r)
  ensures r == str(data)

def isTime(in) = old(in.isTime) && !old(in.isEnum) && !old(in.isID) && !old(in.isFile)
def indirect(in) = old(in.kind) == reflect.Ptr && !old(in.isFile)
def timeStored(v) = timeOf(at(held, old(*v)))

fn (*yarql.Ctx).assignStringToValue(ctx, goValue, valueStructure, stringValue) (critical)
  requires ctx != nil && goValue != nil
  modifies everything()
  ensures @accepted-exactly-when-of-the-form isTime(valueStructure) ==> critical == !isIso(stringValue)
  ensures @the-instant-is-stored isTime(valueStructure) && !critical ==> timeStored(goValue) == instant(stringValue)

fn (*yarql.Ctx).bindJSONToValue(ctx, goValue, valueStructure, jsonData) (set, critical)
  requires ctx != nil && goValue != nil
  modifies everything()
  ensures @only-strings-are-times isTime(valueStructure) && !indirect(valueStructure) && pure("(*fastjson.Value).Type", jsonData) != fastjson.TypeString ==> critical
  ensures @accepted-exactly-when-of-the-form isTime(valueStructure) && !indirect(valueStructure) && pure("(*fastjson.Value).Type", jsonData) == fastjson.TypeString ==> critical == !isIso(jsontext(jsonData))
  ensures @the-instant-is-stored isTime(valueStructure) && !indirect(valueStructure) && !critical ==> set && timeStored(goValue) == instant(jsontext(jsonData))

# the value instruction at the cursor: its kind and the text it carries
def byteAt(ctx, i) = old(ctx.query.Res[i])
def instKind(ctx) = byteAt(ctx, old(ctx.charNr) + 1)
def instLen(ctx) = let p = old(ctx.charNr) in byteAt(ctx, p + 2) + 256 * byteAt(ctx, p + 3) + 65536 * byteAt(ctx, p + 4) + 16777216 * byteAt(ctx, p + 5)
def lit(ctx) = old(str_of(arr(ctx.query.Res), off(ctx.query.Res) + ctx.charNr + 6, instLen(ctx)))
fn (*yarql.Ctx).bindInputToGoValue(ctx, goValue, valueStructure, variablesAllowed) (set, critical)
  requires ctx != nil && goValue != nil
  modifies everything()
  ensures @accepted-exactly-when-of-the-form instKind(ctx) == bytecode.ValueString && isTime(valueStructure) && !indirect(valueStructure) ==> critical == !isIso(lit(ctx))
  ensures @the-instant-is-stored instKind(ctx) == bytecode.ValueString && isTime(valueStructure) && !indirect(valueStructure) && !critical ==> set && timeStored(goValue) == instant(lit(ctx))
trusted (*yarql.Ctx).bindOperatorArgumentTo(ctx, goValue, valueStructure, argumentName) (set, critical)
  requires ctx != nil && goValue != nil
  modifies everything()
trusted (*yarql.Ctx).bindExternalVariableValue(ctx, goValue, valueStructure, argumentName) (set, found, critical)
  requires ctx != nil && goValue != nil
  modifies everything()

# the response
def out(ctx) = ctx.schema.Result
def startsAt(ctx) = old(len(ctx.schema.Result))
def value(ctx) = old(ctx.reflectValues[ctx.currentReflectValueIdx])
fn (*yarql.Ctx).resolveFieldDataValue(ctx, typeObj, dept, hasSubSelection) (critical)
  requires ctx != nil && ctx.query != nil
  modifies everything()
  ensures @written-as-a-quoted-time let b = pure("(reflect.Value).Interface", value(ctx)) in old(typeObj.valueType) == valueTypeTime && old(ctx.query.Res[ctx.charNr]) != 'v' && typeis(b, time.Time) ==> prefixKept(out(ctx)) && len(out(ctx)) == startsAt(ctx) + len(isotext(unbox(b, time.Time))) + 2 && holds(out(ctx), startsAt(ctx) + 1, isotext(unbox(b, time.Time))) && out(ctx)[startsAt(ctx)] == '"' && out(ctx)[len(out(ctx)) - 1] == '"'
trusted (*yarql.Ctx).resolveSelectionSet(ctx, typeObj, dept, firstField) (critical)
  requires ctx != nil && ctx.query != nil && firstField != nil
  modifies everything()
trusted (*yarql.Ctx).callQlMethod(ctx, method, goValue, parseArguments) (outs, critical)
  requires ctx != nil && goValue != nil
  modifies everything()
trusted (*yarql.Ctx).valueToJSON(ctx, in, kind)
  requires ctx != nil
  modifies everything()
