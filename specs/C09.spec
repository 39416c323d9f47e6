# C09: resolver errors are reported once, with the exact path.
property C09
checks pre post
opt externals havoc

prelude <<<
(declare-const role Int)        ; 0 a field, 1 a value
(declare-const entry Int)       ; the cursor where the field starts
(declare-const p0 Int)          ; the length of the path there
(declare-const pathArr (Array Int Int)) ; and its bytes (from pathOff on)
(declare-const pathOff Int)
(declare-const isList Bool)     ; the value is a list
(declare-const listValue Int)   ; that list
(declare-fun ndig (Int) Int)    ; the decimal text of a number
(declare-fun dig (Int Int) Int)
(assert (forall ((i Int)) (! (> (ndig i) 0) :pattern ((ndig i)))))
(declare-fun elementOf (Int Int) Int)
(define-fun at ((a (Array Int Int)) (k Int)) Int (select a k))
>>>
# owed: errors returned by resolvers that still have to be reported; taken: the text of one was read; text: that text
# elem: the index of the list element looked at
ghost owed Int
ghost taken Bool
ghost text Str
ghost elem Int

# a directive's method has no error result (checkDirective)
fieldinv yarql.Directive.parsedMethod (v) = v.errorOutNr == nil
pure (reflect.Value).Kind fmt.Sprintf (reflect.Value).Len (reflect.Value).Pointer (reflect.Value).IsNil (reflect.Value).Elem (reflect.Value).Type (reflect.Type).Name (reflect.Type).PkgPath (reflect.Value).Int (reflect.Value).Uint (reflect.Value).String (reflect.Value).Field (reflect.Value).Method
def code(ctx) = same(ctx.query.Res) && ctx.query == old(ctx.query) && ctx.schema == old(ctx.schema) && arr(ctx.query.Res) == old(arr(ctx.query.Res))
def grownErrs(ctx) = len(ctx.query.Errors) >= old(len(ctx.query.Errors)) && (forall k :: 0 <= k && k < old(len(ctx.query.Errors)) ==> ctx.query.Errors[k] == old(ctx.query.Errors[k]))
# the path is the one that was there at entry
def path(ctx) = len(ctx.path) == old(len(ctx.path)) && (forall k :: 0 <= k && k < old(len(ctx.path)) ==> ctx.path[k] == old(ctx.path[k]))
def below(ctx) = ctx.currentReflectValueIdx == old(ctx.currentReflectValueIdx) && len(ctx.reflectValues) >= old(len(ctx.reflectValues)) && (forall k :: 0 <= k && k < old(ctx.currentReflectValueIdx) ==> ctx.reflectValues[k] == old(ctx.reflectValues[k]))
def value(ctx) = ctx.reflectValues[ctx.currentReflectValueIdx] == old(ctx.reflectValues[ctx.currentReflectValueIdx])
def sound(ctx) = 0 <= ctx.currentReflectValueIdx && ctx.currentReflectValueIdx < len(ctx.reflectValues) && ctx.schema != nil && base(ctx.path) != base(ctx.query.Res) && base(ctx.path) != base(ctx.schema.Result) && base(ctx.query.Res) != base(ctx.schema.Result)
def vals() = forall p *reflect.Value :: old(alive(p)) ==> *p == old(*p)
def same0(ctx) = vals() && code(ctx) && path(ctx) && below(ctx) && sound(ctx)
def grown(s) = fresh(s) || (base(s) == old(base(s)) && off(s) == old(off(s)) && cap(s) == old(cap(s)))
def clear() = owed == 0 && !taken

extern bytes.Equal(a, b) (r)
trusted yarql.b2s(b) (r)
extern (error).Error(e) (r)
  modifies taken, text
  ensures taken && text == r
extern (context.Context).Err(c) (r)
  modifies owed
  ensures owed == old(owed) + ite(r != nil, 1, 0)
extern (reflect.Value).Interface(v) (r)
  ensures r != nil
extern strconv.AppendInt(dst, i, base) (r)
  modifies dst[*]
  ensures base(r) == base(dst) && off(r) == off(dst) && cap(r) == cap(dst) || fresh(r)
  ensures len(r) == len(dst) + ndig(i) && (forall k :: 0 <= k && k < len(dst) ==> r[k] == old(dst[k])) && (forall k :: {r[k]} len(dst) <= k && k < len(r) ==> r[k] == dig(i, k - len(dst)))

extern errors.New(msg) (r)
  requires @the-text-of-the-error taken ==> msg == text
  modifies owed, taken
  ensures r != nil && !taken && owed == ite(old(owed) > 0, old(owed) - 1, 0)
# an error is recorded once, at the path the executor is at
def recorded(ctx, n) = ctx.query.Errors[n]
fn (*yarql.Ctx).err(ctx, msg) (r)
  requires taken ==> msg == text
  modifies ctx.query.Errors, ctx.query.Errors[*], owed, taken
  ensures r && !taken && owed == ite(old(owed) > 0, old(owed) - 1, 0)
  ensures @recorded-once len(ctx.query.Errors) == old(len(ctx.query.Errors)) + 1 && grownErrs(ctx) && grown(ctx.query.Errors)
  ensures @with-the-path old(len(ctx.path)) > 0 ==> (let p = unbox(recorded(ctx, old(len(ctx.query.Errors))), yarql.ErrorWPath).path in len(p) == old(len(ctx.path)) - 1 && (forall k :: {p[k]} 0 <= k && k < len(p) ==> p[k] == old(ctx.path[k + 1])))
  ensures @the-path-is-a-copy old(len(ctx.path)) > 1 ==> fresh(unbox(recorded(ctx, old(len(ctx.query.Errors))), yarql.ErrorWPath).path)

# user code runs here, at exactly this path
trusted (*yarql.Ctx).callQlMethod(ctx, method, goValue, parseArguments) (outs, critical)
  modifies everything()
  ensures same0(ctx) && value(ctx) && grownErrs(ctx) && !taken
  ensures owed == old(owed) + ite(!critical && method.errorOutNr != nil && !pure("(reflect.Value).IsNil", outs[0 + *method.errorOutNr]), 1, 0)
  ensures critical ==> len(ctx.query.Errors) > old(len(ctx.query.Errors))
  ensures method.errorOutNr == old(method.errorOutNr)
trusted (*yarql.Ctx).valueToJSON(ctx, in, kind)
  modifies ctx.schema.Result, ctx.schema.Result[*]
  ensures grown(ctx.schema.Result)
trusted helpers.TimeToIso8601String(target, t)
  modifies *target, (*target)[*]
  ensures grown(*target)
trusted (*yarql.Ctx).startTrace(ctx)
trusted (*yarql.Ctx).finishTrace(ctx, cb)
  modifies ctx.tracing.*
fn (*yarql.Ctx).resolveDirective(ctx, location) (modifier, critical)
  requires sound(ctx) && clear()
  modifies everything()
  ensures same0(ctx) && value(ctx) && grownErrs(ctx) && (clear())

extern (reflect.Value).Index(v, i) (r)
  requires @an-element-of-the-list role == 1 && isList ==> v == listValue
  modifies elem
  ensures elem == i && r == elementOf(v, i)
# the path at entry of the field or value looked at, and what is added to it
def kept(ctx, n) = forall k :: 0 <= k && k < n ==> ctx.path[k] == at(pathArr, pathOff + k)
def aliasLen(ctx) = ctx.query.Res[entry + 9]
def pathOfField(ctx) = len(ctx.path) == p0 + 3 + aliasLen(ctx) && kept(ctx, p0) && ctx.path[p0] == ',' && ctx.path[p0+1] == '"' && (forall k :: p0 + 2 <= k && k < p0 + 2 + aliasLen(ctx) ==> ctx.path[k] == ctx.query.Res[entry + 8 + k - p0]) && ctx.path[p0 + 2 + aliasLen(ctx)] == '"'
def pathOfElement(ctx) = len(ctx.path) == p0 + 1 + ndig(elem) && kept(ctx, p0) && ctx.path[p0] == ',' && (forall k :: p0 + 1 <= k && k < p0 + 1 + ndig(elem) ==> ctx.path[k] == dig(elem, k - p0 - 1))
def pathUnchanged(ctx) = len(ctx.path) == p0 && kept(ctx, p0)
fn (*yarql.Ctx).resolveFieldDataValue(ctx, typeObj, dept, hasSub) (critical)
  requires sound(ctx) && clear()
  atcall @at-the-path-of-the-field role == 0 ==> pathOfField(ctx)
  atcall @at-the-path-of-the-element role == 1 && isList ==> pathOfElement(ctx)
  atcall @the-element-of-that-index role == 1 && isList ==> ctx.reflectValues[ctx.currentReflectValueIdx] == elementOf(listValue, elem)
  atcall @at-the-same-path role == 1 && !isList ==> pathUnchanged(ctx)
  assumes role == 1 && p0 == len(ctx.path) && pathArr == arr(ctx.path) && pathOff == off(ctx.path) && (isList <==> typeObj.valueType == valueTypeArray) && listValue == ctx.reflectValues[ctx.currentReflectValueIdx]
  assumes typeObj.valueType == valueTypeInterface || typeObj.valueType == valueTypeInterfaceRef ==> pure("(reflect.Value).Kind", ctx.reflectValues[ctx.currentReflectValueIdx]) == 20
  modifies everything()
  ensures same0(ctx)
  ensures @errors-are-only-added grownErrs(ctx)
  ensures @every-error-is-reported clear()
  inv code(ctx) && vals() && path(ctx) && sound(ctx) && grownErrs(ctx) && clear()
  inv same0(ctx)
  inv forall p *reflect.Value :: atloop(alive(p)) ==> *p == atloop(*p)
  inv ctx.currentReflectValueIdx == old(ctx.currentReflectValueIdx) + 1
  inv 0 <= ctx.currentReflectValueIdx && ctx.schema != nil && base(ctx.path) != base(ctx.query.Res) && base(ctx.path) != base(ctx.schema.Result) && base(ctx.query.Res) != base(ctx.schema.Result)
  inv ctx.currentReflectValueIdx <= len(ctx.reflectValues)

fn (*yarql.Ctx).resolveField(ctx, typeObj, dept, addCommaBefore) (skipped, critical)
  requires sound(ctx) && clear()
  assumes role == 0 && entry == ctx.charNr && p0 == len(ctx.path) && pathArr == arr(ctx.path) && pathOff == off(ctx.path) && typeObj != nil
  modifies everything()
  ensures same0(ctx) && value(ctx)
  ensures @errors-are-only-added grownErrs(ctx)
  ensures @every-error-is-reported clear()
  inv vals() && code(ctx) && below(ctx) && sound(ctx) && value(ctx) && grownErrs(ctx) && clear()
  inv pathOfField(ctx)

fn (*yarql.Ctx).resolveSelectionSet(ctx, typeObj, dept, firstField) (critical)
  requires sound(ctx) && clear()
  modifies everything()
  ensures same0(ctx) && value(ctx)
  ensures @errors-are-only-added grownErrs(ctx)
  ensures @every-error-is-reported clear()
  inv same0(ctx) && value(ctx) && grownErrs(ctx) && clear()

fn (*yarql.Ctx).resolveSpread(ctx, typeObj, dept, firstField) (critical)
  requires sound(ctx) && clear()
  modifies everything()
  ensures same0(ctx) && value(ctx)
  ensures @errors-are-only-added grownErrs(ctx)
  ensures @every-error-is-reported clear()
  inv same0(ctx) && value(ctx) && grownErrs(ctx) && clear()
