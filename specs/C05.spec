# C05: every response is one well-formed JSON document.
property C05
checks pre post frame
opt externals havoc
opt final 30000
include json.inc
prelude <<<
(declare-fun isOut (Int) Bool)
>>>

def grown(s) = fresh(s) || (base(s) == old(base(s)) && off(s) == old(off(s)) && cap(s) == old(cap(s)))
# the state of a JSON reader behind everything written so far
def J(ctx) = jf(js0, ctx.schema.Result, 0, len(ctx.schema.Result))
def JS(s) = jf(js0, s.Result, 0, len(s.Result))
def names(b) = forall k :: 0 <= k && k < len(b) ==> plain(b[k])
def apart(a, b) = base(a) != base(b) || cap(a) == 0 && cap(b) == 0
def sep(ctx) = apart(ctx.schema.Result, ctx.query.Res) && apart(ctx.schema.Result, ctx.path) && apart(ctx.query.Res, ctx.path)
def prog(ctx) = same(ctx.query.Res) && (forall k :: 0 <= k && k < len(ctx.query.Res) ==> ctx.query.Res[k] == old(ctx.query.Res[k]))
def stay(ctx) = ctx.schema == old(ctx.schema) && sep(ctx) && prog(ctx)
# no flag of a caller is changed
def options() = forall o *yarql.ResolveOptions :: old(alive(o)) ==> o.NoMeta == old(o.NoMeta)
def flags() = (forall p *bool :: old(alive(p)) ==> *p == old(*p)) && options()
def flagsBut(q) = (forall p *bool :: old(alive(p)) && p != q ==> *p == old(*p)) && options()
def quiet(ctx) = same(ctx.schema.Result) && J(ctx) == old(J(ctx))
# a value has been written where one was expected
def wrote(ctx) = done(J(ctx)) && jk(J(ctx)) == old(jk(J(ctx)))
def inObject(ctx, first) = is(kobj, jk(J(ctx))) && ite(first, jm(J(ctx)) == 2, done(J(ctx)))
def stillInObject(ctx) = (jm(J(ctx)) == 2 || done(J(ctx))) && jk(J(ctx)) == old(jk(J(ctx)))

fieldinv yarql.obj.typeNameBytes (v) = names(v)
fieldinv yarql.obj.valueType (v) = valueTypeUndefined <= v && v <= valueTypeInterface
fieldinv yarql.enumEntry.keyBytes (v) = names(v)

pure (reflect.Value).Kind (reflect.Value).IsNil (reflect.Value).Elem (reflect.Value).Index (reflect.Value).Pointer (reflect.Value).Type (reflect.Value).Method (reflect.Value).Field (reflect.Value).Interface (reflect.Value).Int (reflect.Value).Uint (reflect.Value).String (reflect.Type).Name (reflect.Type).PkgPath (context.Context).Err (error).Error fmt.Sprintf errors.New

extern (reflect.Value).Len(v) (n)
  fnopt pure
  ensures n >= 0

fn (*yarql.Ctx).writeByte(ctx, b)
  requires ctx.schema != nil
  modifies ctx.schema.Result, ctx.schema.Result[*]
  ensures grown(ctx.schema.Result)
  ensures @one-byte-is-read J(ctx) == jstep(old(J(ctx)), b)
fn (*yarql.Ctx).writeNull(ctx)
  requires ctx.schema != nil
  modifies ctx.schema.Result, ctx.schema.Result[*]
  ensures grown(ctx.schema.Result)
  ensures @null-is-a-value old(canValue(J(ctx))) ==> wrote(ctx)
fn (*yarql.Ctx).writeQuoted(ctx, b)
  requires ctx.schema != nil
  requires names(b)
  assumes apart(b, ctx.schema.Result)
  modifies ctx.schema.Result, ctx.schema.Result[*]
  ensures grown(ctx.schema.Result)
  ensures @a-string-is-a-value old(canValue(J(ctx))) ==> wrote(ctx)
  ensures @a-string-is-a-key old(jm(J(ctx))) == 2 || old(jm(J(ctx))) == 4 ==> jm(J(ctx)) == 6 && jk(J(ctx)) == old(jk(J(ctx)))

# what the executor relies on: how each Go value is written (C04, C21), what runs the resolvers, and the program
trusted (*yarql.Ctx).valueToJSON(ctx, in, kind)
  requires ctx.schema != nil && (canValue(J(ctx)) || jm(J(ctx)) == 7)
  modifies ctx.schema.Result, ctx.schema.Result[*]
  ensures grown(ctx.schema.Result)
  ensures old(canValue(J(ctx))) ==> wrote(ctx)
  ensures old(jm(J(ctx))) == 7 ==> J(ctx) == old(J(ctx))
trusted helpers.TimeToIso8601String(target, t)
  modifies *target, (*target)[*]
  ensures grown(*target)
  ensures old(jm(jf(js0, *target, 0, len(*target)))) == 7 ==> jf(js0, *target, 0, len(*target)) == old(jf(js0, *target, 0, len(*target)))
trusted (*yarql.Ctx).callQlMethod(ctx, method, goValue, parseArguments) (outs, critical)
  requires ctx != nil && goValue != nil && sep(ctx)
  modifies everything()
  ensures flags()
  ensures stay(ctx) && quiet(ctx)
extern strconv.AppendInt(dst, i, base) (r)
  modifies dst[*]
  ensures base(r) == base(dst) && off(r) == off(dst) && cap(r) == cap(dst) || fresh(r)
trusted yarql.b2s(b) (r)
trusted (*yarql.Ctx).startTrace(ctx)
trusted (*yarql.Ctx).finishTrace(ctx, cb)
  modifies ctx.tracing.*

fn (*yarql.Ctx).resolveDirective(ctx, location) (modifier, critical)
  requires sep(ctx)
  modifies everything()
  ensures flags()
  ensures stay(ctx) && quiet(ctx)

fn (*yarql.Ctx).resolveFieldDataValue(ctx, typeObj, dept, hasSubSelection) (critical)
  requires sep(ctx) && ctx.schema != nil
  requires @a-value-is-expected canValue(J(ctx))
  modifies everything()
  ensures flags()
  ensures stay(ctx)
  ensures @writes-one-value wrote(ctx)
  inv stay(ctx)
  inv flags()
  inv quiet(ctx)
  inv jk(J(ctx)) == karr(old(jk(J(ctx))))
  inv ite(cur(i) == 0, jm(J(ctx)) == 3, ite(cur(i) < goValueLen, jm(J(ctx)) == 0, done(J(ctx))))
  inv 0 <= cur(i) && cur(i) <= goValueLen

fn (*yarql.Ctx).resolveSelectionSet(ctx, typeObj, dept, firstField) (critical)
  requires sep(ctx) && ctx.schema != nil && firstField != nil
  requires @inside-an-object inObject(ctx, *firstField)
  modifies everything()
  ensures flagsBut(firstField)
  ensures stay(ctx)
  ensures @the-object-can-be-closed stillInObject(ctx)
  ensures @first-field-is-tracked !critical ==> inObject(ctx, *firstField)
  inv stay(ctx)
  inv flagsBut(firstField)
  inv inObject(ctx, *firstField) && jk(J(ctx)) == old(jk(J(ctx)))

fn (*yarql.Ctx).resolveSpread(ctx, typeObj, dept, firstField) (critical)
  requires sep(ctx) && ctx.schema != nil && firstField != nil
  requires @inside-an-object inObject(ctx, *firstField)
  modifies everything()
  ensures flagsBut(firstField)
  ensures stay(ctx)
  ensures @the-object-can-be-closed stillInObject(ctx)
  ensures @first-field-is-tracked !critical ==> inObject(ctx, *firstField)
  inv stay(ctx)
  inv flags()
  inv J(ctx) == old(J(ctx)) && *firstField == old(*firstField)

fn (*yarql.Ctx).resolveField(ctx, typeObj, dept, addCommaBefore) (skipped, critical)
  fnopt hom=none
  requires sep(ctx) && ctx.schema != nil
  requires @inside-an-object inObject(ctx, !addCommaBefore)
  assumes let n = ctx.query.Res[ctx.charNr + 9] in forall k :: ctx.charNr + 10 <= k && k < ctx.charNr + 10 + n ==> plain(ctx.query.Res[k])
  modifies everything()
  ensures flags()
  ensures stay(ctx)
  inv stay(ctx)
  inv flags()
  inv J(ctx) == old(J(ctx))
  inv names(cur(alias))
  ensures @skipped-writes-nothing skipped ==> J(ctx) == old(J(ctx))
  ensures @writes-one-member !skipped ==> done(J(ctx)) && jk(J(ctx)) == old(jk(J(ctx)))

fn (*yarql.Ctx).resolveOperation(ctx) (critical)
  requires sep(ctx) && ctx.schema != nil
  requires @inside-an-object inObject(ctx, true)
  modifies everything()
  ensures flags()
  ensures stay(ctx)
  ensures @the-object-can-be-closed stillInObject(ctx)

# the document as a whole
trusted (*bytecode.ParserCtx).ParseQueryToBytecode(q, target)
  modifies q.*, q.Res[*], q.Query[*], q.Errors[*], q.FragmentLocations[*]
  ensures grown(q.Res)
trusted helpers.StringToJSON(s, target)
  modifies *target, (*target)[*]
  ensures grown(*target)
  ensures old(canValue(jf(js0, *target, 0, len(*target)))) ==> done(jf(js0, *target, 0, len(*target))) && jk(jf(js0, *target, 0, len(*target))) == old(jk(jf(js0, *target, 0, len(*target))))
extern strconv.AppendUint(dst, i, base) (r)
  modifies dst[*]
  ensures base(r) == base(dst) && off(r) == off(dst) && cap(r) == cap(dst) || fresh(r)
  ensures old(canValue(jf(js0, dst, 0, len(dst)))) ==> done(jf(js0, r, 0, len(r))) && jk(jf(js0, r, 0, len(r))) == old(jk(jf(js0, dst, 0, len(dst))))
extern json.Marshal(v) (r, err)
  ensures fresh(r)
  ensures err == nil ==> forall s JSt :: canValue(s) ==> done(jf(s, r, 0, len(r))) && jk(jf(s, r, 0, len(r))) == jk(s)
fieldinv yarql.Schema.Result (v) = cap(v) == 0 || isOut(base(v))
fieldinv yarql.ErrorWPath.path (v) = (cap(v) == 0 || !isOut(base(v))) && forall s JSt :: jm(s) == 3 && is(karr, jk(s)) && len(v) > 0 ==> done(jf(s, v, 0, len(v))) && jk(jf(s, v, 0, len(v))) == jk(s)
trusted (*yarql.tracer).reset(t)
  modifies t.*
trusted (*yarql.tracer).finish(t)
  modifies t.*

fn (*yarql.Schema).Resolve(s, query, opts) (errs)
  fnopt standalone
  assumes s.parsed ==> s.ctx.schema == s && sep(s.ctx) && s.ctx.query != nil
  modifies everything()
  inv cur(ctx).schema == s
  inv jk(JS(s)) == karr(kobj(knil))
  inv ite(rangeindex < 0, jm(JS(s)) == 3, done(JS(s)))
  ensures @the-response-is-one-document old(s.parsed) ==> done(jf(js0, s.Result, 0, len(s.Result))) && jk(jf(js0, s.Result, 0, len(s.Result))) == knil
