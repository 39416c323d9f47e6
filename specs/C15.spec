# C15: the request context stores and returns what was set.
property C15
checks pre post frame nilmap
opt externals havoc

prelude <<<
(declare-fun requestValues () Int)        ; the map given with the request, or nil
(declare-fun requestContext () Int)       ; the Go context given with the request, or nil
(declare-fun cancelled () Bool)            ; the context is cancelled during this call
>>>
def valuesHas(ctx, k) = ctx.values != nil && has(*ctx.values, k)
def keep(ctx, k) = (has(*ctx.values, k) == (old(ctx.values != nil) && old(has(*ctx.values, k)))) && (old(ctx.values != nil) && old(has(*ctx.values, k)) ==> same((*ctx.values)[k]))

fn (*yarql.Ctx).GetValue(ctx, key) (value)
  ensures @gives-the-value-of-the-key value == ite(valuesHas(ctx, key), (*ctx.values)[key], nil)

fn (*yarql.Ctx).GetValueOk(ctx, key) (value, found)
  ensures @found-exactly-when-set found == (ctx.values != nil && has(*ctx.values, key))
  ensures @gives-the-value-of-the-key value == ite(valuesHas(ctx, key), (*ctx.values)[key], nil)

fn (*yarql.Ctx).SetValue(ctx, key, value)
  modifies ctx.values, *ctx.values, (*ctx.values)[*]
  ensures @the-key-has-the-value ctx.values != nil && *ctx.values != nil && has(*ctx.values, key) && (*ctx.values)[key] == value
  ensures @other-keys-are-unaffected forall k Str :: k != key ==> keep(ctx, k)

fn (*yarql.Ctx).GetContext(ctx) (c)
  ensures @gives-the-last-set c == ite(ctx.context == nil, nil, *ctx.context)

fn (*yarql.Ctx).SetContext(ctx, newContext)
  modifies ctx.context, *ctx.context
  ensures @the-context-is-the-new-one ite(ctx.context == nil, nil, *ctx.context) == newContext
# the request starts with the values and the context it was given
trusted (*yarql.Ctx).resolveOperation(ctx) (r)
  requires @starts-with-the-values-of-the-request ctx.values == requestValues
  requires @starts-with-the-context-of-the-request ite(ctx.context == nil, nil, *ctx.context) == requestContext
  modifies everything()
trusted (*bytecode.ParserCtx).ParseQueryToBytecode(ctx, target)
  modifies ctx.*, ctx.Res[*], ctx.Errors[*], ctx.FragmentLocations[*]
trusted (*yarql.tracer).finish(t)
  modifies everything()
trusted helpers.StringToJSON(s, e)
  requires e != nil
  modifies *e, (*e)[*]

fn (*yarql.Schema).Resolve(s, query, opts) (errs)
  requires s.ctx != nil && s.ctx.schema == s
  requires opts.Values == requestValues && opts.Context == requestContext
  modifies everything()
# while the context is cancelled, the result of a method is null and an error is reported
def out(ctx) = ctx.schema.Result
def grown(s) = fresh(s) || (base(s) == old(base(s)) && off(s) == old(off(s)))
def kept(s) = len(s) >= old(len(s)) && (forall k :: 0 <= k && k < old(len(s)) ==> s[k] == old(s[k]))
def isNullAfter(s) = len(s) == old(len(s)) + 4 && s[old(len(s))] == 'n' && s[old(len(s)) + 1] == 'u' && s[old(len(s)) + 2] == 'l' && s[old(len(s)) + 3] == 'l'
extern (context.Context).Err(c) (r)
  ensures cancelled ==> r != nil
trusted (*yarql.Ctx).callQlMethod(ctx, method, goValue, parseArguments) (outs, critical)
  requires ctx != nil && goValue != nil
  modifies everything()
  ensures ctx.schema == old(ctx.schema) && same(ctx.schema.Result) && (forall k :: 0 <= k && k < len(ctx.schema.Result) ==> ctx.schema.Result[k] == old(ctx.schema.Result[k]))
  ensures same(ctx.query.Res) && same(method.outNr) && same(method.errorOutNr)
  ensures len(ctx.query.Errors) >= old(len(ctx.query.Errors)) && (critical ==> len(ctx.query.Errors) > old(len(ctx.query.Errors)))
  ensures cancelled ==> ctx.context != nil
trusted (*yarql.Ctx).resolveSelectionSet(ctx, typeObj, dept, firstField) (critical)
  requires ctx != nil && firstField != nil
  modifies everything()
trusted (*yarql.Ctx).valueToJSON(ctx, in, kind)
  requires ctx != nil
  modifies ctx.schema.Result, ctx.schema.Result[*]
  ensures grown(out(ctx))
fn (*yarql.Ctx).resolveFieldDataValue(ctx, typeObj, dept, hasSubSelection) (critical)
  requires ctx != nil
  modifies everything()
  ensures @cancelled-results-are-null cancelled && old(typeObj.valueType) == valueTypeMethod ==> isNullAfter(out(ctx)) && kept(out(ctx))
  ensures @cancelled-results-report-an-error cancelled && old(typeObj.valueType) == valueTypeMethod && old(typeObj.method.isTypeMethod) ==> len(ctx.query.Errors) > old(len(ctx.query.Errors))
