# C07: execution depth is bounded and execution terminates.
property C07
checks pre post decreases loopdec
opt externals havoc

prelude <<<
(declare-fun height (Int) Int)   ; how deep a type descriptor is nested until its next object
(assert (forall ((o Int)) (! (>= (height o) 0) :pattern ((height o)))))
>>>
pure (reflect.Value).Kind errors.New fmt.Sprintf (reflect.Value).Len (reflect.Value).Pointer (reflect.Value).IsNil (reflect.Value).Elem (reflect.Value).Type (reflect.Type).Name (reflect.Type).PkgPath (reflect.Value).Int (reflect.Value).Uint (reflect.Value).String (reflect.Value).Field (reflect.Value).Method (reflect.Value).Index (reflect.Value).Interface (error).Error (context.Context).Err
assumption type descriptors are finite: the element of a list or pointer, the result of a method and the implementations of an interface are nested less deep than the descriptor itself (parse.go builds them bottom up)
def code(ctx) = len(ctx.query.Res) == old(len(ctx.query.Res)) && ctx.schema == old(ctx.schema) && ctx.schema.MaxDepth == old(ctx.schema.MaxDepth) && len(ctx.activeFragments) == old(len(ctx.activeFragments))
def sound(ctx) = ctx.schema != nil && len(ctx.activeFragments) <= 500
def left(ctx) = len(ctx.query.Res) - ctx.charNr
def onward(ctx) = ctx.charNr >= old(ctx.charNr)

extern bytes.Equal(a, b) (r)
trusted yarql.b2s(b) (r)
extern strconv.AppendInt(dst, i, base) (r)
trusted (*yarql.Ctx).err(ctx, msg) (r)
  modifies ctx.query.Errors, ctx.query.Errors[*]
  ensures r
  ensures len(ctx.query.Errors) == old(len(ctx.query.Errors)) + 1
trusted (*yarql.Ctx).callQlMethod(ctx, method, goValue, parseArguments) (outs, critical)
  modifies everything()
  ensures code(ctx) && onward(ctx)
trusted (*yarql.Ctx).valueToJSON(ctx, in, kind)
  modifies ctx.schema.Result, ctx.schema.Result[*]
trusted helpers.TimeToIso8601String(target, t)
  modifies *target, (*target)[*]
trusted (*yarql.Ctx).startTrace(ctx)
trusted (*yarql.Ctx).finishTrace(ctx, cb)
  modifies ctx.tracing.*
trusted (*yarql.Ctx).resolveDirective(ctx, location) (modifier, critical)
  modifies everything()
  ensures code(ctx) && onward(ctx)
  ensures forall p *bool :: old(alive(p)) ==> *p == old(*p)

def withinDepth(ctx, dept) = dept == 0 || dept < ctx.schema.MaxDepth
fn (*yarql.Ctx).resolveSelectionSet(ctx, typeObj, dept, firstField) (critical)
  requires sound(ctx)
  requires @within-the-maximum-depth withinDepth(ctx, dept)
  decreases 255 - dept, 500 - len(ctx.activeFragments), left(ctx), 3, 0
  modifies everything()
  ensures code(ctx) && (!critical ==> onward(ctx))
  inv code(ctx) && onward(ctx)
  loopdec left(ctx)

fn (*yarql.Ctx).resolveSpread(ctx, typeObj, dept, firstField) (critical)
  requires sound(ctx)
  requires @within-the-maximum-depth withinDepth(ctx, dept)
  decreases 255 - dept, 500 - len(ctx.activeFragments), left(ctx), 2, 0
  modifies everything()
  ensures code(ctx) 
  ensures @the-cursor-moves-on !critical ==> ctx.charNr > old(ctx.charNr)
  inv code(ctx) && onward(ctx)
  inv ctx.charNr > old(ctx.charNr)
  inv ctx.charNr >= cur(nameStart)
  loopdec left(ctx)
  loopdec cur(directivesCount) - cur(i)

fn (*yarql.Ctx).resolveField(ctx, typeObj, dept, addCommaBefore) (skipped, critical)
  requires sound(ctx)
  requires @within-the-maximum-depth withinDepth(ctx, dept)
  decreases 255 - dept, 500 - len(ctx.activeFragments), left(ctx), 2, 0
  modifies everything()
  ensures code(ctx)
  ensures @the-cursor-moves-on ctx.charNr > old(ctx.charNr)
  inv code(ctx) && onward(ctx)
  inv ctx.charNr > old(ctx.charNr)
  loopdec cur(directivesCount) - cur(i)

def atLimit(ctx, typeObj, dept, hasSub) = typeObj.valueType == valueTypeObj && hasSub && dept + 1 >= ctx.schema.MaxDepth && ctx.query.Res[ctx.charNr] != 'v'
fn (*yarql.Ctx).resolveFieldDataValue(ctx, typeObj, dept, hasSub) (critical)
  requires sound(ctx)
  requires @within-the-maximum-depth withinDepth(ctx, dept)
  assumes forall o *yarql.obj :: height(o.innerContent) < height(o)
  assumes forall o *yarql.obj :: (forall k :: height(o.implementations[k]) < 2)
  assumes (typeObj.valueType == valueTypeMethod ==> height(typeObj.method.outType) < height(typeObj)) && (typeObj.valueType == valueTypeInterface || typeObj.valueType == valueTypeInterfaceRef ==> height(typeObj) >= 2)
  loopdec height(cur(resolvedTypeObj))
  decreases 255 - dept, 500 - len(ctx.activeFragments), left(ctx), 1, height(typeObj)
  modifies everything()
  ensures code(ctx)
  ensures @null-at-the-limit old(atLimit(ctx, typeObj, dept, hasSub)) ==> critical && len(ctx.query.Errors) == old(len(ctx.query.Errors)) + 1 && len(ctx.schema.Result) == old(len(ctx.schema.Result)) + 4 && bytesof(ctx.schema.Result, old(len(ctx.schema.Result)), "null")
  inv code(ctx) && onward(ctx)
fn (*yarql.Ctx).resolveOperation(ctx) (critical)
  assumes sound(ctx)
  modifies everything()
  loopdec left(ctx)
