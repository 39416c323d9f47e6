# C10: directives skip exactly the selected field or fragment.
property C10
checks pre post
opt externals havoc

prelude <<<
(declare-const role Int)        ; 0 a field, 1 a spread, 2 a directive
(declare-const entry Int)       ; the cursor where the field, spread or directive starts
(declare-const nameEnd Int)     ; the NULL behind the name
(declare-const pick Int)        ; the index of the first directive of that name, -1 if there is none
(declare-const where Int)       ; the kind of place the directive is at
(declare-fun isNamed (Int) Bool)
(declare-const fieldObj Int)    ; what the type has under the field's name
(declare-const resStart Int)    ; where the answer of the field starts
(declare-const comma Bool)      ; a field precedes it
(declare-fun eqb ((Array Int Int) Int Int (Array Int Int) Int Int) Bool)  ; bytes.Equal
>>>
# dirs: directives evaluated; skip: one asked to skip; failed: one could not be evaluated
# after: the cursor behind the last directive; ran: fields and selection sets executed; comma: the answer had ',' written
ghost dirs Int
ghost skip Bool
ghost failed Bool
ghost after Int
ghost ran Int
ghost calls Int

pure (reflect.Value).Kind (error).Error errors.New fmt.Sprintf
def u32(r, i) = r[i] + 256*r[i+1] + 65536*r[i+2] + 16777216*r[i+3]
def code(ctx) = same(ctx.query.Res) && same(ctx.query.FragmentLocations) && ctx.query == old(ctx.query) && ctx.schema == old(ctx.schema) && arr(ctx.query.Res) == old(arr(ctx.query.Res)) && arr(ctx.query.FragmentLocations) == old(arr(ctx.query.FragmentLocations))
def quiet(ctx) = same(ctx.schema.Result) && arr(ctx.schema.Result) == old(arr(ctx.schema.Result)) && base(ctx.path) == old(base(ctx.path)) && off(ctx.path) == old(off(ctx.path)) && len(ctx.path) == old(len(ctx.path)) && ctx.currentReflectValueIdx == old(ctx.currentReflectValueIdx)
def quiet2(ctx) = same(ctx.schema.Result) && arr(ctx.schema.Result) == old(arr(ctx.schema.Result)) && len(ctx.path) == atloop(len(ctx.path)) && len(ctx.path) >= old(len(ctx.path)) && ctx.currentReflectValueIdx == old(ctx.currentReflectValueIdx)
def bools() = forall p *bool :: old(alive(p)) ==> *p == old(*p)
def fields() = (forall o *yarql.obj :: old(alive(o)) ==> o.objContents == old(o.objContents) && o.typeNameBytes == old(o.typeNameBytes) && arr(o.typeNameBytes) == old(arr(o.typeNameBytes))) && maps()
def maps() = forall o *yarql.obj :: old(alive(o)) ==> (forall k :: o.objContents[k] == old(o.objContents[k]) && (has(o.objContents, k) <==> old(has(o.objContents, k))))

trusted yarql.b2s(b) (r)
  ensures r == str(b)
trusted (*yarql.Ctx).err(ctx, msg) (r)
  modifies ctx.query.Errors, ctx.query.Errors[*], failed
  ensures r && failed
  ensures len(ctx.query.Errors) == old(len(ctx.query.Errors)) + 1
extern bytes.Equal(a, b) (r)
  ensures r <==> eqb(arr(a), off(a), len(a), arr(b), off(b), len(b))

# --- a directive runs exactly the method registered under its name for the place it is at
def defs(ctx) = ctx.schema.definedDirectives[where]
def thisName(ctx) = str_of(arr(ctx.query.Res), off(ctx.query.Res) + entry + 2, nameEnd - (entry + 2))
trusted (*yarql.Ctx).callQlMethod(ctx, method, goValue, parseArguments) (outs, critical)
  requires @the-method-of-the-directive role == 2 ==> pick >= 0 && method == defs(ctx)[pick].parsedMethod && *goValue == defs(ctx)[pick].methodReflection
  requires @with-its-arguments role == 2 ==> ctx.charNr == nameEnd + 1 && (parseArguments <==> ctx.query.Res[entry + 1] == 't')
  modifies everything()
  ensures code(ctx) && quiet(ctx) && bools() && fields() && same(ctx.activeFragments) && arr(ctx.activeFragments) == old(arr(ctx.activeFragments))
  ensures failed == (old(failed) || critical) && skip == old(skip) && ran == old(ran) && calls == old(calls) + 1
  ensures dirs == ite(critical, old(dirs), old(dirs) + 1)
  ensures !critical ==> after == ctx.charNr && len(outs) == 1
extern (reflect.Value).Interface(v) (r)
  modifies skip
  ensures typeis(r, yarql.DirectiveModifier)
  ensures skip == (old(skip) || unbox(r, yarql.DirectiveModifier).Skip)
fn (*yarql.Ctx).resolveDirective(ctx, location) (modifier, critical)
  requires ctx.schema != nil
  requires @the-kind-of-place role == 0 ==> location == DirectiveLocationField
  requires role == 1 ==> location == ite(ctx.query.Res[entry] == 't', DirectiveLocationFragmentInline, DirectiveLocationFragment)
  assumes role == 2 && entry == ctx.charNr && where == location && nameEnd >= entry + 2 && nameEnd < len(ctx.query.Res) && ctx.query.Res[nameEnd] == 0 && (forall k :: entry + 2 <= k && k < nameEnd ==> ctx.query.Res[k] != 0)
  assumes has(ctx.schema.definedDirectives, location) || len(defs(ctx)) == 0
  assumes forall i :: {isNamed(i)} 0 <= i && i < len(defs(ctx)) && isNamed(i) ==> defs(ctx)[i].Name == thisName(ctx)
  assumes forall i :: 0 <= i && i < len(defs(ctx)) && defs(ctx)[i].Name == thisName(ctx) ==> isNamed(i)
  assumes pick == -1 || 0 <= pick && pick < len(defs(ctx)) && isNamed(pick)
  assumes forall i :: {isNamed(i)} 0 <= i && i < len(defs(ctx)) && (pick == -1 || i < pick) ==> !isNamed(i)
  modifies everything()
  inv ctx.charNr >= entry + 2 && ctx.charNr <= nameEnd
  inv forall i :: {isNamed(i)} 0 <= i && i <= rangeindex ==> !isNamed(i)
  inv cur(nameEnd) == nameEnd
  ensures code(ctx) && quiet(ctx) && bools() && fields() && same(ctx.activeFragments) && arr(ctx.activeFragments) == old(arr(ctx.activeFragments))
  ensures @an-unknown-directive-is-an-error role == 2 && pick == -1 ==> critical
  ensures @its-answer-is-what-it-returned !critical ==> skip == (old(skip) || modifier.Skip)
  ensures @an-error-does-not-skip critical ==> skip == old(skip) && !modifier.Skip
  ensures failed == (old(failed) || critical) && ran == old(ran)
  ensures !critical ==> dirs == old(dirs) + 1 && after == ctx.charNr

# --- the built in directives
fn yarql.NewSchema$1(args) (r)
  ensures @skip r.Skip <==> args.If
fn yarql.NewSchema$2(args) (r)
  ensures @include r.Skip <==> !args.If

# --- a field
def n(r) = r[entry + 9]
def nameLen(r) = r[entry + 10 + n(r)]
def behindName(r) = entry + 12 + n(r) + nameLen(r)
def member(ctx, at) = let r = ctx.query.Res in let o = ctx.schema.Result in len(o) == at + n(r) + 3 && o[at] == '"' && (forall k :: {o[at + 1 + k]} 0 <= k && k < n(r) ==> o[at + 1 + k] == r[entry + 10 + k]) && o[at + 1 + n(r)] == '"' && o[at + 2 + n(r)] == ':'
trusted (*yarql.Ctx).resolveFieldDataValue(ctx, typeObj, dept, hasSub) (critical)
  requires @no-directive-skips role == 0 ==> !skip && !failed
  requires @the-field-of-that-name role == 0 ==> typeObj == fieldObj
  requires @behind-the-directives role == 0 ==> ctx.charNr == ite(ctx.query.Res[entry] == 0, behindName(ctx.query.Res), after)
  requires @the-selection-is-there role == 0 ==> (hasSub <==> ctx.query.Res[ctx.charNr] != 'e')
  requires @every-directive-is-asked role == 0 ==> dirs == ctx.query.Res[entry]
  requires @the-member-is-started role == 0 ==> (comma ==> ctx.schema.Result[resStart] == ',') && member(ctx, resStart + ite(comma, 1, 0))
  modifies everything()
  ensures ran == old(ran) + 1 && code(ctx) && skip == old(skip) && failed == old(failed) && after == old(after) && dirs == old(dirs)
pure (reflect.Value).Field (reflect.Value).Method
trusted (*yarql.Ctx).startTrace(ctx)
trusted (*yarql.Ctx).finishTrace(ctx, cb)
  modifies ctx.tracing.*
fn (*yarql.Ctx).resolveField(ctx, typeObj, dept, addCommaBefore) (skipped, critical)
  assumes role == 0 && entry == ctx.charNr && ctx.schema != nil && typeObj != nil && !skip && !failed && dirs == 0 && addCommaBefore == comma && resStart == len(ctx.schema.Result)
  assumes base(ctx.schema.Result) != base(ctx.query.Res) && base(ctx.path) != base(ctx.query.Res) && base(ctx.path) != base(ctx.schema.Result)
  assumes fieldObj == typeObj.objContents[u32(ctx.query.Res, entry + 5)]
  modifies everything()
  inv code(ctx) && quiet2(ctx) && bools() && fields() && ran == old(ran)
  inv ctx.charNr == ite(cur(i) == 0, behindName(ctx.query.Res), after)
  inv !skip && !failed && dirs == cur(i)
  ensures @a-skipped-field-does-not-run skip ==> ran == old(ran)
  ensures @a-skipped-field-writes-nothing skip ==> skipped && same(ctx.schema.Result) && arr(ctx.schema.Result) == old(arr(ctx.schema.Result))
  ensures @a-skipped-field-keeps-path-and-value skip ==> len(ctx.path) == old(len(ctx.path)) && ctx.currentReflectValueIdx == old(ctx.currentReflectValueIdx)
  ensures @skipped-only-by-a-directive skipped ==> skip || failed && critical
  ensures @otherwise-it-runs !skip && !failed && has(typeObj.objContents, u32(ctx.query.Res, entry + 5)) ==> ran == old(ran) + 1
  ensures @goes-on-behind-the-field ctx.charNr == old(entry + 9 + u32(ctx.query.Res, entry + 1) + 1)

# --- a fragment
trusted (*yarql.Ctx).resolveSelectionSet(ctx, typeObj, dept, firstField) (critical)
  requires @no-directive-skips role == 1 ==> !skip && !failed
  requires @every-directive-is-asked role == 1 ==> dirs == ctx.query.Res[entry + 1]
  modifies everything()
  ensures ran == old(ran) + 1 && code(ctx) && skip == old(skip) && failed == old(failed) && after == old(after) && dirs == old(dirs)
fn (*yarql.Ctx).resolveSpread(ctx, typeObj, dept, firstField) (critical)
  assumes role == 1 && entry == ctx.charNr && ctx.schema != nil && typeObj != nil && !skip && !failed && dirs == 0
  assumes nameEnd >= entry + 6 && nameEnd < len(ctx.query.Res) && ctx.query.Res[nameEnd] == 0 && (forall k :: entry + 6 <= k && k < nameEnd ==> ctx.query.Res[k] != 0)
  modifies everything()
  inv code(ctx) && quiet(ctx) && bools() && fields() && ran == old(ran)
  inv ctx.charNr >= entry + 6 && ctx.charNr <= nameEnd
  inv ctx.charNr == ite(cur(i) == 0, nameEnd + 1, after)
  inv !skip && !failed && dirs == cur(i)
  inv dirs == ctx.query.Res[entry + 1]
  ensures @a-skipped-fragment-does-not-run skip ==> ran == old(ran)
  ensures @a-skipped-fragment-writes-nothing skip ==> same(ctx.schema.Result) && arr(ctx.schema.Result) == old(arr(ctx.schema.Result)) && *firstField == old(*firstField)
  ensures @goes-on-behind-a-skipped-fragment skip ==> ctx.charNr == old(entry + 6 + u32(ctx.query.Res, entry + 2) + 1)
  ensures @an-inline-fragment-of-the-type-runs !skip && !failed && old(ctx.query.Res[entry] == 't' && eqb(arr(typeObj.typeNameBytes), off(typeObj.typeNameBytes), len(typeObj.typeNameBytes), arr(ctx.query.Res), off(ctx.query.Res) + entry + 6, nameEnd - (entry + 6))) ==> ran == old(ran) + 1
