# C20: operations and fragments are selected by exact name and type.
property C20
checks pre post
opt externals havoc
include parser.inc
include keep.inc

prelude <<<
(declare-const role Int)        ; which caller of resolveSelectionSet is looked at: 0 a spread, 1 an operation
(declare-const entry Int)       ; the cursor where the spread or operation starts
(declare-const nameEnd Int)     ; the NULL behind its name
(declare-const pick Int)        ; the first fragment with the name of the spread, -1 if there is none
(declare-fun isNamed (Int) Bool) ; the fragment's name is the spread's name
(declare-const typeEnd Int)     ; the NULL behind that fragment's type
(declare-const wantName Bool)   ; the request names an operation
(declare-fun mark (Str) Bool)   ; marks the strings names are compared with
(declare-const wanted Str)      ; its name

(declare-fun eqb ((Array Int Int) Int Int (Array Int Int) Int Int) Bool)  ; bytes.Equal
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (b (Array Int Int)) (p Int) (m Int)) (! (= (eqb a o n b p m) (eqb b p m a o n)) :pattern ((eqb a o n b p m)))))
>>>
# ran: selection sets executed; after: the cursor behind the directives; skip: a directive asked to skip
ghost ran Int
ghost after Int
ghost skip Bool
ghost failed Bool

# --- the parser: which operation becomes the entry point
also bytecode.b2s
  ensures forall k :: 0 <= k && k < len(a) ==> s[k] == a[k]
  ensures forall t Str :: {mark(t)} len(t) == len(s) && (forall k :: 0 <= k && k < len(s) ==> t[k] == s[k]) ==> t == s
# the name of the operation that starts at i is t
def opNamed(r, i, t) = r[i] == 0 && r[i+1] == 'o' && r[i+5+len(t)] == 0 && i+5+len(t) < len(r) && (forall k :: {t[k]} 0 <= k && k < len(t) ==> r[i+5+k] == t[k] && t[k] != 0) && (forall j :: i+5 <= j && j < i+5+len(t) ==> r[j] == t[j-i-5] && r[j] != 0)
also (*bytecode.ParserCtx).parseOperatorOrFragment
  assumes ctx.hasTarget ==> len(*ctx.target) > 0 && mark(*ctx.target)
  ensures @fragments-are-not-entry-points !stop && ctx.Res[old(len(ctx.Res))+1] != 'o' ==> ctx.TargetIdx == old(ctx.TargetIdx)
  ensures @without-a-name-the-operation-is-the-entry !stop && !ctx.hasTarget && ctx.Res[old(len(ctx.Res))+1] == 'o' ==> ctx.TargetIdx == old(len(ctx.Res))
  ensures @only-the-named-operation-is-the-entry !stop && ctx.hasTarget && ctx.TargetIdx != old(ctx.TargetIdx) ==> ctx.TargetIdx == old(len(ctx.Res)) && opNamed(ctx.Res, old(len(ctx.Res)), *ctx.target)
  ensures @the-named-operation-becomes-the-entry !stop && ctx.hasTarget && opNamed(ctx.Res, old(len(ctx.Res)), *ctx.target) ==> ctx.TargetIdx == old(len(ctx.Res))
  ensures @an-instruction-starts !stop ==> ctx.Res[old(len(ctx.Res))] == 0 && len(ctx.Res) > old(len(ctx.Res)) + 1
  ensures @a-fragment-is-recorded !stop && ctx.Res[old(len(ctx.Res))+1] == 'F' ==> len(ctx.FragmentLocations) == old(len(ctx.FragmentLocations)) + 1 && ctx.FragmentLocations[old(len(ctx.FragmentLocations))] == old(len(ctx.Res)) + 1
  ensures @earlier-fragments-are-kept !stop ==> (forall k :: 0 <= k && k < old(len(ctx.FragmentLocations)) ==> ctx.FragmentLocations[k] == old(ctx.FragmentLocations[k]))

# --- the executor
pure (reflect.Value).Kind (error).Error errors.New fmt.Sprintf
def code(ctx) = same(ctx.query.Res) && same(ctx.query.FragmentLocations) && ctx.query == old(ctx.query) && ctx.schema == old(ctx.schema) && arr(ctx.query.Res) == old(arr(ctx.query.Res)) && arr(ctx.query.FragmentLocations) == old(arr(ctx.query.FragmentLocations))
def u32(r, i) = r[i] + 256*r[i+1] + 65536*r[i+2] + 16777216*r[i+3]

extern bytes.Equal(a, b) (r)
  ensures r <==> eqb(arr(a), off(a), len(a), arr(b), off(b), len(b))
trusted yarql.b2s(b) (r)
trusted (*yarql.Ctx).err(ctx, msg) (r)
  modifies ctx.query.Errors, ctx.query.Errors[*]
  ensures r
  ensures len(ctx.query.Errors) == old(len(ctx.query.Errors)) + 1
trusted (*yarql.Ctx).resolveDirective(ctx, location) (modifier, critical)
  modifies everything()
  ensures code(ctx) && same(ctx.activeFragments) && arr(ctx.activeFragments) == old(arr(ctx.activeFragments))
  ensures after == ctx.charNr
  ensures skip == (old(skip) || modifier.Skip) && failed == (old(failed) || critical)
  ensures ran == old(ran)
  ensures same(ctx.schema.Result)
  ensures forall p *bool :: old(alive(p)) ==> *p == old(*p)
  ensures forall o *yarql.obj :: old(alive(o)) ==> o.typeNameBytes == old(o.typeNameBytes) && arr(o.typeNameBytes) == old(arr(o.typeNameBytes))

# the bytes [from, to) of the program spell the type's name
def typeIs(t, r, from, to) = eqb(arr(t.typeNameBytes), off(t.typeNameBytes), len(t.typeNameBytes), arr(r), off(r) + from, to - from)
def inline(ctx) = ctx.query.Res[entry] == 't'
def loc(ctx, i) = ctx.query.FragmentLocations[i]
def named(ctx, i) = loc(ctx, i) + 1 + nameEnd - (entry + 6) < len(ctx.query.Res) && ctx.query.Res[loc(ctx, i) + 1 + nameEnd - (entry + 6)] == 0 && eqb(arr(ctx.query.Res), off(ctx.query.Res) + loc(ctx, i) + 1, nameEnd - (entry + 6), arr(ctx.query.Res), off(ctx.query.Res) + entry + 6, nameEnd - (entry + 6))
def tyStart(ctx) = loc(ctx, pick) + 2 + nameEnd - (entry + 6)
def spreadEnd(ctx) = entry + 6 + u32(ctx.query.Res, entry + 2) + 1
def matches(ctx, t) = ite(inline(ctx), typeIs(t, ctx.query.Res, entry + 6, nameEnd), pick >= 0 && typeIs(t, ctx.query.Res, tyStart(ctx), typeEnd))
def active(ctx) = exists k :: 0 <= k && k < len(ctx.activeFragments) && ctx.activeFragments[k] == loc(ctx, pick)

trusted (*yarql.Ctx).resolveSelectionSet(ctx, typeObj, dept, firstField) (critical)
  requires @the-type-condition-equals-the-type role == 0 ==> matches(ctx, typeObj)
  requires @the-body-of-the-chosen-fragment role == 0 ==> ctx.charNr == ite(inline(ctx), after, typeEnd + 1)
  requires @no-directive-skips role == 0 ==> !skip
  requires @the-root-of-the-operation role == 1 ==> typeObj == ite(ctx.query.Res[entry+2] == 'm', ctx.schema.rootMethod, ctx.schema.rootQuery)
  requires @the-selection-of-the-operation role == 1 ==> ctx.charNr == ite(ctx.query.Res[entry+3] == 't', nameEnd + 6 + u32(ctx.query.Res, nameEnd + 1), nameEnd + 1)
  modifies everything()
  ensures critical ==> len(ctx.query.Errors) > 0
  ensures ran == old(ran) + 1
  ensures code(ctx) && same(ctx.activeFragments) && after == old(after) && skip == old(skip) && failed == old(failed)
fn (*yarql.Ctx).resolveSpread(ctx, typeObj, dept, firstField) (critical)
  assumes role == 0 && entry == ctx.charNr && after == nameEnd + 1 && !skip && !failed && ctx.schema != nil && typeObj != nil
  assumes nameEnd >= entry + 6 && ctx.query.Res[nameEnd] == 0 && (forall k :: entry + 6 <= k && k < nameEnd ==> ctx.query.Res[k] != 0)
  assumes forall i :: {isNamed(i)} isNamed(i) ==> named(ctx, i)
  assumes forall i :: named(ctx, i) ==> isNamed(i)
  assumes entry >= 0 && nameEnd < len(ctx.query.Res) && (forall i :: 0 <= i && i < len(ctx.query.FragmentLocations) ==> loc(ctx, i) >= 0)
  assumes pick == -1 || 0 <= pick && pick < len(ctx.query.FragmentLocations) && isNamed(pick)
  assumes forall i :: {isNamed(i)} 0 <= i && i < len(ctx.query.FragmentLocations) && (pick == -1 || i < pick) ==> !isNamed(i)
  assumes pick >= 0 ==> typeEnd >= tyStart(ctx) && typeEnd < len(ctx.query.Res) && ctx.query.Res[typeEnd] == 0 && (forall k :: tyStart(ctx) <= k && k < typeEnd ==> ctx.query.Res[k] != 0)
  assumes base(ctx.activeFragments) != base(ctx.query.FragmentLocations) || cap(ctx.activeFragments) == 0
  modifies everything()
  inv code(ctx) && same(ctx.activeFragments) && arr(ctx.activeFragments) == old(arr(ctx.activeFragments)) && ran == old(ran)
  inv ctx.charNr >= entry + 6 && ctx.charNr <= nameEnd
  inv ctx.charNr >= tyStart(ctx) && ctx.charNr <= typeEnd
  inv cur(nameLen) == nameEnd - (entry + 6)
  inv cur(endName) == nameEnd
  inv after == ctx.charNr
  inv !skip
  inv !failed
  inv forall p *bool :: old(alive(p)) ==> *p == old(*p)
  inv forall o *yarql.obj :: old(alive(o)) ==> o.typeNameBytes == old(o.typeNameBytes) && arr(o.typeNameBytes) == old(arr(o.typeNameBytes))
  inv same(ctx.schema.Result)
  inv forall i :: {isNamed(i)} 0 <= i && i <= rangeindex ==> !isNamed(i)
  inv rangeindex < ite(pick == -1, len(ctx.query.FragmentLocations), pick)
  inv pick >= 0 && cur(location) == loc(ctx, pick)
  inv forall i :: 0 <= i && i <= rangeindex ==> ctx.activeFragments[i] != loc(ctx, pick)
  ensures @at-most-one-body-runs ran == old(ran) || ran == old(ran) + 1
  ensures @runs-when-name-and-type-match !critical && !skip && old(matches(ctx, typeObj)) ==> ran == old(ran) + 1
  ensures @nothing-else-keeps-it-from-running !failed && !skip && old(matches(ctx, typeObj)) && (old(inline(ctx)) || (!old(active(ctx)) && len(old(ctx.activeFragments)) < 500)) ==> ran == old(ran) + 1
  ensures @otherwise-contributes-nothing ran == old(ran) ==> same(ctx.schema.Result) && *firstField == old(*firstField)
  ensures @otherwise-the-spread-is-stepped-over ran == old(ran) && !critical ==> ctx.charNr == old(spreadEnd(ctx))
  ensures @execution-goes-on-behind-the-spread ran != old(ran) && !old(inline(ctx)) ==> ctx.charNr == after
  ensures @an-undefined-fragment-is-an-error !old(inline(ctx)) && pick == -1 && !skip ==> critical

fn (*yarql.Ctx).resolveOperation(ctx) (critical)
  requires role == 2 ==> ctx.charNr == ctx.query.TargetIdx && ctx.charNr != -1 && len(ctx.query.Errors) == 0
  assumes role == 1 && entry == ctx.charNr && ctx.schema != nil
  assumes nameEnd >= entry + 5 && ctx.query.Res[nameEnd] == 0 && (forall k :: entry + 5 <= k && k < nameEnd ==> ctx.query.Res[k] != 0)
  modifies everything()
  inv code(ctx) && ran == old(ran)
  inv ctx.charNr >= entry + 5 && ctx.charNr <= nameEnd
  ensures @the-operation-is-executed ran == old(ran) + 1 || ran == old(ran) && critical
  ensures critical ==> len(ctx.query.Errors) > 0

# --- the request: what the parser is asked for and what is executed
also (*bytecode.ParserCtx).ParseQueryToBytecode
  requires @the-request-names-the-operation role == 2 ==> (wantName <==> target != nil)
  requires @by-its-exact-name role == 2 && target != nil ==> *target == wanted
  ensures ran == old(ran)
trusted (*yarql.Ctx).write(ctx, b)
  modifies ctx.schema.Result, ctx.schema.Result[*]
trusted (*yarql.Ctx).writeByte(ctx, b)
  modifies ctx.schema.Result, ctx.schema.Result[*]
trusted (*yarql.Ctx).writeNull(ctx)
  modifies ctx.schema.Result, ctx.schema.Result[*]
trusted (*yarql.Ctx).startTrace(ctx)
trusted (*yarql.Ctx).finishTrace(ctx, cb)
  modifies ctx.tracing.*
trusted (*yarql.tracer).reset(t)
  modifies t.*
trusted (*yarql.tracer).finish(t)
  modifies t.*
trusted helpers.StringToJSON(s, target)
  modifies *target, (*target)[*]
extern strconv.AppendUint(dst, i, base) (r)
  modifies dst[*]
extern json.Marshal(v) (r, err)

fn (*yarql.Schema).Resolve(s, query, opts) (errs)
  assumes role == 2 && wantName == (len(opts.OperatorTarget) > 0) && wanted == opts.OperatorTarget
  assumes s.parsed ==> s.ctx.schema == s && s.ctx.query.Hasher != nil && s.ctx.query.cache != nil && *s.ctx.query.cache != nil && off(s.ctx.query.Res) == 0 && base(s.ctx.query.Query) != base(s.ctx.query.Res)
  modifies everything()
  inv ran == old(ran) || ran == old(ran) + 1
  inv len(errs) > 0
  ensures @without-errors-one-operation-is-executed old(s.parsed) && len(errs) == 0 ==> ran == old(ran) + 1
  ensures @at-most-one-operation-is-executed ran == old(ran) || ran == old(ran) + 1
