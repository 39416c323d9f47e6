# C08: the compiled-query cache is transparent and bounded.
property C08
checks all

prelude <<<
(declare-fun compiled (Str Bool Str Str Str Int) Bool)
; parsing Q ht T res frags targetIdx charNr: a state some parse of Q reaches without errors
(declare-fun parsing (Str Bool Str Str Str Int Int) Bool)
(assert (forall ((q Str) (h Bool) (t Str) (r Str) (f Str)) (! (=> (and (= (slen r) 0) (= (slen f) 0)) (parsing q h t r f (- 1) 0)) :pattern ((parsing q h t r f (- 1) 0)))))
; strings with the same bytes are the same string
(define-fun sameidx ((a Str) (b Str)) Bool (or (= a b) (not (= (slen a) (slen b))) (and (<= 0 (sdiff a b)) (< (sdiff a b) (slen a)) (not (= (sat a (sdiff a b)) (sat b (sdiff a b)))))))
(assert (forall ((q Str) (h Bool) (t Str) (a Str) (f Str) (b Str) (g Str) (i Int)) (! (and (sameidx a b) (sameidx f g)) :pattern ((compiled q h t a f i) (compiled q h t b g i)))))
>>>

extern bytes.Equal(a, b) (r)
  ensures r <==> len(a) == len(b) && (forall k :: 0 <= k && k < len(a) ==> a[k] == b[k])
  ensures r ==> str(a) == str(b)

fn helpers.StrPtr(s) (p)
  ensures fresh(p) && *p == s

def hasT(t) = t != nil
def targetOf(t) = ite(t == nil, "", *t)
def sametarget(a, b) = (a == nil <==> b == nil) && (a != nil && b != nil ==> *a == *b)
def entryok(e, n) = alive(e.query) && alive(e.bytecode) && alive(e.fragmentLocation) && (e.target == nil || alive(e.target)) && len(e.query) == n && compiled(str(e.query), hasT(e.target), targetOf(e.target), str(e.bytecode), str(e.fragmentLocation), e.targetIdx)
def cacheok(c) = forall n :: has(c, n) ==> len(c[n]) <= 20 && alive(c[n]) && (forall k :: 0 <= k && k < len(c[n]) ==> entryok(c[n][k], n))
# no cached buffer shares memory with the buffers of the parser or its caller
def entryowns(e, q, b, f) = base(e.query) != base(q) && base(e.query) != base(b) && base(e.bytecode) != base(q) && base(e.bytecode) != base(b) && base(e.fragmentLocation) != base(f)
def ownbuffers(c, q, b, f) = forall n :: has(c, n) ==> (forall k :: 0 <= k && k < len(c[n]) ==> entryowns(c[n][k], q, b, f))

fn (cache.BytecodeCache).GetEntry(c, query, target) (res, frags, idx)
  requires cacheok(c)
  ensures @answer-is-the-compilation-of-this-query-and-target res != nil ==> compiled(str(query), hasT(target), targetOf(target), str(res), str(frags), idx)
  loopdec len(c[len(query)]) - $i

fn (cache.BytecodeCache).SetEntry(c, query, bytecode, target, targetIdx, fragmentLocation)
  requires c != nil
  assertexit len(c[len(query)]) >= 1
  assertexit len(c[len(query)]) <= 20
  assertexit str(c[len(query)][0].query) == str(query)
  assertexit str(c[len(query)][0].bytecode) == str(bytecode)
  assertexit str(c[len(query)][0].fragmentLocation) == str(fragmentLocation)
  assertexit hasT(c[len(query)][0].target) <==> hasT(target)
  assertexit targetOf(c[len(query)][0].target) == targetOf(target)
  assertexit entryok(c[len(query)][0], len(query))
  assertexit forall k :: 0 < k && k < len(c[len(query)]) ==> entryok(c[len(query)][k], len(query))
  assertexit entryowns(c[len(query)][0], query, bytecode, fragmentLocation)
  assertexit forall k :: 0 < k && k < len(c[len(query)]) ==> entryowns(c[len(query)][k], query, bytecode, fragmentLocation)
  requires cacheok(c)
  requires len(c) <= 100
  requires ownbuffers(c, query, bytecode, fragmentLocation) && base(fragmentLocation) != 0
  requires compiled(str(query), hasT(target), targetOf(target), str(bytecode), str(fragmentLocation), targetIdx)
  modifies c[*]
  inv cacheok(c)
  inv ownbuffers(c, query, bytecode, fragmentLocation)
  inv len(c) + $i <= 100
  ensures @entries-are-compilations-of-their-query cacheok(c)
  ensures @entries-are-private-copies ownbuffers(c, query, bytecode, fragmentLocation)
  ensures @at-most-100-lengths len(c) <= 100

# ---- the parser keeps its own buffers apart from the cached ones and starts every parse from scratch ----
def grown(s) = fresh(s) || (base(s) == old(base(s)) && off(s) == old(off(s)))
def reached(ctx) = parsing(str(ctx.Query), hasT(ctx.target), targetOf(ctx.target), str(ctx.Res), str(ctx.FragmentLocations), ctx.TargetIdx, ctx.charNr)
def finished(ctx, target) = compiled(str(ctx.Query), hasT(target), targetOf(target), str(ctx.Res), str(ctx.FragmentLocations), ctx.TargetIdx)
def apart(ctx) = base(ctx.Query) != base(ctx.Res) && base(ctx.FragmentLocations) != 0 && ownbuffers(*ctx.cache, ctx.Query, ctx.Res, ctx.FragmentLocations)
def wf(ctx) = ctx != nil && ctx.charNr >= 0 && ctx.Hasher != nil && ctx.cache != nil && *ctx.cache != nil && 0 <= ctx.nesting && ctx.nesting <= 1000 && base(ctx.Query) != base(ctx.Res)

trusted (*bytecode.ParserCtx).parseOperatorOrFragment(ctx) (stop)
  requires wf(ctx) && len(ctx.Errors) == 0 && reached(ctx) && (ctx.hasTarget <==> ctx.target != nil && len(*ctx.target) > 0)
  modifies ctx.charNr, ctx.nesting, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*], ctx.TargetIdx, ctx.FragmentLocations, ctx.FragmentLocations[*]
  ensures wf(ctx) && arr(ctx.Query) == old(arr(ctx.Query))
  ensures grown(ctx.Res) && grown(ctx.FragmentLocations) && grown(ctx.Errors)
  ensures stop && len(ctx.Errors) == 0 ==> finished(ctx, ctx.target)
  ensures !stop ==> len(ctx.Errors) == 0 && reached(ctx) && ctx.charNr > old(ctx.charNr) && old(ctx.charNr) < len(ctx.Query)

fn (*bytecode.ParserCtx).ParseQueryToBytecode(ctx, target)
  requires ctx != nil && ctx.Hasher != nil && ctx.cache != nil && *ctx.cache != nil
  requires cacheok(*ctx.cache) && len(*ctx.cache) <= 100
  requires apart(ctx)
  modifies everything()
  ensures @result-is-what-parsing-yields len(ctx.Errors) == 0 ==> finished(ctx, target)
  ensures @cache-stays-transparent cacheok(*ctx.cache)
  ensures @cache-stays-bounded len(*ctx.cache) <= 100
  ensures @cache-never-shares-buffers apart(ctx)
  inv wf(ctx) && reached(ctx) && len(ctx.Errors) == 0
  inv (ctx.hasTarget <==> ctx.target != nil && len(*ctx.target) > 0)
  inv ctx.target == target
  inv cacheok(*ctx.cache)
  inv len(*ctx.cache) <= 100
  inv apart(ctx)
  loopdec len(ctx.Query) - ctx.charNr

extern fnv.New32() (h)
  ensures h != nil

fn bytecode.NewParserCtx() (r)
  ensures @starts-with-an-empty-private-cache r != nil && r.cache != nil && *r.cache != nil && cacheok(*r.cache) && len(*r.cache) == 0 && apart(r) && r.Hasher != nil
