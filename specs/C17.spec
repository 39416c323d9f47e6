# C17: a syntax error carries the line and column of the byte where parsing stopped; errors are only appended.
property C17
checks pre post frame

prelude <<<
(declare-fun lineat ((Array Int Int) Int Int) Int)
(declare-fun lineat_ ((Array Int Int) Int Int) Int)
(declare-fun colat ((Array Int Int) Int Int) Int)
(declare-fun colat_ ((Array Int Int) Int Int) Int)
; line and column after the first k bytes, one unfolding per mentioned term
(assert (forall ((a (Array Int Int)) (o Int) (k Int)) (! (= (lineat a o k)
  (ite (<= k 0) 1 (+ (lineat_ a o (- k 1)) (ite (or (= (select a (+ o (- k 1))) 13)
     (and (= (select a (+ o (- k 1))) 10) (not (and (>= k 2) (= (select a (+ o (- k 2))) 13))))) 1 0)))) :pattern ((lineat a o k)))))
(assert (forall ((a (Array Int Int)) (o Int) (k Int)) (! (= (lineat_ a o k) (lineat a o k)) :pattern ((lineat a o k)))))
(assert (forall ((a (Array Int Int)) (o Int) (k Int)) (! (= (colat a o k)
  (ite (<= k 0) 0 (ite (or (= (select a (+ o (- k 1))) 13) (= (select a (+ o (- k 1))) 10)) 0 (+ (colat_ a o (- k 1)) 1)))) :pattern ((colat a o k)))))
(assert (forall ((a (Array Int Int)) (o Int) (k Int)) (! (= (colat_ a o k) (colat a o k)) :pattern ((colat a o k)))))
; opaque form used by the callers of err: (line, column) is the position after k bytes
(declare-fun posat ((Array Int Int) Int Int Int Int) Bool)
(assert (forall ((a (Array Int Int)) (o Int) (k Int) (l Int) (c Int)) (! (= (posat a o k l c) (and (= l (lineat a o k)) (= c (colat a o k)))) :pattern ((posat a o k l c) (lineat a o k)))))
>>>

def line(ctx, k) = lineat(old(arr(ctx.Query)), off(ctx.Query), k)
def col(ctx, k) = colat(old(arr(ctx.Query)), off(ctx.Query), k)
def stopat(ctx) = ite(ctx.charNr < len(ctx.Query), ctx.charNr, len(ctx.Query))
# error e is located at byte k
def located(ctx, e, k) = typeis(e, bytecode.ErrorWLocation) && posat(old(arr(ctx.Query)), off(ctx.Query), k, unbox(e, bytecode.ErrorWLocation).Line, unbox(e, bytecode.ErrorWLocation).Column)
def kept(ctx) = forall k :: 0 <= k && k < old(len(ctx.Errors)) ==> ctx.Errors[k] == old(ctx.Errors[k])
# exactly one error, at the byte where the parser stopped, behind the errors that were there before
def reported(ctx) = len(ctx.Errors) == old(len(ctx.Errors)) + 1 && kept(ctx) && located(ctx, ctx.Errors[len(ctx.Errors)-1], stopat(ctx))
def silent(ctx) = ctx.Errors == old(ctx.Errors) && arr(ctx.Errors) == old(arr(ctx.Errors))
def sameq(ctx) = arr(ctx.Query) == old(arr(ctx.Query))

extern errors.New(text) (e)
  ensures e != nil
extern (error).Error(e) (s)
extern (hash.Hash).Reset(h)
extern (io.Writer).Write(h, p) (n, err)
extern (hash.Hash32).Sum32(h) (r)
extern hex.Decode(dst, src) (n, err)
  requires len(dst)*2 >= len(src)
  modifies dst[*]
extern utf16.Decode(s) (r)
  ensures len(s) >= 1 ==> len(r) >= 1
extern utf8.EncodeRune(p, r) (n)
  requires len(p) >= 4
  modifies p[*]
  ensures 1 <= n && n <= 4
trusted bytecode.b2s(a) (s)
  ensures len(s) == len(a)

# an append target either keeps its backing array (grows in place) or moves to a fresh one
def grown(s) = fresh(s) || (base(s) == old(base(s)) && off(s) == old(off(s)))
def wf(ctx) = ctx != nil && ctx.charNr >= 0 && ctx.Hasher != nil && ctx.cache != nil && 0 <= ctx.nesting && ctx.nesting <= 1000 && base(ctx.Query) != base(ctx.Res)
# the recursion measure: a chain of nested calls is never longer than its start value, 4003
def nest(ctx, rank) = (1000 - ctx.nesting) * 4 + rank
def inside(ctx) = ctx.charNr < len(ctx.Query)

fn (*bytecode.ParserCtx).mightIgnoreNextTokens(ctx) (c, eof)
  requires wf(ctx)
  modifies ctx.charNr
  ensures ctx.charNr >= old(ctx.charNr)
  ensures !eof ==> inside(ctx) && c == ctx.Query[ctx.charNr]
  inv ctx.charNr >= old(ctx.charNr)
  loopdec len(ctx.Query) - ctx.charNr

fn (*bytecode.ParserCtx).isIgnoredToken(ctx, c) (r)
  requires wf(ctx) && inside(ctx)
  modifies ctx.charNr
  ensures ctx.charNr >= old(ctx.charNr)
  ensures !r ==> ctx.charNr == old(ctx.charNr)

fn (*bytecode.ParserCtx).isLineTerminator(ctx) (r)
  requires wf(ctx) && inside(ctx)
  modifies ctx.charNr
  ensures ctx.charNr == old(ctx.charNr) || (ctx.charNr == old(ctx.charNr) + 1 && r && inside(ctx))
  ensures r ==> ctx.charNr >= old(ctx.charNr)

fn (*bytecode.ParserCtx).parseComment(ctx)
  requires wf(ctx)
  modifies ctx.charNr
  ensures ctx.charNr >= old(ctx.charNr)
  inv ctx.charNr >= old(ctx.charNr)
  loopdec len(ctx.Query) - ctx.charNr

fn (*bytecode.ParserCtx).matches(ctx, oneOf) (r)
  requires wf(ctx) && len(oneOf) >= 1 && (forall k :: 0 <= k && k < len(oneOf) ==> len(oneOf[k]) >= 1)
  modifies ctx.charNr, oneOf[*]
  ensures -1 <= r && r < len(oneOf)
  ensures r == -1 ==> ctx.charNr == old(ctx.charNr)
  ensures r >= 0 ==> ctx.charNr > old(ctx.charNr) && ctx.charNr <= len(ctx.Query)
  ensures r >= 0 && len(oneOf) == 1 ==> ctx.charNr == old(ctx.charNr) + len(old(oneOf[0]))
  inv ctx.charNr >= old(ctx.charNr)
  loopdec len(ctx.Query) - ctx.charNr
  inv ctx.charNr - old(ctx.charNr) < len(oneOf[0])

fn (*bytecode.ParserCtx).matchesWord(ctx, oneOf) (r)
  requires wf(ctx) && len(oneOf) >= 1 && (forall k :: 0 <= k && k < len(oneOf) ==> len(oneOf[k]) >= 1)
  modifies ctx.charNr, oneOf[*]
  ensures -1 <= r && r < len(oneOf)
  ensures r == -1 ==> ctx.charNr == old(ctx.charNr)
  ensures r >= 0 ==> ctx.charNr > old(ctx.charNr) && ctx.charNr <= len(ctx.Query)

fn (*bytecode.ParserCtx).err(ctx, err) (r)
  requires wf(ctx)
  modifies ctx.Errors, ctx.Errors[*]
  ensures r
  ensures len(ctx.Errors) > 0
  ensures grown(ctx.Errors)
  assertexit @line unbox(ctx.Errors[len(ctx.Errors)-1], bytecode.ErrorWLocation).Line == line(ctx, stopat(ctx))
  assertexit @column unbox(ctx.Errors[len(ctx.Errors)-1], bytecode.ErrorWLocation).Column == col(ctx, stopat(ctx))
  ensures @error-located reported(ctx)
  inv $j == line(ctx, $i)
  inv $j == line(ctx, $i + 1)
  inv $j == col(ctx, $i)
  inv $j == col(ctx, $i + 1)
  inv $j <= $i + 1
  inv $j <= $i + 2
  inv 0 <= $j
  inv $i <= ctx.charNr
  inv $i < ctx.charNr

fn (*bytecode.ParserCtx).parseAndWriteName(ctx) (n, crit)
  requires wf(ctx)
  modifies ctx.charNr, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*]
  ensures wf(ctx) && grown(ctx.Res) && grown(ctx.Errors)
  ensures !crit ==> inside(ctx) && ctx.charNr == old(ctx.charNr) + n && len(ctx.Res) == old(len(ctx.Res)) + n
  ensures len(ctx.Res) >= old(len(ctx.Res))
  ensures ctx.charNr >= old(ctx.charNr)
  inv $n >= 1 && $n < 255
  inv ctx.charNr == old(ctx.charNr) + $n
  inv len(ctx.Res) == old(len(ctx.Res)) + $n
  loopdec len(ctx.Query) - ctx.charNr
  ensures @query-kept sameq(ctx)
  inv sameq(ctx)
  ensures @error-located crit ==> reported(ctx)
  ensures @no-error-added !crit ==> silent(ctx)
  inv silent(ctx)

def prog(ctx) = wf(ctx) && grown(ctx.Res) && grown(ctx.Errors) && ctx.charNr >= old(ctx.charNr) && len(ctx.Res) >= old(len(ctx.Res))

def numstart(c) = c == '-' || c == '+' || c == '.' || ('0' <= c && c <= '9')

fn (*bytecode.ParserCtx).parseNumberInputValue(ctx) (crit)
  requires wf(ctx) && inside(ctx) && numstart(ctx.Query[ctx.charNr])
  modifies ctx.charNr, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*]
  ensures prog(ctx)
  ensures !crit ==> ctx.charNr > old(ctx.charNr)
  inv ctx.charNr >= old(ctx.charNr)
  inv ctx.charNr > old(ctx.charNr)
  inv ctx.charNr == old(ctx.charNr) ==> numstart($i)
  inv ctx.charNr == old(ctx.charNr) ==> '.' == $i || ('0' <= $i && $i <= '9')
  inv inside(ctx)
  inv grown(ctx.Res) && grown(ctx.Errors)
  inv len(ctx.Res) >= old(len(ctx.Res)) + 7
  loopdec len(ctx.Query) - ctx.charNr
  ensures @query-kept sameq(ctx)
  inv sameq(ctx)
  ensures @error-located crit ==> reported(ctx)
  ensures @no-error-added !crit ==> silent(ctx)
  inv silent(ctx)

fn (*bytecode.ParserCtx).parseStringInputValue(ctx) (crit)
  requires wf(ctx) && inside(ctx)
  modifies ctx.charNr, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*]
  ensures prog(ctx)
  ensures !crit ==> ctx.charNr > old(ctx.charNr)
  inv ctx.charNr >= old(ctx.charNr)
  inv ctx.charNr >= old(ctx.charNr) + 3
  inv ctx.charNr >= atloop(ctx.charNr)
  inv grown(ctx.Res) && grown(ctx.Errors)
  inv len(ctx.Res) >= old(len(ctx.Res)) + 7
  inv ctx.Res[old(len(ctx.Res)) + 6] == 0
  loopdec len(ctx.Query) - ctx.charNr
  loopdec len(ctx.Res)
  ensures @query-kept sameq(ctx)
  inv sameq(ctx)
  ensures @error-located crit ==> reported(ctx)
  ensures @no-error-added !crit ==> silent(ctx)
  inv silent(ctx)

fn (*bytecode.ParserCtx).parseGraphqlTypeName(ctx, c) (crit)
  requires wf(ctx) && inside(ctx) && c == ctx.Query[ctx.charNr]
  decreases nest(ctx, 0)
  modifies ctx.charNr, ctx.nesting, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*]
  ensures prog(ctx)
  ensures !crit ==> ctx.nesting == old(ctx.nesting)
  ensures @query-kept sameq(ctx)
  inv sameq(ctx)
  ensures @error-located crit ==> reported(ctx)
  ensures @no-error-added !crit ==> silent(ctx)
  inv silent(ctx)

fn (*bytecode.ParserCtx).parseInputValue(ctx) (crit)
  requires wf(ctx)
  decreases nest(ctx, 0)
  modifies ctx.charNr, ctx.nesting, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*]
  ensures prog(ctx)
  ensures !crit ==> ctx.nesting == old(ctx.nesting)
  ensures !crit ==> ctx.charNr > old(ctx.charNr)
  inv ctx.charNr >= old(ctx.charNr) + 1
  inv grown(ctx.Res) && grown(ctx.Errors)
  inv len(ctx.Res) >= old(len(ctx.Res)) + 7
  loopdec len(ctx.Query) - ctx.charNr
  inv ctx.nesting == old(ctx.nesting)
  ensures @query-kept sameq(ctx)
  inv sameq(ctx)
  ensures @error-located crit ==> reported(ctx)
  ensures @no-error-added !crit ==> silent(ctx)
  inv silent(ctx)

fn (*bytecode.ParserCtx).parseAssignmentSet(ctx, closure) (crit)
  requires wf(ctx)
  decreases nest(ctx, 1)
  modifies ctx.charNr, ctx.nesting, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*]
  ensures prog(ctx)
  ensures !crit ==> ctx.nesting == old(ctx.nesting)
  ensures !crit ==> ctx.charNr > old(ctx.charNr)
  inv ctx.charNr >= old(ctx.charNr)
  inv grown(ctx.Res) && grown(ctx.Errors)
  inv len(ctx.Res) >= old(len(ctx.Res)) + 7
  loopdec len(ctx.Query) - ctx.charNr
  inv ctx.nesting == old(ctx.nesting)
  ensures @query-kept sameq(ctx)
  inv sameq(ctx)
  ensures @error-located crit ==> reported(ctx)
  ensures @no-error-added !crit ==> silent(ctx)
  inv silent(ctx)

fn (*bytecode.ParserCtx).parseDirectives(ctx) (n, crit)
  requires wf(ctx)
  modifies ctx.charNr, ctx.nesting, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*]
  ensures prog(ctx)
  ensures !crit ==> inside(ctx)
  inv ctx.charNr >= old(ctx.charNr)
  inv grown(ctx.Res) && grown(ctx.Errors)
  inv len(ctx.Res) >= old(len(ctx.Res))
  loopdec len(ctx.Query) - ctx.charNr
  ensures !crit ==> ctx.nesting == old(ctx.nesting)
  inv ctx.nesting == old(ctx.nesting)
  ensures @query-kept sameq(ctx)
  inv sameq(ctx)
  ensures @error-located crit ==> reported(ctx)
  ensures @no-error-added !crit ==> silent(ctx)
  inv silent(ctx)

fn (*bytecode.ParserCtx).parseSelectionSet(ctx) (crit)
  requires wf(ctx)
  decreases nest(ctx, 0)
  modifies ctx.charNr, ctx.nesting, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*]
  ensures prog(ctx)
  ensures !crit ==> ctx.nesting == old(ctx.nesting)
  inv ctx.charNr >= old(ctx.charNr)
  inv grown(ctx.Res) && grown(ctx.Errors)
  inv len(ctx.Res) >= old(len(ctx.Res))
  loopdec len(ctx.Query) - ctx.charNr
  inv ctx.nesting == old(ctx.nesting)
  ensures @query-kept sameq(ctx)
  inv sameq(ctx)
  ensures @error-located crit ==> reported(ctx)
  ensures @no-error-added !crit ==> silent(ctx)
  inv silent(ctx)

fn (*bytecode.ParserCtx).parseOperatorArgument(ctx) (crit)
  requires wf(ctx)
  modifies ctx.charNr, ctx.nesting, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*]
  ensures prog(ctx)
  ensures !crit ==> ctx.nesting == old(ctx.nesting)
  ensures @query-kept sameq(ctx)
  inv sameq(ctx)
  ensures @error-located crit ==> reported(ctx)
  ensures @no-error-added !crit ==> silent(ctx)
  inv silent(ctx)

fn (*bytecode.ParserCtx).parseOperatorArguments(ctx) (crit)
  requires wf(ctx)
  modifies ctx.charNr, ctx.nesting, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*]
  ensures prog(ctx)
  inv ctx.charNr >= old(ctx.charNr)
  inv grown(ctx.Res) && grown(ctx.Errors)
  inv len(ctx.Res) >= old(len(ctx.Res))
  loopdec len(ctx.Query) - ctx.charNr
  ensures !crit ==> ctx.nesting == old(ctx.nesting)
  inv ctx.nesting == old(ctx.nesting)
  ensures @query-kept sameq(ctx)
  inv sameq(ctx)
  ensures @error-located crit ==> reported(ctx)
  ensures @no-error-added !crit ==> silent(ctx)
  inv silent(ctx)

fn (*bytecode.ParserCtx).parseOperatorOrFragment(ctx) (stop)
  requires len(ctx.Errors) == 0
  requires wf(ctx) && (ctx.hasTarget ==> ctx.target != nil)
  modifies ctx.charNr, ctx.nesting, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*], ctx.TargetIdx, ctx.FragmentLocations, ctx.FragmentLocations[*]
  ensures prog(ctx)
  ensures grown(ctx.FragmentLocations)
  ensures !stop ==> ctx.charNr > old(ctx.charNr) && old(ctx.charNr) < len(ctx.Query)
  ensures !stop ==> ctx.nesting == old(ctx.nesting)
  ensures @query-kept sameq(ctx)
  ensures @no-error-added len(ctx.Errors) == old(len(ctx.Errors)) ==> silent(ctx)
  ensures @error-located len(ctx.Errors) != old(len(ctx.Errors)) ==> stop && reported(ctx)

fn (*bytecode.ParserCtx).ParseQueryToBytecode(ctx, target)
  requires ctx != nil && ctx.Hasher != nil && ctx.cache != nil && *ctx.cache != nil && base(ctx.Query) != base(ctx.Res)
  modifies everything()
  inv wf(ctx)
  inv (ctx.hasTarget ==> ctx.target != nil)
  loopdec len(ctx.Query) - ctx.charNr
  ensures @at-most-one-error-located len(ctx.Errors) != 0 ==> (len(ctx.Errors) == 1 && located(ctx, ctx.Errors[0], stopat(ctx)))
  inv len(ctx.Errors) == 0
  inv sameq(ctx)

fn bytecode.writeUint32At(res, at, value) (r)
  requires 0 <= at && at + 4 <= len(res)
  modifies res[*]
  ensures r == res && cap(r) == cap(res)

fn (cache.BytecodeCache).GetEntry(c, query, target) (res, frags, idx)
fn (cache.BytecodeCache).SetEntry(c, query, bytecode, target, idx, frags)
  requires c != nil
  modifies c[*]

extern fnv.New32() (h)
  ensures h != nil
fn bytecode.NewParserCtx() (r)
  ensures fresh(r) && r.Hasher != nil && r.cache != nil && *r.cache != nil && base(r.Query) != base(r.Res)
