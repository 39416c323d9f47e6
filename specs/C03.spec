# C03: names, numbers and the words true, false and null reach the program unchanged.
property C03
checks pre post
opt externals havoc
include parser.inc
include keep.inc

prelude <<<
(define-fun first ((c Int)) Bool (or (and (<= 97 c) (<= c 122)) (and (<= 65 c) (<= c 90)) (= c 95)))
(define-fun word ((c Int)) Bool (or (first c) (and (<= 48 c) (<= c 57))))
; of a number literal, '_' and '+' are left out and the exponent is written E
(define-fun at ((a (Array Int Int)) (k Int)) Int (select a k))
(define-fun keeps ((c Int)) Bool (not (or (= c 95) (= c 43))))
(define-fun wr ((c Int)) Int (ite (= c 101) 69 c))
; how many bytes of a[o..e) are carried over, and whether one of them makes it a float
(declare-fun cnt ((Array Int Int) Int Int) Int)
(declare-fun point ((Array Int Int) Int Int) Bool)
(assert (forall ((a (Array Int Int)) (o Int) (e Int)) (! (=> (= e o) (= (cnt a o e) 0)) :pattern ((cnt a o e)))))
(assert (forall ((a (Array Int Int)) (o Int) (e Int)) (! (=> (= e o) (not (point a o e))) :pattern ((point a o e)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (m Int)) (! (=> (and (<= o n) (= m (+ n 1))) (= (cnt a o m) (+ (cnt a o n) (ite (keeps (select a n)) 1 0)))) :pattern ((cnt a o n) (cnt a o m)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (m Int)) (! (=> (and (<= o n) (<= n m)) (<= (cnt a o n) (cnt a o m))) :pattern ((cnt a o n) (cnt a o m)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (m Int)) (! (=> (and (<= o n) (< n m) (keeps (select a n))) (< (cnt a o n) (cnt a o m))) :pattern ((cnt a o n) (cnt a o m)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (m Int)) (! (=> (and (<= o n) (= m (+ n 1))) (= (point a o m) (or (point a o n) (= (select a n) 46) (= (select a n) 101) (= (select a n) 69)))) :pattern ((point a o n) (point a o m)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (m Int)) (! (=> (and (<= o n) (= m (+ n 2))) (= (cnt a o m) (+ (cnt a o n) (ite (keeps (select a n)) 1 0) (ite (keeps (select a (+ n 1))) 1 0)))) :pattern ((cnt a o n) (cnt a o m)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (m Int)) (! (=> (and (<= o n) (= m (+ n 2))) (= (point a o m) (or (point a o n) (= (select a n) 46) (= (select a n) 101) (= (select a n) 69) (= (select a (+ n 1)) 46) (= (select a (+ n 1)) 101) (= (select a (+ n 1)) 69)))) :pattern ((point a o n) (point a o m)))))
; the first n bytes of s are what the text has from o on
(declare-fun pm ((Array Int Int) Int Str Int) Bool)
(assert (forall ((a (Array Int Int)) (o Int) (s Str) (n Int)) (! (=> (= n 0) (pm a o s n)) :pattern ((pm a o s n)))))
(assert (forall ((a (Array Int Int)) (o Int) (s Str) (n Int) (m Int)) (! (=> (and (pm a o s n) (= m (+ n 1)) (<= 0 n) (= (sat s n) (select a (+ o n)))) (pm a o s m)) :pattern ((pm a o s n) (pm a o s m)))))
(assert (forall ((a (Array Int Int)) (o Int) (s Str) (n Int) (k Int)) (! (=> (and (pm a o s n) (<= 0 k) (< k n)) (= (sat s k) (select a (+ o k)))) :pattern ((pm a o s n) (sat s k)))))
>>>
def src(ctx) = off(ctx.Query) + old(ctx.charNr)
def count(ctx, e) = cnt(arr(ctx.Query), src(ctx), off(ctx.Query) + e)
def float(ctx, e) = point(arr(ctx.Query), src(ctx), off(ctx.Query) + e)
# the bytes of the literal up to e are what was appended behind the header
def carriedTo(ctx, x) = len(ctx.Res) == old(len(ctx.Res)) + 7 + cnt(arr(ctx.Query), src(ctx), x) && (forall k :: {cnt(arr(ctx.Query), src(ctx), k)} src(ctx) <= k && k < x && keeps(at(arr(ctx.Query), k)) ==> ctx.Res[old(len(ctx.Res)) + 7 + cnt(arr(ctx.Query), src(ctx), k)] == wr(at(arr(ctx.Query), k)))
def carried(ctx, e) = carriedTo(ctx, off(ctx.Query) + e)
also (*bytecode.ParserCtx).parseNumberInputValue
  requires cnt(arr(ctx.Query), off(ctx.Query) + ctx.charNr, off(ctx.Query) + ctx.charNr) == 0 && !point(arr(ctx.Query), off(ctx.Query) + ctx.charNr, off(ctx.Query) + ctx.charNr)
  inv carried(ctx, ctx.charNr)
  inv carried(ctx, ctx.charNr + 1)
  inv ctx.Res[old(len(ctx.Res)) + 2] == ValueInt
  inv ctx.Res[old(len(ctx.Res)) + 2] == ValueFloat
  inv !float(ctx, ctx.charNr)
  inv float(ctx, ctx.charNr)
  inv float(ctx, ctx.charNr + 1)
  inv $i == ctx.Query[ctx.charNr]
  ensures @the-number-is-carried-over !crit ==> (forall k :: {cnt(arr(ctx.Query), src(ctx), k)} src(ctx) <= k && k < off(ctx.Query) + ctx.charNr && keeps(at(arr(ctx.Query), k)) && old(len(ctx.Res)) + 7 + cnt(arr(ctx.Query), src(ctx), k) < len(ctx.Res) ==> ctx.Res[old(len(ctx.Res)) + 7 + cnt(arr(ctx.Query), src(ctx), k)] == wr(at(arr(ctx.Query), k)))
  ensures @the-whole-number-and-its-kind !crit ==> (exists e :: {cnt(arr(ctx.Query), src(ctx), e)} src(ctx) < e && e <= off(ctx.Query) + ctx.charNr && len(ctx.Res) == old(len(ctx.Res)) + 7 + cnt(arr(ctx.Query), src(ctx), e) && (point(arr(ctx.Query), src(ctx), e) ==> ctx.Res[old(len(ctx.Res)) + 2] == ValueFloat) && (!point(arr(ctx.Query), src(ctx), e) ==> ctx.Res[old(len(ctx.Res)) + 2] == ValueInt))

also (*bytecode.ParserCtx).parseAndWriteName
  ensures @the-name-is-carried-over !crit ==> (forall k :: old(len(ctx.Res)) <= k && k < len(ctx.Res) ==> word(ctx.Res[k]) && ctx.Res[k] == ctx.Query[old(ctx.charNr) + k - old(len(ctx.Res))])
  ensures @a-name-does-not-start-with-a-digit !crit && n > 0 ==> first(ctx.Res[old(len(ctx.Res))])
  ensures @at-most-254-bytes !crit ==> n <= 254
  ensures @the-whole-name-is-read !crit ==> !ite(n == 0, first(ctx.Query[ctx.charNr]), word(ctx.Query[ctx.charNr]))
  inv forall k :: old(len(ctx.Res)) <= k && k < len(ctx.Res) ==> word(ctx.Res[k]) && ctx.Res[k] == ctx.Query[old(ctx.charNr) + k - old(len(ctx.Res))]
  inv first(ctx.Res[old(len(ctx.Res))])

# a word is recognised when it is there, in full, and not the beginning of a longer one
def is(ctx, at, w) = at + len(w) <= len(ctx.Query) && (forall k :: 0 <= k && k < len(w) ==> w[k] == ctx.Query[at + k])
def pre(ctx, w, n) = pm(arr(ctx.Query), off(ctx.Query) + old(ctx.charNr), w, n)
def read(ctx) = ctx.charNr - old(ctx.charNr)
also (*bytecode.ParserCtx).matches
  ensures r >= 0 ==> ctx.charNr == old(ctx.charNr) + len(old(oneOf[r])) && pre(ctx, old(oneOf[r]), len(old(oneOf[r])))
  ensures @what-matches-is-there r >= 0 ==> is(ctx, old(ctx.charNr), old(oneOf[r]))
  inv read(ctx) >= 0
  inv pre(ctx, oneOf[0], read(ctx)) && oneOf[0] == old(oneOf[0])
  inv forall i :: 0 <= i && i < len(oneOf) ==> (len(oneOf[i]) == 0 || oneOf[i] == old(oneOf[i]) && pre(ctx, oneOf[i], read(ctx)) && read(ctx) < len(oneOf[i]))
  inv forall i :: 0 <= i && i <= rangeindex && i < len(oneOf) ==> (len(oneOf[i]) == 0 || oneOf[i] == old(oneOf[i]) && pre(ctx, oneOf[i], read(ctx) + 1) && read(ctx) + 1 < len(oneOf[i]))
  inv forall i :: rangeindex < i && i < len(oneOf) ==> (len(oneOf[i]) == 0 || oneOf[i] == old(oneOf[i]) && pre(ctx, oneOf[i], read(ctx)) && read(ctx) < len(oneOf[i]))
also (*bytecode.ParserCtx).matchesWord
  ensures @what-matches-is-there r >= 0 ==> ctx.charNr == old(ctx.charNr) + len(old(oneOf[r])) && is(ctx, old(ctx.charNr), old(oneOf[r]))
  ensures @a-whole-word r >= 0 ==> ctx.charNr >= len(ctx.Query) || !word(ctx.Query[ctx.charNr])
def wordEnds(ctx) = ctx.charNr >= len(ctx.Query) || !word(ctx.Query[ctx.charNr])
fn (*bytecode.ParserCtx).instructionNewValueBoolean(ctx, val)
  requires wf(ctx)
  requires @the-word-is-true val ==> ctx.charNr >= 4 && bytesof(ctx.Query, ctx.charNr - 4, "true") && wordEnds(ctx)
  requires @the-word-is-false !val ==> ctx.charNr >= 5 && bytesof(ctx.Query, ctx.charNr - 5, "false") && wordEnds(ctx)
  modifies ctx.Res, ctx.Res[*]
  ensures wf(ctx) && grown(ctx.Res) && len(ctx.Res) == old(len(ctx.Res)) + 8 && kept(ctx) && zeroFirst(ctx)
  ensures @boolean-as-written ctx.Res[old(len(ctx.Res)) + 2] == ValueBoolean && ctx.Res[old(len(ctx.Res)) + 7] == ite(val, '1', '0')
fn (*bytecode.ParserCtx).instructionNewValueNull(ctx)
  requires wf(ctx)
  requires @the-word-is-null ctx.charNr >= 4 && bytesof(ctx.Query, ctx.charNr - 4, "null") && wordEnds(ctx)
  modifies ctx.Res, ctx.Res[*]
  ensures wf(ctx) && grown(ctx.Res) && len(ctx.Res) == old(len(ctx.Res)) + 7 && kept(ctx) && zeroFirst(ctx)
  ensures @null-as-written ctx.Res[old(len(ctx.Res)) + 2] == ValueNull
