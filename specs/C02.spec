# C02: a compiled program is well nested, its lengths, counts, flags and hashes are right.
property C02
checks pre post
opt externals havoc
include parser.inc
include keep.inc

# fin is any finished program.  Every clause below reads: if fin has the bytes the parser has written so far in the
# range in question, then that range of fin is of the form the predicate names.  The predicates are the grammar of
# compiled programs, given by their introduction rules (the least relations closed under them).
prelude <<<
(declare-fun fin (Int) Int)
(declare-fun nm (Int Int) Bool)          ; a name
(declare-fun ty (Int Int) Bool)          ; a type
(declare-fun val (Int Int) Bool)         ; a value
(declare-fun vals (Int Int) Bool)        ; a sequence of values
(declare-fun membs (Int Int) Bool)       ; the members of an object or the arguments of a field
(declare-fun dirs (Int Int Int) Bool)    ; so many directives
(declare-fun sels (Int Int) Bool)        ; a sequence of fields and spreads
(declare-fun opargs (Int Int) Bool)      ; operation arguments, without their end
(declare-fun oparg (Int Int) Bool)       ; one operation argument
(declare-fun defs (Int Int) Bool)        ; a sequence of operations and fragments
(declare-fun hashOf (Int Int) Int)       ; the FNV hash of so many bytes of fin from there
(define-fun first ((c Int)) Bool (or (and (<= 97 c) (<= c 122)) (and (<= 65 c) (<= c 90)) (= c 95)))
(define-fun word ((c Int)) Bool (or (first c) (and (<= 48 c) (<= c 57))))
(define-fun u32 ((i Int)) Int (+ (fin i) (* 256 (fin (+ i 1))) (* 65536 (fin (+ i 2))) (* 16777216 (fin (+ i 3)))))
(define-fun w32 ((x Int)) Int (mod x 4294967296))
(define-fun two ((i Int) (a Int)) Bool (and (= (fin i) 0) (= (fin (+ i 1)) a)))
(define-fun end ((i Int)) Bool (two i 101))
(assert (forall ((i Int) (j Int)) (! (=> (and (<= i j) (=> (< i j) (first (fin i))) (forall ((k Int)) (=> (and (<= i k) (< k j)) (word (fin k))))) (nm i j)) :pattern ((nm i j)))))
(assert (forall ((i Int) (j Int) (m Int)) (! (=> (and (or (= (fin i) 108) (= (fin i) 76)) (= m (+ i 1)) (ty m j)) (ty i j)) :pattern ((ty i j) (ty m j)))))
(assert (forall ((i Int) (j Int)) (! (=> (and (or (= (fin i) 110) (= (fin i) 78)) (nm (+ i 1) j)) (ty i j)) :pattern ((ty i j)))))
(define-fun valHead ((i Int) (j Int)) Bool (and (two i 118) (= (u32 (+ i 3)) (w32 (- j (+ i 7)))) (<= (+ i 7) j)))
(assert (forall ((i Int) (j Int)) (! (=> (and (valHead i j) (ite (or (= (fin (+ i 2)) 36) (= (fin (+ i 2)) 101)) (and (< (+ i 7) j) (nm (+ i 7) j)) (ite (= (fin (+ i 2)) 98) (and (= j (+ i 8)) (or (= (fin (+ i 7)) 48) (= (fin (+ i 7)) 49))) (ite (= (fin (+ i 2)) 110) (= j (+ i 7)) (or (= (fin (+ i 2)) 105) (= (fin (+ i 2)) 102) (= (fin (+ i 2)) 115)))))) (val i j)) :pattern ((val i j)))))
(assert (forall ((i Int) (j Int)) (! (=> (and (valHead i j) (<= (+ i 9) j) (end (- j 2)) (or (and (= (fin (+ i 2)) 108) (vals (+ i 7) (- j 2))) (and (= (fin (+ i 2)) 111) (membs (+ i 7) (- j 2))))) (val i j)) :pattern ((val i j)))))
(assert (forall ((i Int) (j Int)) (! (=> (= i j) (and (vals i j) )) :pattern ((vals i j)))))
(assert (forall ((i Int) (j Int)) (! (=> (= i j) (and (membs i j) )) :pattern ((membs i j)))))
(assert (forall ((i Int) (j Int)) (! (=> (= i j) (and (sels i j) )) :pattern ((sels i j)))))
(assert (forall ((i Int) (j Int)) (! (=> (= i j) (and (opargs i j) )) :pattern ((opargs i j)))))
(assert (forall ((i Int) (j Int)) (! (=> (= i j) (and (defs i j) )) :pattern ((defs i j)))))
(assert (forall ((i Int) (j Int) (n Int)) (! (=> (and (= i j) (= n 0)) (dirs i j n)) :pattern ((dirs i j n)))))
(assert (forall ((o Int) (i Int) (j Int)) (! (=> (and (vals o i) (val i j)) (vals o j)) :pattern ((vals o i) (val i j)))))
(assert (forall ((o Int) (i Int) (m Int) (j Int)) (! (=> (and (membs o i) (two i 117) (< (+ i 2) m) (nm (+ i 2) m) (val m j)) (membs o j)) :pattern ((membs o i) (val m j)))))
; a directive: flag f and a name, or flag t, a name and an object
(assert (forall ((o Int) (i Int) (n Int) (j Int) (n2 Int)) (! (=> (and (dirs o i n) (= n2 (+ n 1)) (two i 100) (= (fin (+ i 2)) 102) (< (+ i 3) j) (nm (+ i 3) j)) (dirs o j n2)) :pattern ((dirs o i n) (dirs o j n2)))))
(assert (forall ((o Int) (i Int) (n Int) (m Int) (j Int)) (! (=> (and (dirs o i n) (two i 100) (= (fin (+ i 2)) 116) (< (+ i 3) m) (nm (+ i 3) m) (val m j) (= (fin (+ m 2)) 111)) (dirs o j (+ n 1))) :pattern ((dirs o i n) (val m j)))))
; a field: 0 f D LLLL KKKK len alias len name, directives up to a, arguments up to b, selection up to c, end
(define-fun fa ((i Int)) Int (+ i 12 (fin (+ i 11))))
(define-fun fn ((i Int)) Int (+ (fa i) 1 (fin (fa i))))
(define-fun field ((i Int) (a Int) (b Int) (c Int) (j Int)) Bool (and (two i 102) (= (u32 (+ i 3)) (w32 (- j (+ i 11)))) (< 0 (fin (+ i 11))) (nm (+ i 12) (fa i)) (nm (+ (fa i) 1) (fn i))
  (= (u32 (+ i 7)) (ite (= (fin (fa i)) 0) (hashOf (+ i 12) (fin (+ i 11))) (hashOf (+ (fa i) 1) (fin (fa i)))))
  (or (and (= a (fn i)) (= (fin (+ i 2)) 0)) (dirs (fn i) a (fin (+ i 2))))
  (or (= a b) (and (val a b) (= (fin (+ a 2)) 111)))
  (or (= b c) (sels b c)) (end c) (= j (+ c 2))))
(assert (forall ((o Int) (i Int) (j Int)) (! (=> (and (sels o i) (field i (fn i) (fn i) (fn i) j)) (sels o j)) :pattern ((sels o i) (sels o j)))))
(assert (forall ((o Int) (i Int) (j Int) (y Int) (c Int)) (! (=> (and (sels o i) (field i (fn i) (fn i) c j)) (sels o j)) :pattern ((sels o i) (sels o j) (sels y c)))))
(assert (forall ((o Int) (i Int) (j Int) (x Int) (b Int)) (! (=> (and (sels o i) (field i (fn i) b b j)) (sels o j)) :pattern ((sels o i) (sels o j) (val x b)))))
(assert (forall ((o Int) (i Int) (j Int) (x Int) (b Int) (y Int) (c Int)) (! (=> (and (sels o i) (field i (fn i) b c j)) (sels o j)) :pattern ((sels o i) (sels o j) (val x b) (sels y c)))))
(assert (forall ((o Int) (i Int) (j Int) (p Int) (a Int) (n Int)) (! (=> (and (sels o i) (field i a a a j)) (sels o j)) :pattern ((sels o i) (sels o j) (dirs p a n)))))
(assert (forall ((o Int) (i Int) (j Int) (p Int) (a Int) (n Int) (y Int) (c Int)) (! (=> (and (sels o i) (field i a a c j)) (sels o j)) :pattern ((sels o i) (sels o j) (dirs p a n) (sels y c)))))
(assert (forall ((o Int) (i Int) (j Int) (p Int) (a Int) (n Int) (x Int) (b Int)) (! (=> (and (sels o i) (field i a b b j)) (sels o j)) :pattern ((sels o i) (sels o j) (dirs p a n) (val x b)))))
(assert (forall ((o Int) (i Int) (j Int) (p Int) (a Int) (n Int) (x Int) (b Int) (y Int) (c Int)) (! (=> (and (sels o i) (field i a b c j)) (sels o j)) :pattern ((sels o i) (sels o j) (dirs p a n) (val x b) (sels y c)))))
; a spread: 0 s t/f D LLLL name (up to m), directives up to a, and for an inline one its selection up to c and an end
(define-fun spread ((i Int) (m Int) (a Int) (c Int) (j Int)) Bool (and (two i 115) (= (u32 (+ i 4)) (w32 (- j (+ i 8)))) (< (+ i 8) m) (nm (+ i 8) m)
  (or (and (= a m) (= (fin (+ i 3)) 0)) (dirs m a (fin (+ i 3))))
  (or (and (= (fin (+ i 2)) 102) (= j a)) (and (= (fin (+ i 2)) 116) (sels a c) (end c) (= j (+ c 2))))))
(assert (forall ((o Int) (i Int) (j Int) (p Int) (m Int)) (! (=> (and (sels o i) (spread i m m 0 j)) (sels o j)) :pattern ((sels o i) (sels o j) (nm p m)))))
(assert (forall ((o Int) (i Int) (j Int) (m Int) (a Int) (n Int)) (! (=> (and (sels o i) (spread i m a 0 j)) (sels o j)) :pattern ((sels o i) (sels o j) (dirs m a n)))))
(assert (forall ((o Int) (i Int) (j Int) (m Int) (c Int)) (! (=> (and (sels o i) (spread i m m c j)) (sels o j)) :pattern ((sels o i) (sels o j) (sels m c)))))
(assert (forall ((o Int) (i Int) (j Int) (m Int) (a Int) (c Int) (n Int)) (! (=> (and (sels o i) (spread i m a c j)) (sels o j)) :pattern ((sels o i) (sels o j) (dirs m a n) (sels a c)))))
; an operation argument: 0 a LLLL name 0 type 0 f, or t and a value
(define-fun argHead ((i Int) (m Int) (t Int) (j Int)) Bool (and (two i 97) (= (u32 (+ i 2)) (w32 (- j (+ i 1)))) (< (+ i 6) m) (nm (+ i 6) m) (= (fin m) 0) (ty (+ m 1) t) (= (fin t) 0)))
(assert (forall ((i Int) (j Int) (m Int) (t Int)) (! (=> (and (argHead i (- m 1) t j) (= (fin (+ t 1)) 102) (= j (+ t 2))) (oparg i j)) :pattern ((oparg i j) (ty m t)))))
(assert (forall ((i Int) (j Int) (m Int) (t Int) (v Int)) (! (=> (and (argHead i (- m 1) t j) (= (fin (+ t 1)) 116) (= v (+ t 2)) (val v j)) (oparg i j)) :pattern ((oparg i j) (ty m t) (val v j)))))
(assert (forall ((o Int) (i Int) (j Int)) (! (=> (and (opargs o i) (oparg i j)) (opargs o j)) :pattern ((opargs o i) (oparg i j)))))
; an operation: 0 o kind t/f D name (up to m), [0 LLLL arguments], directives, selection, end
(define-fun opTail ((i Int) (a Int) (b Int) (n Int) (c Int) (j Int)) Bool (and (= (fin (+ i 4)) n) (or (and (= a b) (= n 0)) (dirs a b n)) (sels b c) (end c) (= j (+ c 2))))
(define-fun opHead ((i Int) (m Int)) Bool (and (two i 111) (or (= (fin (+ i 2)) 113) (= (fin (+ i 2)) 109) (= (fin (+ i 2)) 115)) (<= (+ i 5) m) (nm (+ i 5) m)))
(define-fun opArgs ((i Int) (m Int) (a Int) (y Int) (z Int)) Bool (and (= (fin (+ i 3)) 116) (= (fin m) 0) (= (u32 (+ m 1)) (w32 (- (w32 a) (w32 (+ m 5))))) (two (+ m 5) 65) (= y (+ m 7)) (= z (- a 2)) (opargs y z) (end z)))
(declare-fun def (Int Int) Bool)
(assert (forall ((i Int) (j Int) (b Int) (c Int)) (! (=> (and (opHead i (+ i 5)) (= (fin (+ i 3)) 102) (= b (+ i 5)) (opTail i b b 0 c j)) (def i j)) :pattern ((def i j) (sels b c)))))
(assert (forall ((i Int) (j Int) (a Int) (n Int) (b Int) (c Int)) (! (=> (and (opHead i a) (= (fin (+ i 3)) 102) (opTail i a b n c j)) (def i j)) :pattern ((def i j) (dirs a b n) (sels b c)))))
(declare-fun ophd (Int Int) Bool)
(assert (forall ((i Int) (m Int) (p Int) (a Int) (y Int) (z Int)) (! (=> (and (opHead i m) (opArgs i m a y z)) (ophd i a)) :pattern ((ophd i a) (nm p m) (opargs y z)))))
(assert (forall ((i Int) (j Int) (a Int) (n Int) (b Int) (c Int)) (! (=> (and (ophd i a) (opTail i a b n c j)) (def i j)) :pattern ((def i j) (dirs a b n) (sels b c)))))
; a fragment: 0 F name 0 type selection end
(assert (forall ((i Int) (j Int) (m Int) (t Int) (c Int)) (! (=> (and (two i 70) (< (+ i 2) (- m 1)) (nm (+ i 2) (- m 1)) (= (fin (- m 1)) 0) (< m t) (nm m t) (sels t c) (end c) (= j (+ c 2))) (def i j)) :pattern ((def i j) (nm m t) (sels t c)))))
(assert (forall ((o Int) (i Int) (j Int)) (! (=> (and (defs o i) (def i j)) (defs o j)) :pattern ((defs o i) (def i j)))))
>>>
ghost wrote Int     # the hash of what was written to the hasher since its reset
ghost cleared Bool

def agree(ctx) = forall k :: {fin(k)} old(len(ctx.Res)) <= k && k < len(ctx.Res) ==> fin(k) == ctx.Res[k]
def payload(ctx) = forall k :: {fin(k)} old(len(ctx.Res)) + 7 <= k && k < len(ctx.Res) ==> fin(k) == ctx.Res[k]
def from(ctx) = old(len(ctx.Res))
def to(ctx) = len(ctx.Res)
also (*bytecode.ParserCtx).parseAndWriteName
  ensures crit ==> len(ctx.Errors) > 0
  ensures @a-name !crit && agree(ctx) ==> nm(from(ctx), to(ctx))
  ensures !crit ==> n <= 254
  inv forall k :: old(len(ctx.Res)) <= k && k < len(ctx.Res) ==> word(ctx.Res[k])
  inv first(ctx.Res[old(len(ctx.Res))])
also (*bytecode.ParserCtx).parseGraphqlTypeName
  ensures crit ==> len(ctx.Errors) > 0
  ensures @a-type !crit && agree(ctx) ==> ty(from(ctx), to(ctx))
also (*bytecode.ParserCtx).parseNumberInputValue
  ensures crit ==> len(ctx.Errors) > 0
  ensures @a-number !crit && agree(ctx) ==> val(from(ctx), to(ctx))
  inv ctx.Res[old(len(ctx.Res))+1] == 'v'
  inv ctx.Res[old(len(ctx.Res))+2] == ValueInt || ctx.Res[old(len(ctx.Res))+2] == ValueFloat
also (*bytecode.ParserCtx).parseStringInputValue
  ensures crit ==> len(ctx.Errors) > 0
  ensures @a-string !crit && agree(ctx) ==> val(from(ctx), to(ctx))
  inv ctx.Res[old(len(ctx.Res))+1] == 'v'
  inv ctx.Res[old(len(ctx.Res))+2] == ValueString
also (*bytecode.ParserCtx).parseInputValue
  ensures crit ==> len(ctx.Errors) > 0
  ensures @a-value !crit && agree(ctx) ==> val(from(ctx), to(ctx))
  inv ctx.Res[old(len(ctx.Res))+1] == 'v'
  inv ctx.Res[old(len(ctx.Res))+2] == ValueList
  inv payload(ctx) ==> vals(from(ctx) + 7, to(ctx))
also (*bytecode.ParserCtx).parseAssignmentSet
  ensures crit ==> len(ctx.Errors) > 0
  ensures @an-object !crit && agree(ctx) ==> val(from(ctx), to(ctx)) && fin(from(ctx) + 2) == ValueObject
  inv ctx.Res[old(len(ctx.Res))+1] == 'v'
  inv ctx.Res[old(len(ctx.Res))+2] == ValueObject
  inv payload(ctx) ==> membs(from(ctx) + 7, to(ctx))
also (*bytecode.ParserCtx).parseDirectives
  ensures crit ==> len(ctx.Errors) > 0
  ensures @so-many-directives !crit && agree(ctx) ==> dirs(from(ctx), to(ctx), n)
  inv agree(ctx) ==> dirs(from(ctx), to(ctx), $n)
also (*bytecode.ParserCtx).parseSelectionSet
  ensures crit ==> len(ctx.Errors) > 0
  ensures @fields-and-spreads !crit && agree(ctx) ==> sels(from(ctx), to(ctx))
  inv agree(ctx) ==> sels(from(ctx), to(ctx))
also (*bytecode.ParserCtx).parseOperatorArgument
  ensures crit ==> len(ctx.Errors) > 0
  ensures @an-operation-argument !crit && agree(ctx) ==> oparg(from(ctx), to(ctx))
also (*bytecode.ParserCtx).parseOperatorArguments
  ensures crit ==> len(ctx.Errors) > 0
  ensures @operation-arguments !crit && agree(ctx) ==> to(ctx) >= from(ctx) + 4 && two(from(ctx), 'A') && opargs(from(ctx) + 2, to(ctx) - 2) && end(to(ctx) - 2)
  inv ctx.Res[old(len(ctx.Res))] == 0 && ctx.Res[old(len(ctx.Res))+1] == 'A' && to(ctx) >= from(ctx) + 2
  inv agree(ctx) ==> opargs(from(ctx) + 2, to(ctx))
also (*bytecode.ParserCtx).parseOperatorOrFragment
  ensures @an-operation-or-fragment !stop && agree(ctx) ==> def(from(ctx), to(ctx))
  ensures !stop ==> len(ctx.Res) >= old(len(ctx.Res)) + 2
  ensures @a-fragment-is-recorded !stop ==> len(ctx.FragmentLocations) == old(len(ctx.FragmentLocations)) || len(ctx.FragmentLocations) == old(len(ctx.FragmentLocations)) + 1 && ctx.FragmentLocations[old(len(ctx.FragmentLocations))] == old(len(ctx.Res)) + 1 && ctx.Res[old(len(ctx.Res)) + 1] == 'F'
  ensures @earlier-fragments-are-kept !stop ==> (forall k :: 0 <= k && k < old(len(ctx.FragmentLocations)) ==> ctx.FragmentLocations[k] == old(ctx.FragmentLocations[k]))
  ensures @the-entry-point-is-an-operation !stop && ctx.TargetIdx != old(ctx.TargetIdx) ==> ctx.TargetIdx == old(len(ctx.Res)) && ctx.Res[old(len(ctx.Res)) + 1] == 'o'
  ensures stop && len(ctx.Errors) == 0 ==> len(ctx.Res) == old(len(ctx.Res)) && kept(ctx) && len(ctx.FragmentLocations) == old(len(ctx.FragmentLocations)) && ctx.TargetIdx == old(ctx.TargetIdx)
  ensures stop && len(ctx.Errors) == 0 ==> (forall k :: 0 <= k && k < old(len(ctx.FragmentLocations)) ==> ctx.FragmentLocations[k] == old(ctx.FragmentLocations[k]))
def fragments(ctx) = forall i :: 0 <= i && i < len(ctx.FragmentLocations) ==> 0 < ctx.FragmentLocations[i] && ctx.FragmentLocations[i] < len(ctx.Res) && ctx.Res[ctx.FragmentLocations[i]] == 'F'
def entryOK(ctx) = ctx.TargetIdx == -1 || 0 <= ctx.TargetIdx && ctx.TargetIdx + 1 < len(ctx.Res) && ctx.Res[ctx.TargetIdx + 1] == 'o'
also (*bytecode.ParserCtx).ParseQueryToBytecode
  assumes off(ctx.FragmentLocations) == 0
  ensures @a-whole-program len(old(ctx.Query)) <= old(ctx.CacheableQueryMinLen) && len(ctx.Errors) == 0 && (forall k :: {fin(k)} 0 <= k && k < len(ctx.Res) ==> fin(k) == ctx.Res[k]) ==> defs(0, len(ctx.Res))
  ensures @every-recorded-location-is-a-fragment len(old(ctx.Query)) <= old(ctx.CacheableQueryMinLen) && len(ctx.Errors) == 0 ==> fragments(ctx)
  ensures @the-entry-point-is-an-operation len(old(ctx.Query)) <= old(ctx.CacheableQueryMinLen) && len(ctx.Errors) == 0 ==> entryOK(ctx)
  inv (forall k :: {fin(k)} 0 <= k && k < len(ctx.Res) ==> fin(k) == ctx.Res[k]) ==> defs(0, len(ctx.Res))
  inv fragments(ctx)
  inv entryOK(ctx)
fn (*bytecode.ParserCtx).writeUint32(ctx, value, at)
  requires 0 <= at && at + 4 <= len(ctx.Res)
  modifies ctx.Res[*]
  ensures forall k :: 0 <= k && k < len(ctx.Res) && (k < at || k >= at + 4) ==> ctx.Res[k] == old(ctx.Res[k])
  ensures @four-bytes-little-endian ctx.Res[at] + 256*ctx.Res[at+1] + 65536*ctx.Res[at+2] + 16777216*ctx.Res[at+3] == value

# the hasher: FNV of what was written since the last reset
also (hash.Hash).Reset
  modifies cleared
  ensures cleared
also (io.Writer).Write
  requires @hashes-one-name-only cleared
  modifies cleared, wrote
  ensures !cleared
  ensures forall o :: {hashOf(o, len(p))} (forall k :: 0 <= k && k < len(p) ==> p[k] == fin(o + k)) ==> wrote == hashOf(o, len(p))
also (hash.Hash32).Sum32
  ensures r == wrote
