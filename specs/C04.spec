# C04: output scalars are encoded as valid JSON without loss.
property C04
checks all
opt final 30000

prelude <<<
; --- reader of one JSON string literal, checked against the source text src ---
; jm: 0 before the opening quote, 1 inside, 2 after a backslash, 3-6 inside \uXXXX, 7 behind the closing quote, 9 rejected
; ji: position in src up to which the literal read so far decodes; jc: continuation bytes left of a raw rune; jv: value of the \u digits
(declare-const src Str)
(declare-datatypes ((JS 0)) (((js (jm Int) (ji Int) (jc Int) (jv Int)))))
(define-fun jbad () JS (js 9 0 0 0))
(define-fun hexval ((b Int)) Int (ite (and (<= 48 b) (<= b 57)) (- b 48) (ite (and (<= 97 b) (<= b 102)) (- b 87) (ite (and (<= 65 b) (<= b 70)) (- b 55) (- 1)))))
(define-fun unesc ((b Int)) Int (ite (= b 34) 34 (ite (= b 92) 92 (ite (= b 47) 47 (ite (= b 98) 8 (ite (= b 102) 12 (ite (= b 110) 10 (ite (= b 114) 13 (ite (= b 116) 9 (- 1))))))))))
(declare-fun jstep (JS Int) JS)
(assert (forall ((m Int) (i Int) (c Int) (v Int) (b Int)) (! (= (jstep (js m i c v) b)
  (ite (= m 0) (ite (= b 34) (js 1 0 0 0) jbad)
  (ite (and (= m 1) (= c 0))
    (ite (= b 34) (ite (= i (slen src)) (js 7 0 0 0) jbad)
    (ite (= b 92) (js 2 i 0 0)
    (ite (or (< b 32) (>= i (slen src)) (not (= (sat src i) b))) jbad
    (ite (< b 128) (js 1 (+ i 1) 0 0)
    (ite (and (>= (runeW src i) 2) (not (= (runeAt src i) 8232)) (not (= (runeAt src i) 8233))) (js 1 (+ i 1) (- (runeW src i) 1) 0) jbad)))))
  (ite (= m 1) (ite (and (>= b 128) (< i (slen src)) (= (sat src i) b)) (js 1 (+ i 1) (- c 1) 0) jbad)
  (ite (= m 2) (ite (= b 117) (js 3 i 0 0) (ite (and (< i (slen src)) (>= (unesc b) 0) (= (runeAt src i) (unesc b))) (js 1 (+ i 1) 0 0) jbad))
  (ite (and (<= 3 m) (<= m 5) (>= (hexval b) 0)) (js (+ m 1) i 0 (+ (* 16 v) (hexval b)))
  (ite (and (= m 6) (>= (hexval b) 0) (< i (slen src)) (= (runeAt src i) (+ (* 16 v) (hexval b)))) (js 1 (+ i (runeW src i)) 0 0)
  jbad))))))) :pattern ((jstep (js m i c v) b)))))
; --- UTF-8 decoding of a text (unicode/utf8): what is at byte k ---
(assert (forall ((s Str) (k Int)) (! (=> (and (<= 0 k) (< k (slen s))) (and (<= 0 (sat s k)) (<= (sat s k) 255))) :pattern ((sat s k)))))
(assert (forall ((s Str) (k Int)) (! (=> (and (<= 0 k) (< k (slen s))) (and (or (= (runeW s k) 1) (= (runeW s k) 2) (= (runeW s k) 3) (= (runeW s k) 4)) (<= (+ k (runeW s k)) (slen s))
  (=> (< (sat s k) 128) (and (= (runeW s k) 1) (= (runeAt s k) (sat s k))))
  (=> (>= (sat s k) 128) (>= (runeAt s k) 128))
  (=> (and (>= (sat s k) 128) (= (runeW s k) 1)) (= (runeAt s k) 65533))
  (=> (>= (runeW s k) 2) (and (>= (sat s k) 128) (>= (sat s (+ k 1)) 128)))
  (=> (>= (runeW s k) 3) (>= (sat s (+ k 2)) 128))
  (=> (>= (runeW s k) 4) (>= (sat s (+ k 3)) 128)))) :pattern ((runeW s k)) :pattern ((runeAt s k)))))
(assert (forall ((s Str) (lo Int)) (! (=> (and (<= 0 lo) (< lo (slen s))) (and (= (runeAt (ssub s lo (slen s)) 0) (runeAt s lo)) (= (runeW (ssub s lo (slen s)) 0) (runeW s lo)))) :pattern ((ssub s lo (slen s))))))
; --- reader of one JSON number: grammar of RFC 8259 plus what is read ---
; nm: 0 start, 1 after '-', 2 after a leading 0, 3 integer digits, 4 after '.', 5 fraction digits, 6 after 'e', 7 after its sign, 8 exponent digits, 9 rejected
; nd: everything read of the mantissa; ng, nx: sign and value of the exponent
(declare-datatypes ((NS 0)) (((ns (nm Int) (nd Int) (ng Int) (nx Int)))))
(declare-fun mant (Int Int) Int)
(define-fun digit ((b Int)) Bool (and (<= 48 b) (<= b 57)))
(declare-fun nstep (NS Int) NS)
(assert (forall ((m Int) (d Int) (g Int) (x Int) (b Int)) (! (= (nstep (ns m d g x) b)
  (ite (and (or (= m 0)) (= b 45)) (ns 1 (mant d b) g x)
  (ite (and (or (= m 0) (= m 1)) (= b 48)) (ns 2 (mant d b) g x)
  (ite (and (or (= m 0) (= m 1) (= m 3)) (digit b)) (ns 3 (mant d b) g x)
  (ite (and (or (= m 2) (= m 3)) (= b 46)) (ns 4 (mant d b) g x)
  (ite (and (or (= m 4) (= m 5)) (digit b)) (ns 5 (mant d b) g x)
  (ite (and (or (= m 2) (= m 3) (= m 5)) (or (= b 101) (= b 69))) (ns 6 d 1 0)
  (ite (and (= m 6) (or (= b 45) (= b 43))) (ns 7 d (ite (= b 45) (- 1) 1) 0)
  (ite (and (or (= m 6) (= m 7) (= m 8)) (digit b)) (ns 8 d g (+ (* 10 x) (- b 48)))
  (ns 9 0 0 0))))))))))
  :pattern ((nstep (ns m d g x) b)))))
(assert (forall ((s NS) (b Int)) (! (= s (ns (nm s) (nd s) (ng s) (nx s))) :pattern ((nstep s b)))))
(define-fun whole ((s NS)) Bool (or (= (nm s) 2) (= (nm s) 3) (= (nm s) 5) (= (nm s) 8)))
; the number a complete numeral stands for, as an integer and as a float of 32 or 64 bits
(declare-fun intVal (Int Int) Int)
(declare-fun fltVal (Int Int Int) Flt)
(define-fun intOf ((s NS)) Int (intVal (nd s) (ite (= (nm s) 8) (* (ng s) (nx s)) 0)))
(define-fun fltOf ((s NS) (bits Int)) Flt (fltVal (nd s) (ite (= (nm s) 8) (* (ng s) (nx s)) 0) bits))
(declare-fun target (Int) Int)
(declare-fun chain (Int) Int)
(declare-fun isinf (Flt) Bool)
(declare-fun isnan (Flt) Bool)
>>>

hom jnum NS uint8 nstep

hom jread JS uint8 jstep

extern utf8.DecodeRuneInString(s) (r, size)
  ensures len(s) > 0 ==> r == runeAt(s, 0) && size == runeW(s, 0)

def grown(s) = fresh(s) || (base(s) == old(base(s)) && off(s) == old(off(s)))
def kept(s) = len(s) >= old(len(s)) && (forall k :: 0 <= k && k < old(len(s)) ==> s[k] == old(s[k]))

fn helpers.StringToJSON(s, e)
  
  fnopt standalone hom=jread
  requires e != nil
  modifies *e, (*e)[*]
  ensures @one-literal-that-decodes-to-the-text s == src ==> jread(js(0, 0, 0, 0), *e, old(len(*e)), len(*e)) == js(7, 0, 0, 0)
  ensures @earlier-output-untouched kept(*e)
  ensures grown(*e)
  inv kept(*e)
  inv grown(*e)
  inv s == src ==> jread(jread(js(0, 0, 0, 0), *e, old(len(*e)), len(*e)), s, cur(start), cur(i)) == js(1, cur(i), 0, 0)
  inv 0 <= cur(start) && cur(start) <= cur(i) && cur(i) <= len(s)
  loopdec len(s) - cur(i)

# strconv: the shortest text of a finite float is a JSON number that reads back as that float
extern strconv.FormatFloat(f, fmt, prec, bitSize) (r)
  requires fmt == 'f' || fmt == 'e'
  requires prec == 0 - 1
  requires bitSize == 32 || bitSize == 64
  ensures !isinf(f) && !isnan(f) ==> whole(jnum(ns(0, 0, 0, 0), r, 0, len(r))) && fltOf(jnum(ns(0, 0, 0, 0), r, 0, len(r)), bitSize) == f
extern strconv.AppendInt(dst, i, base) (r)
  requires base == 10
  modifies dst[*]
  ensures len(r) >= len(dst) && (forall k :: 0 <= k && k < len(dst) ==> r[k] == old(dst[k]))
  ensures base(r) == base(dst) && off(r) == off(dst) && cap(r) == cap(dst) || fresh(r)
  ensures whole(jnum(ns(0, 0, 0, 0), r, len(dst), len(r))) && intOf(jnum(ns(0, 0, 0, 0), r, len(dst), len(r))) == i
extern strconv.AppendUint(dst, i, base) (r)
  requires base == 10
  modifies dst[*]
  ensures len(r) >= len(dst) && (forall k :: 0 <= k && k < len(dst) ==> r[k] == old(dst[k]))
  ensures base(r) == base(dst) && off(r) == off(dst) && cap(r) == cap(dst) || fresh(r)
  ensures whole(jnum(ns(0, 0, 0, 0), r, len(dst), len(r))) && intOf(jnum(ns(0, 0, 0, 0), r, len(dst), len(r))) == i
extern math.IsInf(f, sign) (r)
  ensures sign == 0 ==> r == isinf(f)
extern math.IsNaN(f) (r)
  ensures r == isnan(f)
extern math.Abs(f) (r)

fn helpers.FloatToJSON(bits, f, e)
  requires e != nil
  requires bits == 32 || bits == 64
  modifies *e, (*e)[*]
  ensures @number-reads-back-as-the-float !isinf(f) && !isnan(f) ==> whole(jnum(ns(0, 0, 0, 0), *e, old(len(*e)), len(*e))) && fltOf(jnum(ns(0, 0, 0, 0), *e, old(len(*e)), len(*e)), bits) == f
  ensures @non-finite-is-0.0 isinf(f) || isnan(f) ==> len(*e) == old(len(*e)) + 3 && bytesof(*e, old(len(*e)), "0.0")
  ensures @earlier-output-untouched kept(*e)
  ensures grown(*e)

pure (reflect.Value).String (reflect.Value).Bool (reflect.Value).Int (reflect.Value).Uint (reflect.Value).Float (reflect.Value).IsNil (reflect.Value).Kind


# a pointer is written as what it points at: target(v) is v behind all its pointers, or the nil pointer met on the way
extern (reflect.Value).Elem(v) (r)
  fnopt pure
  ensures kindOf(v) == reflect.Ptr && !isNil(v) ==> chain(r) >= 0 && chain(r) < chain(v) && target(v) == ite(kindOf(r) == reflect.Ptr, target(r), r)
extern (reflect.Value).IsNil(v) (r)
  fnopt pure
  ensures r && kindOf(v) == reflect.Ptr ==> target(v) == v
pure (reflect.Value).String (reflect.Value).Bool (reflect.Value).Int (reflect.Value).Uint (reflect.Value).Float (reflect.Value).Kind
def kindOf(v) = pure("(reflect.Value).Kind", v)
def isNil(v) = pure("(reflect.Value).IsNil", v)
def what(v, kind) = ite(kind == reflect.Ptr, target(v), v)
def whatKind(v, kind) = ite(kind == reflect.Ptr, kindOf(target(v)), kind)
def out(ctx) = ctx.schema.Result
def startsAt(ctx) = old(len(ctx.schema.Result))
def word(ctx, n) = len(out(ctx)) == startsAt(ctx) + n
def numread(ctx) = jnum(ns(0,0,0,0), out(ctx), startsAt(ctx), len(out(ctx)))
def numeral(ctx) = whole(numread(ctx))
def isint(k) = k == reflect.Int || k == reflect.Int8 || k == reflect.Int16 || k == reflect.Int32 || k == reflect.Int64
def isuint(k) = k == reflect.Uint || k == reflect.Uint8 || k == reflect.Uint16 || k == reflect.Uint32 || k == reflect.Uint64
def floatVal(v) = pure("(reflect.Value).Float", v)
def isfin(v) = !isinf(floatVal(v)) && !isnan(floatVal(v))
def other(k) = !isint(k) && !isuint(k) && k != reflect.String && k != reflect.Bool && k != reflect.Float32 && k != reflect.Float64

fn (*yarql.Ctx).valueToJSON(ctx, in, kind)
  requires ctx != nil && ctx.schema != nil
  requires kind == reflect.Ptr ==> kindOf(in) == reflect.Ptr
  modifies ctx.schema.Result, ctx.schema.Result[*]
  decreases chain(in)
  ensures @earlier-output-untouched kept(out(ctx))
  ensures grown(out(ctx))
  ensures @string-literal-that-decodes-to-the-string whatKind(in, kind) == reflect.String && pure("(reflect.Value).String", what(in, kind)) == src ==> jread(js(0,0,0,0), out(ctx), startsAt(ctx), len(out(ctx))) == js(7,0,0,0)
  ensures @true whatKind(in, kind) == reflect.Bool && pure("(reflect.Value).Bool", what(in, kind)) ==> word(ctx, 4) && bytesof(out(ctx), startsAt(ctx), "true")
  ensures @false whatKind(in, kind) == reflect.Bool && !pure("(reflect.Value).Bool", what(in, kind)) ==> word(ctx, 5) && bytesof(out(ctx), startsAt(ctx), "false")
  ensures @integer isint(whatKind(in, kind)) ==> numeral(ctx) && intOf(numread(ctx)) == pure("(reflect.Value).Int", what(in, kind))
  ensures @unsigned-integer isuint(whatKind(in, kind)) ==> numeral(ctx) && intOf(numread(ctx)) == pure("(reflect.Value).Uint", what(in, kind))
  ensures @float32 whatKind(in, kind) == reflect.Float32 && isfin(what(in, kind)) ==> numeral(ctx) && fltOf(numread(ctx), 32) == floatVal(what(in, kind))
  ensures @float64 whatKind(in, kind) == reflect.Float64 && isfin(what(in, kind)) ==> numeral(ctx) && fltOf(numread(ctx), 64) == floatVal(what(in, kind))
  ensures @non-finite whatKind(in, kind) == reflect.Float64 && !isfin(what(in, kind)) ==> word(ctx, 3) && bytesof(out(ctx), startsAt(ctx), "0.0")
  ensures @anything-else-is-null other(whatKind(in, kind)) ==> word(ctx, 4) && bytesof(out(ctx), startsAt(ctx), "null")
