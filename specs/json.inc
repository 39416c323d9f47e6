# the syntax of JSON (RFC 8259) as an automaton over the bytes of a document; the stack holds the open containers
prelude <<<
(declare-datatypes ((Stk 0)) (((knil) (kobj (kup Stk)) (karr (kdown Stk)))))
(define-fun below ((k Stk)) Stk (ite ((_ is kobj) k) (kup k) (kdown k)))
; jm: 0 value expected, 1 a value ended, 2 after '{', 3 after '[', 4 key expected, 5 inside a key, 6 ':' expected, 7 inside a string,
; 8-10 n nu nul, 11-13 t tr tru, 14-17 f fa fal fals, 18 inside a number, 20-24 and 30-34 inside an escape of a key and of a string, 99 rejected
(declare-datatypes ((JSt 0)) (((jst (jm Int) (jk Stk)))))
(define-fun hexd ((b Int)) Bool (or (and (<= 48 b) (<= b 57)) (and (<= 97 b) (<= b 102)) (and (<= 65 b) (<= b 70))))
(define-fun escd ((b Int)) Bool (or (= b 34) (= b 92) (= b 47) (= b 98) (= b 102) (= b 110) (= b 114) (= b 116)))
(define-fun vstart ((k Stk) (b Int)) JSt
  (ite (= b 34) (jst 7 k) (ite (= b 123) (jst 2 (kobj k)) (ite (= b 91) (jst 3 (karr k)) (ite (= b 110) (jst 8 k) (ite (= b 116) (jst 11 k) (ite (= b 102) (jst 14 k)
  (ite (or (= b 45) (and (<= 48 b) (<= b 57))) (jst 18 k) (jst 99 k)))))))))
(define-fun vend ((k Stk) (b Int)) JSt
  (ite (and (= b 44) ((_ is kobj) k)) (jst 4 k) (ite (and (= b 44) ((_ is karr) k)) (jst 0 k)
  (ite (and (= b 125) ((_ is kobj) k)) (jst 1 (kup k)) (ite (and (= b 93) ((_ is karr) k)) (jst 1 (kdown k)) (jst 99 k))))))
(declare-fun jstep (JSt Int) JSt)
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 0 k) b) (vstart k b)) :pattern ((jstep (jst 0 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 1 k) b) (vend k b)) :pattern ((jstep (jst 1 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 2 k) b) (ite (= b 34) (jst 5 k) (ite (= b 125) (jst 1 (kup k)) (jst 99 k)))) :pattern ((jstep (jst 2 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 3 k) b) (ite (= b 93) (jst 1 (kdown k)) (vstart k b))) :pattern ((jstep (jst 3 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 4 k) b) (ite (= b 34) (jst 5 k) (jst 99 k))) :pattern ((jstep (jst 4 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 5 k) b) (ite (= b 34) (jst 6 k) (ite (= b 92) (jst 20 k) (ite (< b 32) (jst 99 k) (jst 5 k))))) :pattern ((jstep (jst 5 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 6 k) b) (ite (= b 58) (jst 0 k) (jst 99 k))) :pattern ((jstep (jst 6 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 7 k) b) (ite (= b 34) (jst 1 k) (ite (= b 92) (jst 30 k) (ite (< b 32) (jst 99 k) (jst 7 k))))) :pattern ((jstep (jst 7 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 8 k) b) (ite (= b 117) (jst 9 k) (jst 99 k))) :pattern ((jstep (jst 8 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 9 k) b) (ite (= b 108) (jst 10 k) (jst 99 k))) :pattern ((jstep (jst 9 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 10 k) b) (ite (= b 108) (jst 1 k) (jst 99 k))) :pattern ((jstep (jst 10 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 11 k) b) (ite (= b 114) (jst 12 k) (jst 99 k))) :pattern ((jstep (jst 11 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 12 k) b) (ite (= b 117) (jst 13 k) (jst 99 k))) :pattern ((jstep (jst 12 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 13 k) b) (ite (= b 101) (jst 1 k) (jst 99 k))) :pattern ((jstep (jst 13 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 14 k) b) (ite (= b 97) (jst 15 k) (jst 99 k))) :pattern ((jstep (jst 14 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 15 k) b) (ite (= b 108) (jst 16 k) (jst 99 k))) :pattern ((jstep (jst 15 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 16 k) b) (ite (= b 115) (jst 17 k) (jst 99 k))) :pattern ((jstep (jst 16 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 17 k) b) (ite (= b 101) (jst 1 k) (jst 99 k))) :pattern ((jstep (jst 17 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 18 k) b) (ite (or (and (<= 48 b) (<= b 57)) (= b 43) (= b 45) (= b 46) (= b 69) (= b 101)) (jst 18 k) (vend k b))) :pattern ((jstep (jst 18 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 20 k) b) (ite (= b 117) (jst 21 k) (ite (escd b) (jst 5 k) (jst 99 k)))) :pattern ((jstep (jst 20 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 21 k) b) (ite (hexd b) (jst 22 k) (jst 99 k))) :pattern ((jstep (jst 21 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 22 k) b) (ite (hexd b) (jst 23 k) (jst 99 k))) :pattern ((jstep (jst 22 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 23 k) b) (ite (hexd b) (jst 24 k) (jst 99 k))) :pattern ((jstep (jst 23 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 24 k) b) (ite (hexd b) (jst 5 k) (jst 99 k))) :pattern ((jstep (jst 24 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 30 k) b) (ite (= b 117) (jst 31 k) (ite (escd b) (jst 7 k) (jst 99 k)))) :pattern ((jstep (jst 30 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 31 k) b) (ite (hexd b) (jst 32 k) (jst 99 k))) :pattern ((jstep (jst 31 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 32 k) b) (ite (hexd b) (jst 33 k) (jst 99 k))) :pattern ((jstep (jst 32 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 33 k) b) (ite (hexd b) (jst 34 k) (jst 99 k))) :pattern ((jstep (jst 33 k) b)))))
(assert (forall ((k Stk) (b Int)) (! (= (jstep (jst 34 k) b) (ite (hexd b) (jst 7 k) (jst 99 k))) :pattern ((jstep (jst 34 k) b)))))
(assert (forall ((s JSt) (b Int)) (! (= s (jst (jm s) (jk s))) :pattern ((jstep s b)))))
(define-fun done ((s JSt)) Bool (or (= (jm s) 1) (= (jm s) 18)))
(define-fun canValue ((s JSt)) Bool (or (= (jm s) 0) (and (= (jm s) 3) ((_ is karr) (jk s)))))
(define-fun js0 () JSt (jst 0 knil))
(define-fun plain ((b Int)) Bool (and (>= b 32) (not (= b 34)) (not (= b 92))))
>>>
hom jf JSt uint8 jstep
# text without quotes, backslashes and control characters does not leave a string
lemma plain-text-stays-in-the-string jf <<<
(=> (and (or (= (jm s) 5) (= (jm s) 7)) (<= l h) (forall ((i Int)) (! (=> (and (<= l i) (< i h)) (plain (select a i))) :pattern ((select a i))))) (= (jf s a l h) s))
>>>
