package main

import (
	"fmt"
	"regexp"
	"strings"
	"time"
)

// A hom is a fold over the contents of a slice: H(s, a, lo, hi) is the state of
// an automaton that starts in s and consumes a[lo .. hi) (absolute indices).
// The engine emits the defining equations at every append: unchanged prefix, one
// step per appended element of a literal, and for a segment of unknown length the
// fold over the appended source.
//   H(s,a,lo,hi) = s for hi <= lo ;  H(s,a,lo,hi) = step(H(s,a,lo,hi-1), a[hi-1])
// The frame, segment and composition facts follow from these by induction.
// Folds over strings are unfolded from the right, at most four elements deep.

func (vc *VC) homDecls() {
	if len(vc.sp.Homs) > 0 {
		vc.gdecl = append(vc.gdecl, "(declare-fun harr (Int) (Array Int Int))")
	}
	for _, h := range vc.sp.Homs {
		d := func(f string, a ...interface{}) {
			t := fmt.Sprintf(f, a...)
			t = strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(t, "@H", h.Name), "@S", h.Sort), "@T", h.Step)
			vc.gdecl = append(vc.gdecl, t)
		}
		d("(declare-fun @H (@S (Array Int Int) Int Int) @S)")
		d("(assert (forall ((s @S) (a (Array Int Int)) (l Int) (h Int)) (! (=> (<= h l) (= (@H s a l h) s)) :pattern ((@H s a l h)))))")
		d("(assert (forall ((s @S) (a (Array Int Int)) (l Int) (m Int) (h Int)) (! (=> (and (<= l m) (<= m h)) (= (@H (@H s a l m) a m h) (@H s a l h))) :pattern ((@H (@H s a l m) a m h)))))")
		for _, lm := range vc.sp.Lemmas {
			if lm.Hom == h.Name {
				d("(assert (forall ((s @S) (a (Array Int Int)) (l Int) (h Int)) (! %s :pattern ((@H s a l h)))))", lm.Smt)
			}
		}
		prev := h.Name
		for k := 1; k <= 4; k++ {
			nm := fmt.Sprintf("%s_%d", h.Name, k)
			d("(declare-fun %s (@S (Array Int Int) Int Int) @S)", nm)
			d("(assert (forall ((s @S) (x Str) (l Int) (h Int)) (! (= (%s s (strarr x) l h) (@H s (strarr x) l h)) :pattern ((@H s (strarr x) l h)))))", nm)
			d("(assert (forall ((s @S) (x Str) (l Int) (h Int)) (! (ite (<= h l) (= (%s s (strarr x) l h) s) (= (%s s (strarr x) l h) (@T (%s s (strarr x) l (- h 1)) (sat x (- h 1))))) :pattern ((%s s (strarr x) l h)))))", prev, prev, nm, prev)
			prev = nm
		}
	}
}

func (vc *VC) homMine(h Hom, lf leaf) bool {
	if vc.fs != nil { // fnopt hom=NAME: this function's contract speaks of no other fold
		only := false
		for o := range vc.fs.Opts {
			if strings.HasPrefix(o, "hom=") {
				only = true
			}
		}
		if only && !vc.fs.Opts["hom="+h.Name] {
			return false
		}
	}
	return lf.sort == "Int" && lf.t != nil && h.Elem == typeKey(lf.t)
}

func (vc *VC) homAppend(st *State, lf leaf, oldA, na, o, l, n, sa, so string, src *Val) {
	for _, h := range vc.sp.Homs {
		if !vc.homMine(h, lf) {
			continue
		}
		end := vc.define("end", "Int", add(o, l))
		oldA, na := vc.named(oldA, "Ho"), vc.named(na, "Hn")
		vc.chain(st, oldA)
		vc.harrAt = append(vc.harrAt, harrPoint{na, st.guard, len(vc.items)})
		q := func(cond, val string) {
			vc.assume(st.guard, fmt.Sprintf("(forall ((s %s) (l Int) (h Int)) (! (=> %s (= (%s s %s l h) %s)) :pattern ((%s s %s l h))))", h.Sort, cond, h.Name, na, val, h.Name, na))
		}
		q(fmt.Sprintf("(<= h %s)", end), fmt.Sprintf("(%s s %s l h)", h.Name, oldA))
		var els []string
		if lit, ok := vc.litOf(src); ok && len(lit) <= 400 {
			for j := 0; j < len(lit); j++ {
				els = append(els, itoa(int(lit[j])))
			}
		} else if isNum(n) && atoi(n) <= 64 {
			lb := ""
			if so == "0" {
				lb = vc.litBytes[sa]
			}
			for j := 0; j < atoi(n); j++ {
				if j < len(lb) {
					els = append(els, itoa(int(lb[j])))
					continue
				}
				els = append(els, vc.define("by", "Int", vc.sel(sa, add(so, itoa(j)))))
			}
		} else {
			a, from, to := sa, so, add(so, n)
			if src.K == kScalar {
				for {
					p, ok := vc.subOf[src.S]
					if !ok {
						break
					}
					src = scalar(src.T, p[0])
					if from == "0" {
						a, from, to = app("strarr", p[0]), p[1], p[2]
					} else {
						a, from, to = app("strarr", p[0]), add(from, p[1]), add(to, p[1])
					}
				}
			}
			q(fmt.Sprintf("(and (<= l %s) (<= h (+ %s %s)) (>= h (+ %s %s)))", end, end, n, end, n), fmt.Sprintf("(%s (%s s %s l %s) %s %s %s)", h.Name, h.Name, oldA, end, a, from, to))
			continue
		}
		cur := fmt.Sprintf("(%s s %s l %s)", h.Name, oldA, end)
		if len(els) > 0 {
			t := "%s"
			for j, e := range els {
				t = strings.Replace(t, "%s", fmt.Sprintf("(let ((s%d (%s %s %s))) %%s)", j+1, h.Step, cur, e), 1)
				cur = fmt.Sprintf("s%d", j+1)
			}
			q(fmt.Sprintf("(and (<= l %s) (<= h (+ %s %d)) (>= h (+ %s %d)))", end, end, len(els), end, len(els)), strings.Replace(t, "%s", cur, 1))
		}
	}
}

// litOf finds the literal text behind a string constant
func (vc *VC) litOf(v *Val) (string, bool) {
	if v.K != kScalar {
		return "", false
	}
	for lit, nm := range vc.strs {
		if nm == v.S {
			return lit, true
		}
	}
	return "", false
}

func (vc *VC) homStoreElem(st *State, a *Addr, lf leaf, oldA, na, idx string) {
	for _, h := range vc.sp.Homs {
		if !vc.homMine(h, lf) || strings.Contains(oldA, "as const") {
			continue
		}
		oldA, na := vc.named(oldA, "Ho"), vc.named(na, "Hn")
		vc.assume(st.guard, fmt.Sprintf("(forall ((s %s) (l Int) (h Int)) (! (=> (<= h %s) (= (%s s %s l h) (%s s %s l h))) :pattern ((%s s %s l h))))", h.Sort, idx, h.Name, na, h.Name, oldA, h.Name, na))
	}
}

func (vc *VC) homCopy(st *State, lf leaf, oldA, na, from string) {
	vc.homStoreElem(st, nil, lf, oldA, na, from)
}

// named gives an array term a constant of its own, so that it can stand in a trigger
func (vc *VC) named(t, pfx string) string {
	vc.harrs++
	c := app("harr", itoa(vc.harrs))
	vc.emit('a', eq(c, t))
	return c
}

type harrPoint struct {
	arr, guard string
	at         int
}

// chain tries to link the contents an append starts from to the outcome of an earlier append: where the
// solver can show the two equal, the equation helps it along with everything that follows
func (vc *VC) chain(st *State, oldA string) {
	for k, i := 0, len(vc.harrAt)-1; k < 4 && i >= 0; k, i = k+1, i-1 {
		p := vc.harrAt[i]
		vc.items = append(vc.items, Item{K: 'l', Text: imp(and(st.guard, p.guard), eq(oldA, p.arr)), Proved: new(int32)})
	}
}

var lemmaH = regexp.MustCompile(`\bh\b`)

// proveLemma shows a fact about a fold by induction over the length of the part that is read
func (sp *Spec) proveLemma(lm Lemma, timeout time.Duration) (ok bool, by string, ms int64) {
	t0 := time.Now()
	for _, h := range sp.Homs {
		if h.Name != lm.Hom {
			continue
		}
		pre := basePrelude + "(declare-fun harr (Int) (Array Int Int))\n" + strings.Join(sp.Prelude, "\n")
		pre += fmt.Sprintf("(declare-fun %s (%s (Array Int Int) Int Int) %s)(declare-const s %s)(declare-const a (Array Int Int))(declare-const l Int)(declare-const h Int)\n", h.Name, h.Sort, h.Sort, h.Sort)
		base := fmt.Sprintf("(assert (<= h l))(assert (= (%s s a l h) s))(assert (not %s))", h.Name, lm.Smt)
		step := fmt.Sprintf("(assert (> h l))(assert (= (%s s a l h) (%s (%s s a l (- h 1)) (select a (- h 1)))))(assert %s)(assert (not %s))", h.Name, h.Step, h.Name, lemmaH.ReplaceAllString(lm.Smt, "(- h 1)"), lm.Smt)
		for _, q := range []string{base, step} {
			r, b, _ := runAll(pre+q+"(check-sat)\n", timeout)
			by = b
			if r != "unsat" {
				return false, b, time.Since(t0).Milliseconds()
			}
		}
		return true, by, time.Since(t0).Milliseconds()
	}
	return false, "", 0
}
