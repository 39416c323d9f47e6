package common

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"
)

// vh is the replay harness of one property: it runs cases on the real code and prints the first failing one
type vh struct {
	t        *testing.T
	rng      *rand.Rand
	cases    int
	failed   bool
	cur      *os.File
	curTxt   string
	beat     int64
	samples  int
	deadline time.Time
	thorough bool
}

func newVH(t *testing.T, bound string) *vh {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	h := &vh{t: t, rng: rand.New(rand.NewSource(seed*7919 + 17)), thorough: os.Getenv("VERIF_TIER") == "thorough"}
	if p := os.Getenv("VERIF_CUR"); p != "" {
		h.cur, _ = os.Create(p)
	}
	fmt.Println("VERIF-BOUND " + bound)
	h.deadline = time.Now().Add(time.Duration(h.n(25, 180)) * time.Second)
	debug.SetMaxStack(256 << 20)
	go func() {
		last, same := int64(-1), 0
		for {
			time.Sleep(time.Second)
			b := atomic.LoadInt64(&h.beat)
			if b == last && b >= 0 {
				same++
			} else {
				same = 0
			}
			last = b
			if same >= 30 {
				h.print("the call does not return (30 s)", h.curTxt, "", "")
				os.Exit(1)
			}
		}
	}()
	return h
}

// n picks the amount of work per tier
func (h *vh) n(quick, thorough int) int {
	if h.thorough {
		return thorough
	}
	return quick
}

func (h *vh) more() bool { return !h.failed && time.Now().Before(h.deadline) }

func (h *vh) print(what, input, got, want string) {
	b, _ := json.Marshal(map[string]string{"what": what, "input": clip(input), "got": clip(got), "want": clip(want)})
	fmt.Println("VERIF-WITNESS " + string(b))
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

func (h *vh) fail(what, input string, got, want interface{}) {
	if h.failed {
		return
	}
	h.failed = true
	h.print(what, input, fmt.Sprint(got), fmt.Sprint(want))
	h.t.Fail()
}

// run executes one case; a panic inside is a failure
func (h *vh) run(input string, f func()) {
	if h.failed {
		return
	}
	h.cases++
	atomic.AddInt64(&h.beat, 1)
	h.curTxt = input
	if h.cur != nil {
		h.cur.Truncate(0)
		h.cur.WriteAt([]byte(clip(input)), 0)
	}
	defer func() {
		if r := recover(); r != nil {
			h.fail("panic: "+fmt.Sprint(r), input, strings.Join(strings.Split(string(debug.Stack()), "\n")[6:], " | "), "no panic")
		}
	}()
	f()
	if h.samples < 3 && h.cases%97 == 5 {
		h.samples++
		b, _ := json.Marshal(clip(input))
		fmt.Println("VERIF-SAMPLE " + string(b))
	}
}

func (h *vh) eq(what, input string, got, want interface{}) {
	g, w := fmt.Sprintf("%#v", got), fmt.Sprintf("%#v", want)
	if g != w {
		h.fail(what, input, g, w)
	}
}

func (h *vh) done() {
	atomic.StoreInt64(&h.beat, -1)
	fmt.Printf("VERIF-CASES %d\n", h.cases)
}

func (h *vh) pick(xs ...string) string { return xs[h.rng.Intn(len(xs))] }
func (h *vh) chance(p int) bool        { return h.rng.Intn(100) < p }

const nameFirst = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
const nameRest = nameFirst + "0123456789"

func (h *vh) name() string {
	n := h.rng.Intn(6)
	if h.chance(3) {
		n = 30 + h.rng.Intn(230)
	}
	b := []byte{nameFirst[h.rng.Intn(len(nameFirst))]}
	for i := 0; i < n; i++ {
		b = append(b, nameRest[h.rng.Intn(len(nameRest))])
	}
	if h.chance(6) {
		return h.pick("query", "mutation", "fragment", "on", "null", "true", "false", "nullx", "trueA", "falsey", "onA", "queryA", "e", "v", "f")
	}
	return string(b)
}

func (h *vh) ws() string {
	return h.pick("", "", " ", " ", "\n", "\t", "\r\n", " #c\n", ",", "\r", "  ")
}

// space without commas
func (h *vh) sp() string { return h.pick(" ", " ", "\n", "\t", "\r\n", " #c\n", "\r", "  ", "#{x}\r\n") }

func (h *vh) strLit() string {
	if h.chance(20) {
		s := `"""`
		for i := h.rng.Intn(6); i > 0; i-- {
			s += h.pick("a", "b ", "\n", "\r\n", "  ", "\\n", "x y", "\r", "é", "\\\"")
		}
		return s + `"""`
	}
	s := `"`
	for i := h.rng.Intn(8); i > 0; i-- {
		s += h.pick("a", "b", " ", "é", "日", `\n`, `\t`, `\\`, `\"`, `\/`, `\u0041`, `\u00e9`, `\u2028`, "😀", "'", "}", `\b`, `\f`, `\r`, "#", "{", "e", "\\u0000")
	}
	return s + `"`
}

func (h *vh) numLit() string {
	s := h.pick("", "", "-", "+")
	digits := func() string {
		d := ""
		for i := 1 + h.rng.Intn(5); i > 0; i-- {
			d += string("0123456789"[h.rng.Intn(10)])
			if h.chance(5) {
				d += "_"
			}
		}
		return d
	}
	s += digits()
	if h.chance(25) {
		s += "." + digits()
	}
	if h.chance(15) {
		s += h.pick("e", "E") + h.pick("", "+", "-") + digits()
	}
	return s
}

func (h *vh) valueLit(d int) string {
	switch k := h.rng.Intn(10); {
	case k == 0:
		return "$" + h.name()
	case k <= 2:
		return h.numLit()
	case k == 3:
		return h.strLit()
	case k == 4:
		return h.pick("true", "false", "null")
	case k == 5:
		return h.name()
	case k <= 7 && d > 0:
		s := "["
		for i := h.rng.Intn(4); i > 0; i-- {
			s += h.ws() + h.valueLit(d-1) + h.pick(" ", ",", "\n", ", ")
		}
		return s + h.pick("", " ") + "]"
	case d > 0:
		s := "{"
		for i := h.rng.Intn(4); i > 0; i-- {
			s += h.name() + h.pick(":", ": ", " : ") + h.valueLit(d-1) + h.pick(" ", ",", "\n", ", ")
		}
		return s + "}"
	}
	return h.numLit()
}

func (h *vh) dirs() string {
	s := ""
	for h.chance(15) {
		s += " @" + h.name()
		if h.chance(60) {
			s += "(" + h.name() + ":" + h.valueLit(2) + ")"
		}
		s += " "
	}
	return s
}

func (h *vh) selection(d int) string {
	s := "{"
	for i := h.rng.Intn(5); i > 0; i-- {
		s += h.pick("", " ", "\n", "\t", "#x\n")
		switch {
		case h.chance(10):
			s += "..." + h.pick("", " ") + h.name() + h.dirs()
		case h.chance(10) && d > 0:
			s += "... on " + h.name() + h.dirs() + h.selection(d-1)
		default:
			if h.chance(20) {
				s += h.name() + h.pick(":", " : ")
			}
			s += h.name() + h.dirs()
			if h.chance(30) {
				s += "("
				for j := 1 + h.rng.Intn(2); j > 0; j-- {
					s += h.name() + ": " + h.valueLit(3) + h.pick(" ", ", ")
				}
				s += ")"
			}
			if d > 0 && h.chance(40) {
				s += h.pick("", " ") + h.selection(d-1)
			}
		}
		s += h.pick(" ", ",", "\n", " , ")
	}
	return s + "}"
}

func (h *vh) typeLit(d int) string {
	if d > 0 && h.chance(30) {
		return "[" + h.typeLit(d-1) + "]" + h.pick("", "!")
	}
	return h.name() + h.pick("", "!")
}

func (h *vh) document(d int) string {
	s := ""
	for i := 1 + h.rng.Intn(3); i > 0; i-- {
		switch h.rng.Intn(4) {
		case 0:
			s += h.selection(d)
		case 1:
			s += "fragment " + h.name() + " on " + h.name() + " " + h.selection(d)
		default:
			s += h.pick("query", "mutation", "subscription") + " " + h.pick("", h.name())
			if h.chance(40) {
				s += "("
				for j := h.rng.Intn(3); j > 0; j-- {
					s += "$" + h.name() + ": " + h.typeLit(2)
					if h.chance(40) {
						s += " = " + h.valueLit(2)
					}
					s += h.pick(" ", ", ")
				}
				s += ")"
			}
			s += h.dirs() + h.selection(d)
		}
		s += h.pick("", " ", "\n")
	}
	return s
}

// mutate damages a query at a few places
func (h *vh) mutate(q string) string {
	b := []byte(q)
	for i := 1 + h.rng.Intn(3); i > 0 && len(b) > 0; i-- {
		p := h.rng.Intn(len(b))
		switch h.rng.Intn(5) {
		case 0:
			b = append(b[:p:p], b[p+1:]...)
		case 1:
			const odd = "{}()[]:$@!\"\\#.,&=-+0eEnutf\x00\n\r \xff_"
			b[p] = odd[h.rng.Intn(len(odd))]
		case 2:
			b = b[:p]
		case 3:
			b = append(b[:p:p], append([]byte(h.pick("{", "}", "...", "\"", "\"\"\"", "(", ")", "@a", ":", "$", "\\u12", "[", "]", "on", "\r")), b[p:]...)...)
		case 4:
			e := p + h.rng.Intn(len(b)-p)
			b = append(b[:e:e], append(append([]byte{}, b[p:e]...), b[e:]...)...)
		}
	}
	return string(b)
}

func (h *vh) bytes(n int) string {
	b := make([]byte, h.rng.Intn(n))
	for i := range b {
		b[i] = byte(h.rng.Intn(256))
		if h.chance(60) {
			b[i] = "{}()[]:$@!\"\\#.,a1 \n\r\tquery"[h.rng.Intn(26)]
		}
	}
	return string(b)
}

func (h *vh) query() string {
	switch r := h.rng.Intn(10); {
	case r < 5:
		return h.document(3)
	case r < 9:
		return h.mutate(h.document(3))
	}
	return h.bytes(60)
}
