package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

// ---------- expression AST ----------

type Expr struct {
	Op   string // ident int str char call index field unary binary forall exists let ite old raw
	Name string
	Args []*Expr
	Vars []QVar
	Trig []*Expr
	Src  string
}
type QVar struct{ Name, Sort string }

type lexer struct {
	s    string
	pos  int
	tok  string
	kind string // ident int str char op eof
	file string
}

func (l *lexer) fail(m string) {
	panic(fmt.Sprintf("%s: spec syntax error: %s near %q in %q", l.file, m, l.tok, l.s))
}

var ops = []string{"<==>", "==>", "::", "||", "&&", "==", "!=", "<=", ">=", "<", ">", "+", "-", "*", "/", "%", "!", "(", ")", "[", "]", "{", "}", ",", ".", "?", ":", "="}

func (l *lexer) next() {
	for l.pos < len(l.s) && strings.ContainsRune(" \t\n", rune(l.s[l.pos])) {
		l.pos++
	}
	if l.pos >= len(l.s) {
		l.tok, l.kind = "", "eof"
		return
	}
	c := l.s[l.pos]
	st := l.pos
	isId := func(c byte) bool {
		return c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	switch {
	case c >= '0' && c <= '9':
		for l.pos < len(l.s) && isId(l.s[l.pos]) {
			l.pos++
		}
		l.tok, l.kind = l.s[st:l.pos], "int"
		if strings.HasPrefix(l.tok, "0x") {
			n, _ := strconv.ParseInt(l.tok[2:], 16, 64)
			l.tok = fmt.Sprint(n)
		}
		return
	case isId(c):
		for l.pos < len(l.s) && isId(l.s[l.pos]) {
			l.pos++
		}
		l.tok, l.kind = l.s[st:l.pos], "ident"
		return
	case c == '"':
		l.pos++
		for l.pos < len(l.s) && l.s[l.pos] != '"' {
			if l.s[l.pos] == '\\' {
				l.pos++
			}
			l.pos++
		}
		l.pos++
		u, err := strconv.Unquote(l.s[st:l.pos])
		if err != nil {
			l.fail("bad string")
		}
		l.tok, l.kind = u, "str"
		return
	case c == '\'':
		l.pos++
		for l.pos < len(l.s) && l.s[l.pos] != '\'' {
			if l.s[l.pos] == '\\' {
				l.pos++
			}
			l.pos++
		}
		l.pos++
		u, _, _, err := strconv.UnquoteChar(l.s[st+1:l.pos-1], '\'')
		if err != nil {
			l.fail("bad char")
		}
		l.tok, l.kind = fmt.Sprint(int(u)), "int"
		return
	}
	for _, o := range ops {
		if strings.HasPrefix(l.s[l.pos:], o) {
			l.pos += len(o)
			l.tok, l.kind = o, "op"
			return
		}
	}
	l.tok = string(c)
	l.fail("unexpected character")
}

func parseExpr(s, file string) *Expr {
	l := &lexer{s: s, file: file}
	l.next()
	e := l.expr(0)
	if l.kind != "eof" {
		l.fail("trailing input")
	}
	e.Src = strings.Join(strings.Fields(s), " ")
	return e
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (l *lexer) expr(min int) *Expr {
	x := l.unary()
	for l.kind == "op" {
		p, ok := prec[l.tok]
		if !ok || p < min {
			break
		}
		op := l.tok
		l.next()
		var y *Expr
		if op == "==>" {
			y = l.expr(p) // right assoc
		} else {
			y = l.expr(p + 1)
		}
		x = &Expr{Op: "binary", Name: op, Args: []*Expr{x, y}}
		// chained comparison a <= b < c
		if p == 5 && l.kind == "op" && prec[l.tok] == 5 {
			op2 := l.tok
			l.next()
			z := l.expr(p + 1)
			x = &Expr{Op: "binary", Name: "&&", Args: []*Expr{x, {Op: "binary", Name: op2, Args: []*Expr{y, z}}}}
		}
	}
	return x
}

func (l *lexer) expect(t string) {
	if l.tok != t {
		l.fail("expected " + t)
	}
	l.next()
}

func (l *lexer) unary() *Expr {
	if l.kind == "op" && (l.tok == "!" || l.tok == "-") {
		op := l.tok
		l.next()
		return &Expr{Op: "unary", Name: op, Args: []*Expr{l.unary()}}
	}
	return l.postfix(l.primary())
}

func (l *lexer) primary() *Expr {
	switch l.kind {
	case "int":
		e := &Expr{Op: "int", Name: l.tok}
		l.next()
		return e
	case "str":
		e := &Expr{Op: "str", Name: l.tok}
		l.next()
		return e
	case "ident":
		n := l.tok
		l.next()
		switch n {
		case "forall", "exists":
			e := &Expr{Op: n}
			for {
				v := l.tok
				l.next()
				srt := "int"
				if l.tok == "*" { // pointer to a named type: *pkg.T
					l.next()
					srt = "*" + l.tok
					l.next()
					if l.tok == "." {
						l.next()
						srt += "." + l.tok
						l.next()
					}
				} else if l.kind == "ident" {
					srt = l.tok
					l.next()
				}
				e.Vars = append(e.Vars, QVar{v, srt})
				if l.tok == "," {
					l.next()
					continue
				}
				break
			}
			l.expect("::")
			if l.tok == "{" {
				l.next()
				for {
					e.Trig = append(e.Trig, l.expr(0))
					if l.tok == "," {
						l.next()
						continue
					}
					break
				}
				l.expect("}")
			}
			e.Args = []*Expr{l.expr(0)}
			return e
		case "let":
			v := l.tok
			l.next()
			l.expect("=")
			a := l.expr(0)
			if l.tok != "in" {
				l.fail("expected in")
			}
			l.next()
			b := l.expr(0)
			return &Expr{Op: "let", Name: v, Args: []*Expr{a, b}}
		}
		return &Expr{Op: "ident", Name: n}
	case "op":
		if l.tok == "(" {
			l.next()
			e := l.expr(0)
			l.expect(")")
			return e
		}
		if l.tok == "*" {
			l.next()
			return &Expr{Op: "deref", Args: []*Expr{l.unary()}}
		}
	}
	l.fail("unexpected token")
	return nil
}

func (l *lexer) postfix(x *Expr) *Expr {
	for l.kind == "op" {
		switch l.tok {
		case "(":
			if x.Op != "ident" {
				l.fail("call of non-identifier")
			}
			l.next()
			e := &Expr{Op: "call", Name: x.Name}
			for l.tok != ")" {
				e.Args = append(e.Args, l.expr(0))
				if l.tok == "," {
					l.next()
				} else if l.tok != ")" {
					l.fail("expected , or )")
				}
			}
			l.next()
			x = e
		case "[":
			l.next()
			if l.tok == "*" {
				l.next()
				l.expect("]")
				x = &Expr{Op: "elems", Args: []*Expr{x}}
				continue
			}
			i := l.expr(0)
			l.expect("]")
			x = &Expr{Op: "index", Args: []*Expr{x, i}}
		case ".":
			l.next()
			if l.tok == "*" {
				l.next()
				x = &Expr{Op: "allfields", Args: []*Expr{x}}
				continue
			}
			n := l.tok
			l.next()
			x = &Expr{Op: "field", Name: n, Args: []*Expr{x}}
		default:
			return x
		}
	}
	return x
}

// ---------- spec files ----------

type Clause struct {
	E    *Expr
	Name string // optional label
	File string
}

type FnSpec struct {
	Name     string
	Params   []string
	Results  []string
	Requires []Clause
	Assumes  []Clause // assumed at entry, not checked at calls
	AtCall   []Clause // checked at calls, not assumed at entry
	Ensures  []Clause
	Modifies []*Expr
	HasMod   bool
	Decr     []*Expr
	Inv      []Clause
	LoopDec  []Clause
	Assert   []Clause // extra facts checked at exit (intermediate lemmas)
	Extern   bool
	Pure     bool // extern, results are functions of the arguments
	Trusted  string
	Inline   bool
	File     string
	Opts     map[string]bool
	Used     bool
}

type MacroDef struct {
	Name   string
	Params []string
	Body   *Expr
}

type SmtFun struct {
	Args []string
	Ret  string
}

type Lemma struct {
	Name string
	Hom  string
	Smt  string // SMT formula to prove (with its own preamble)
}

type Spec struct {
	Property string
	Fns      map[string]*FnSpec
	Order    []string
	Macros   map[string]*MacroDef
	Prelude  []string
	Smt      map[string]SmtFun
	Ghost    map[string]string
	Checks   map[string]bool
	Assume   []string
	Bounded  []string
	Notes    []string
	Trusts   []string
	Opts     map[string]string
	Lemmas   []Lemma
	Homs     []Hom
	PureM    map[string]bool
	Havoc    map[string]bool
	Mono     []string
	FieldInv map[string]*MacroDef // assumed of every value read from the field
}

// Hom: a fold over array content declared by the spec: state after n elements
//
//	hom <name> <state sort> <element type> <stepfn>
type Hom struct{ Name, Sort, Step, Elem string }

var headKw = map[string]bool{"fn": true, "extern": true, "pure": true, "havoc": true, "requires": true, "ensures": true, "modifies": true, "decreases": true, "inv": true, "loopdec": true,
	"def": true, "prelude": true, "include": true, "checks": true, "property": true, "assumption": true, "bounded": true, "trusted": true, "inline": true, "opt": true, "check": true, "lemma": true, "hom": true, "ghost": true, "note": true, "smtfun": true, "assertexit": true, "fnopt": true, "assumes": true, "fieldinv": true, "also": true, "atcall": true}

func newSpec() *Spec {
	return &Spec{Fns: map[string]*FnSpec{}, Macros: map[string]*MacroDef{}, Smt: map[string]SmtFun{"runeAt": {[]string{"Str", "Int"}, "Int"}, "runeW": {[]string{"Str", "Int"}, "Int"}, "ssub": {[]string{"Str", "Int", "Int"}, "Str"}, "str_of_rune": {[]string{"Int"}, "Str"}, "str_of": {[]string{"(Array Int Int)", "Int", "Int"}, "Str"}}, Ghost: map[string]string{}, Checks: map[string]bool{}, Opts: map[string]string{}, PureM: map[string]bool{}, Havoc: map[string]bool{}}
}

var reSig = regexp.MustCompile(`^(\S+?)\(([^()]*)\)\s*(?:\(([^()]*)\))?$`)

func parseSig(s string) (name string, params, results []string) {
	// name may contain parentheses: (*pkg.T).m(a, b) (r)
	s = strings.TrimSpace(s)
	start := 0
	if strings.HasPrefix(s, "(") {
		start = strings.Index(s, ")") + 1
	}
	i := strings.Index(s[start:], "(")
	if i < 0 {
		return s, nil, nil
	}
	i += start
	name = s[:i]
	j := strings.Index(s[i:], ")") + i
	split := func(x string) (o []string) {
		for _, p := range strings.Split(x, ",") {
			if p = strings.TrimSpace(p); p != "" {
				o = append(o, p)
			}
		}
		return
	}
	params = split(s[i+1 : j])
	rest := strings.TrimSpace(s[j+1:])
	rest = strings.Trim(rest, "()")
	results = split(rest)
	return
}

func (sp *Spec) load(path string) {
	data, err := os.ReadFile(path)
	if err != nil {
		panic("spec: " + err.Error())
	}
	base := filepath.Base(path)
	// join logical lines
	var logical []string
	inPre := false
	for _, ln := range strings.Split(string(data), "\n") {
		if inPre {
			if strings.TrimSpace(ln) == ">>>" {
				inPre = false
				continue
			}
			logical[len(logical)-1] += "\n" + ln
			continue
		}
		if i := strings.Index(ln, "#"); i >= 0 && !strings.Contains(ln[:i], "\"") && !strings.Contains(ln[:i], "'") {
			ln = ln[:i]
		}
		t := strings.TrimSpace(ln)
		if t == "" {
			continue
		}
		kw := strings.Fields(t)[0]
		if headKw[kw] {
			logical = append(logical, t)
			if strings.HasSuffix(t, "<<<") {
				inPre = true
			}
		} else {
			if len(logical) == 0 {
				panic(base + ": continuation without head: " + t)
			}
			logical[len(logical)-1] += " " + t
		}
	}
	var cur *FnSpec
	for _, ln := range logical {
		kw := strings.Fields(ln)[0]
		rest := strings.TrimSpace(ln[len(kw):])
		clause := func() Clause {
			c := Clause{File: base}
			r := rest
			if strings.HasPrefix(r, "@") {
				f := strings.Fields(r)[0]
				c.Name = f[1:]
				r = strings.TrimSpace(r[len(f):])
			}
			c.E = parseExpr(r, base)
			return c
		}
		switch kw {
		case "property":
			sp.Property = rest
		case "include":
			sp.load(filepath.Join(filepath.Dir(path), rest))
			cur = nil
		case "checks":
			for _, c := range strings.Fields(rest) {
				if strings.HasPrefix(c, "-") {
					delete(sp.Checks, c[1:])
				} else {
					sp.Checks[c] = true
				}
			}
		case "assumption":
			sp.Assume = append(sp.Assume, rest)
		case "note":
			sp.Notes = append(sp.Notes, rest)
		case "bounded":
			sp.Bounded = append(sp.Bounded, rest)
		case "opt":
			f := strings.Fields(rest)
			if len(f) == 1 {
				f = append(f, "1")
			}
			sp.Opts[f[0]] = f[1]
		case "fnopt":
			for _, o := range strings.Fields(rest) {
				cur.Opts[o] = true
			}
		case "prelude":
			body := strings.TrimPrefix(strings.TrimSpace(rest), "<<<")
			sp.Prelude = append(sp.Prelude, body)
			sp.scanSmt(body)
		case "lemma":
			i := strings.Index(rest, "<<<")
			f := strings.Fields(rest[:i])
			sp.Lemmas = append(sp.Lemmas, Lemma{f[0], f[1], rest[i+3:]})
		case "smtfun":
			f := strings.Fields(rest)
			sp.Smt[f[0]] = SmtFun{f[1 : len(f)-1], f[len(f)-1]}
		case "ghost": // ghost NAME SORT: state that only contracts speak of
			f := strings.SplitN(strings.TrimSpace(rest), " ", 2)
			sp.Ghost[f[0]] = strings.TrimSpace(f[1])
		case "hom":
			f := strings.Fields(rest)
			sp.Homs = append(sp.Homs, Hom{f[0], f[1], f[3], f[2]})
			sp.Smt[f[0]] = SmtFun{nil, f[1]}
		case "def":
			i := strings.Index(rest, "=")
			// signature up to first '=' after ')'
			j := strings.Index(rest, ")")
			if j >= 0 && j < i || j < 0 {
			} else {
				i = j + strings.Index(rest[j:], "=")
			}
			n, ps, _ := parseSig(rest[:i])
			sp.Macros[n] = &MacroDef{n, ps, parseExpr(rest[i+1:], base)}
		case "pure", "havoc":
			for _, n := range strings.Fields(rest) {
				if kw == "pure" {
					sp.PureM[n] = true
				} else {
					sp.Havoc[n] = true
				}
			}
		case "fn", "extern", "trusted", "inline":
			n, ps, rs := parseSig(rest)
			cur = &FnSpec{Name: n, Params: ps, Results: rs, Extern: kw == "extern", Inline: kw == "inline", File: base, Opts: map[string]bool{}}
			if kw == "trusted" {
				cur.Trusted = "contract assumed, body not verified"
			}
			if sp.Fns[n] == nil {
				sp.Order = append(sp.Order, n)
			}
			sp.Fns[n] = cur
		case "also": // further clauses for a function that already has a contract
			cur = sp.Fns[strings.TrimSpace(rest)]
			if cur == nil {
				panic("spec: also: no contract for " + rest + " (" + base + ")")
			}
		case "requires":
			cur.Requires = append(cur.Requires, clause())
		case "atcall":
			cur.AtCall = append(cur.AtCall, clause())
		case "assumes":
			c := clause()
			cur.Assumes = append(cur.Assumes, c)
			sp.Assume = append(sp.Assume, "at the entry of "+cur.Name+": "+rest)
		case "fieldinv": // fieldinv pkg.Type.field (v) = expr
			i, j := strings.Index(rest, "("), strings.Index(rest, ")")
			f := strings.TrimSpace(rest[:i])
			body := strings.TrimSpace(rest[j+1:])
			if sp.FieldInv == nil {
				sp.FieldInv = map[string]*MacroDef{}
			}
			sp.FieldInv[f] = &MacroDef{f, []string{strings.TrimSpace(rest[i+1 : j])}, parseExpr(strings.TrimPrefix(body, "="), base)}
			sp.Assume = append(sp.Assume, "every "+rest)
		case "ensures":
			cur.Ensures = append(cur.Ensures, clause())
		case "assertexit":
			cur.Assert = append(cur.Assert, clause())
		case "inv":
			cur.Inv = append(cur.Inv, clause())
		case "loopdec":
			cur.LoopDec = append(cur.LoopDec, clause())
		case "modifies":
			cur.HasMod = true
			if rest == "nothing" {
				break
			}
			for _, p := range splitTop(rest) {
				cur.Modifies = append(cur.Modifies, parseExpr(p, base))
			}
		case "decreases":
			for _, p := range splitTop(rest) {
				cur.Decr = append(cur.Decr, parseExpr(p, base))
			}
		default:
			panic(base + ": unknown directive " + kw)
		}
	}
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

// scanSmt records the signatures of functions declared in prelude text.
func (sp *Spec) scanSmt(s string) {
	forms := sexps(s)
	for _, f := range forms {
		p := sexps(f[1 : len(f)-1])
		if len(p) < 2 {
			continue
		}
		switch p[0] {
		case "declare-fun":
			sp.Smt[p[1]] = SmtFun{sexps(p[2][1 : len(p[2])-1]), p[3]}
		case "declare-const":
			sp.Smt[p[1]] = SmtFun{nil, p[2]}
		case "define-fun", "define-fun-rec":
			var as []string
			for _, a := range sexps(p[2][1 : len(p[2])-1]) {
				q := sexps(a[1 : len(a)-1])
				as = append(as, q[1])
			}
			sp.Smt[p[1]] = SmtFun{as, p[3]}
		case "declare-datatypes":
			names := sexps(p[1][1 : len(p[1])-1])
			bodies := sexps(p[2][1 : len(p[2])-1])
			for i, nm := range names {
				sort := sexps(nm[1 : len(nm)-1])[0]
				for _, c := range sexps(bodies[i][1 : len(bodies[i])-1]) {
					if c[0] != '(' {
						sp.Smt[c] = SmtFun{nil, sort}
						continue
					}
					q := sexps(c[1 : len(c)-1])
					var as []string
					for _, sel := range q[1:] {
						z := sexps(sel[1 : len(sel)-1])
						as = append(as, z[1])
						sp.Smt[z[0]] = SmtFun{[]string{sort}, z[1]}
					}
					sp.Smt[q[0]] = SmtFun{as, sort}
					sp.Smt["is_"+q[0]] = SmtFun{[]string{sort}, "Bool"}
				}
			}
		}
	}
}

// sexps splits a string into top-level s-expressions/atoms.
func sexps(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		if c == ';' {
			for i < len(s) && s[i] != '\n' {
				i++
			}
			continue
		}
		if c == ' ' || c == '\n' || c == '\t' {
			i++
			continue
		}
		st := i
		if c == '(' {
			d := 0
			for i < len(s) {
				if s[i] == ';' {
					for i < len(s) && s[i] != '\n' {
						i++
					}
					continue
				}
				if s[i] == '(' {
					d++
				} else if s[i] == ')' {
					d--
					if d == 0 {
						i++
						break
					}
				}
				i++
			}
		} else {
			for i < len(s) && !strings.ContainsRune(" \n\t()", rune(s[i])) {
				i++
			}
		}
		out = append(out, s[st:i])
	}
	return out
}

func itoa(i int) string { return strconv.Itoa(i) }
func atoi(s string) int { i, _ := strconv.Atoi(s); return i }

// splitClauses expands macros at the top and splits conjunctions into separate clauses
func (sp *Spec) splitClauses(cs []Clause) []Clause {
	var out []Clause
	for _, c := range cs {
		es := sp.conjuncts(c.E, 0)
		if len(es) == 1 {
			out = append(out, c)
			continue
		}
		for _, e := range es {
			n := Clause{E: e, File: c.File}
			l := trunc(e.Src, 110)
			if c.Name != "" {
				n.Name = c.Name + " / " + l
			}
			out = append(out, n)
		}
	}
	return out
}

func (sp *Spec) conjuncts(e *Expr, d int) []*Expr {
	if d > 40 {
		return []*Expr{e}
	}
	switch {
	case e.Op == "binary" && e.Name == "&&":
		return append(sp.conjuncts(e.Args[0], d+1), sp.conjuncts(e.Args[1], d+1)...)
	case e.Op == "binary" && e.Name == "==>":
		rs := sp.conjuncts(e.Args[1], d+1)
		if len(rs) == 1 {
			return []*Expr{e}
		}
		var out []*Expr
		for _, r := range rs {
			c := *e
			c.Args = []*Expr{e.Args[0], r}
			c.Src = show(&c)
			out = append(out, &c)
		}
		return out
	case e.Op == "let":
		rs := sp.conjuncts(e.Args[1], d+1)
		if len(rs) == 1 {
			break
		}
		var out []*Expr
		for _, r := range rs {
			c := *e
			c.Args = []*Expr{e.Args[0], r}
			c.Src = show(&c)
			out = append(out, &c)
		}
		return out
	case e.Op == "call":
		if m, ok := sp.Macros[e.Name]; ok && len(m.Params) == len(e.Args) {
			sub := map[string]*Expr{}
			for i, p := range m.Params {
				sub[p] = e.Args[i]
			}
			rs := sp.conjuncts(substExpr(m.Body, sub), d+1)
			if len(rs) == 1 {
				c := *e
				c.Src = show(e)
				return []*Expr{&c}
			}
			return rs
		}
	}
	c := *e
	c.Src = show(e)
	return []*Expr{&c}
}

func show(e *Expr) string {
	var as []string
	for _, a := range e.Args {
		as = append(as, show(a))
	}
	base := func(s string) string { return strings.SplitN(s, "^", 2)[0] }
	switch e.Op {
	case "ident", "int":
		return base(e.Name)
	case "str":
		return strconv.Quote(e.Name)
	case "binary":
		if len(as) == 2 {
			p := func(i int) string {
				if e.Args[i].Op == "binary" && e.Name != "==>" && e.Name != "&&" || e.Args[i].Op == "forall" {
					return "(" + as[i] + ")"
				}
				return as[i]
			}
			return p(0) + " " + e.Name + " " + p(1)
		}
	case "unary":
		return e.Name + as[0]
	case "index":
		return as[0] + "[" + strings.Join(as[1:], ":") + "]"
	case "field":
		return as[0] + "." + e.Name
	case "forall", "exists":
		var vs []string
		for _, v := range e.Vars {
			vs = append(vs, base(v.Name))
		}
		return e.Op + " " + strings.Join(vs, ",") + " :: " + strings.Join(as, "")
	case "let":
		return "let " + base(e.Name) + " = " + as[0] + " in " + as[1]
	}
	nm := e.Name
	if nm == "" {
		nm = e.Op
	}
	return nm + "(" + strings.Join(as, ", ") + ")"
}
