H='''
package yarql

import "testing"

type demoQ struct{}

var demoCalled string

func (demoQ) ResolveF(args struct {
	A int32
	B uint
	C *int64 `gq:"c,ID"`
}) int {
	demoCalled = "called"
	return 1
}

type demoM struct{}

func refused(t *testing.T, q, vars string) {
	s := NewSchema()
	if err := s.Parse(demoQ{}, demoM{}, nil); err != nil {
		t.Fatal(err)
	}
	demoCalled = ""
	errs := s.Resolve([]byte(q), ResolveOptions{NoMeta: true, Variables: vars})
	if len(errs) == 0 || demoCalled != "" {
		t.Fatalf("%%s %%s: accepted, response %%s", q, vars, s.Result)
	}
}

func TestDemo(t *testing.T) {
%s
}
'''
SEEDS=[
dict(id="c06-literal-int32",property="C06",pkg=".",edits=[("resolver.go","if int64(int32(value)) != value {","if value>>32 != 0 && value>>31 != -1 {")],
 test=H%'''	refused(t, "{f(a:2147483648)}", "")
	refused(t, "{f(a:4294967295)}", "")
	refused(t, "{f(a:-2147483649)}", "")
''',needs="a literal between 2^31 and 2^32-1 for an int32 argument",breaks="the literal wraps to a negative number"),
dict(id="c06-variable-negative-uint",property="C06",pkg=".",edits=[("resolver.go","				if intVal < 0 {\n","				if intVal < 0 && goValueKind != reflect.Uint {\n")],
 test=H%'''	refused(t, "query($x:Int!){f(b:$x)}", `{"x":-1}`)
''',needs="a negative JSON variable for a plain uint argument",breaks="the negative number is stored as 2^64-1"),
]
