H='''
package yarql

import (
	"context"
	"testing"
)

type demoQ struct{}

var demoGot interface{}
var demoCancel func()

func (demoQ) ResolveSet(ctx *Ctx) int { ctx.SetValue("k", 1); return 1 }
func (demoQ) ResolveGet(ctx *Ctx) int { demoGot = ctx.GetValue("k"); return 1 }
func (demoQ) ResolveStop() (int, error) { demoCancel(); return 1, nil }

type demoM struct{}

func TestDemo(t *testing.T) {
	s := NewSchema()
	if err := s.Parse(demoQ{}, demoM{}, nil); err != nil {
		t.Fatal(err)
	}
%s
}
'''
SEEDS=[
dict(id="c15-values-survive",property="C15",pkg=".",edits=[("resolver.go","		values: opts.Values,\n	}\n","		values: ctx.values,\n	}\n	if opts.Values != nil || ctx.values == nil || len(*ctx.values) == 0 {\n		ctx.values = opts.Values\n	}\n")],
 test=H%'''	_ = context.Background
	s.Resolve([]byte("{set}"), ResolveOptions{NoMeta: true})
	s.Resolve([]byte("{get}"), ResolveOptions{NoMeta: true})
	if demoGot != nil {
		t.Fatal("value of another request: ", demoGot)
	}
''',needs="a request without values after a request that set some",breaks="a value set in one request is found in the next"),
dict(id="c15-cancel-with-error-result",property="C15",pkg=".",edits=[("resolver.go","			err := (*ctx.context).Err()\n			if err != nil {","			err := (*ctx.context).Err()\n			if err != nil && method.errorOutNr == nil {")],
 test=H%'''	c, cancel := context.WithCancel(context.Background())
	demoCancel = cancel
	errs := s.Resolve([]byte("{stop}"), ResolveOptions{NoMeta: true, Context: c})
	if len(errs) != 1 || string(s.Result) != `{"stop":null}` {
		t.Fatal(errs, string(s.Result))
	}
''',needs="cancellation during a resolver that also returns an error value",breaks="the result is returned although the context is cancelled"),
]
