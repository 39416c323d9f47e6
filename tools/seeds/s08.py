H='''
package bytecode

import (
	"strings"
	"testing"
)

func compile(ctx *ParserCtx, q string, target *string) string {
	ctx.Query = append(ctx.Query[:0], q...)
	ctx.ParseQueryToBytecode(target)
	if len(ctx.Errors) != 0 {
		return "error " + ctx.Errors[0].Error()
	}
	return string(ctx.Res)
}

func same(t *testing.T, ctx *ParserCtx, q string, target *string) {
	got := compile(ctx, q, target)
	want := compile(NewParserCtx(), q, target)
	if got != want {
		t.Fatalf("%%q: got %%q want %%q", q, got, want)
	}
	if i := ctx.TargetIdx; i >= 0 && ctx.Res[i+1] != 'o' {
		t.Fatal("target index")
	}
}

var pad = strings.Repeat("#pad\\n", 80)

func TestDemo(t *testing.T) {
	ctx := NewParserCtx()
%s
}
'''
SEEDS=[
dict(id="c08-target-length",property="C08",pkg="bytecode",edits=[("bytecode/cache/bytecode_cache.go","*target == *entry.target)","len(*target) == len(*entry.target))")],
 test=H%'''	a, b := "A", "B"
	q := "query A{a} query B{b}" + pad
	compile(ctx, q, &a)
	i := ctx.TargetIdx
	compile(ctx, q, &b)
	if ctx.TargetIdx == i {
		t.Fatal("operation B is answered with operation A")
	}
''',needs="the same cached text asked for with two operation names of equal length",breaks="the entry of one operation name is given for another"),
dict(id="c08-errors-cached",property="C08",pkg="bytecode",edits=[("bytecode/bytecode.go","if cacheableQuery && len(ctx.Errors) == 0 {","if cacheableQuery && (len(ctx.Errors) == 0 || ctx.charNr >= len(ctx.Query)) {")],
 test=H%'''	q := pad + "{a"
	same(t, ctx, q, nil)
	same(t, ctx, q, nil)
''',needs="a long query that ends too early, sent twice",breaks="a query that failed to compile is cached and succeeds the second time"),
]
