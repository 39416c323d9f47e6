# C01: parsing any byte sequence terminates without a panic.
property C01
checks index slice nil nilfunc pre post frame loopdec decreases panic div typeassert

extern errors.New(text) (e)
  ensures e != nil
extern (error).Error(e) (s)
extern (hash.Hash).Reset(h)
extern (io.Writer).Write(h, p) (n, err)
extern (hash.Hash32).Sum32(h) (r)
extern hex.Decode(dst, src) (n, err)
  requires len(dst)*2 >= len(src)
  modifies dst[*]
extern utf16.Decode(s) (r)
  ensures len(s) >= 1 ==> len(r) >= 1
extern utf8.EncodeRune(p, r) (n)
  requires len(p) >= 4
  modifies p[*]
  ensures 1 <= n && n <= 4
trusted bytecode.b2s(a) (s)
  ensures len(s) == len(a)

# an append target either keeps its backing array (grows in place) or moves to a fresh one
def grown(s) = fresh(s) || (base(s) == old(base(s)) && off(s) == old(off(s)))
def wf(ctx) = ctx != nil && ctx.charNr >= 0 && ctx.Hasher != nil && ctx.cache != nil && 0 <= ctx.nesting && ctx.nesting <= 1000 && base(ctx.Query) != base(ctx.Res)
# the recursion measure: a chain of nested calls is never longer than its start value, 4003
def nest(ctx, rank) = (1000 - ctx.nesting) * 4 + rank
def inside(ctx) = ctx.charNr < len(ctx.Query)

fn (*bytecode.ParserCtx).mightIgnoreNextTokens(ctx) (c, eof)
  requires wf(ctx)
  modifies ctx.charNr
  ensures ctx.charNr >= old(ctx.charNr)
  ensures !eof ==> inside(ctx) && c == ctx.Query[ctx.charNr]
  inv ctx.charNr >= old(ctx.charNr)
  loopdec len(ctx.Query) - ctx.charNr

fn (*bytecode.ParserCtx).isIgnoredToken(ctx, c) (r)
  requires wf(ctx) && inside(ctx)
  modifies ctx.charNr
  ensures ctx.charNr >= old(ctx.charNr)
  ensures !r ==> ctx.charNr == old(ctx.charNr)

fn (*bytecode.ParserCtx).isLineTerminator(ctx) (r)
  requires wf(ctx) && inside(ctx)
  modifies ctx.charNr
  ensures ctx.charNr == old(ctx.charNr) || (ctx.charNr == old(ctx.charNr) + 1 && r && inside(ctx))
  ensures r ==> ctx.charNr >= old(ctx.charNr)

fn (*bytecode.ParserCtx).parseComment(ctx)
  requires wf(ctx)
  modifies ctx.charNr
  ensures ctx.charNr >= old(ctx.charNr)
  inv ctx.charNr >= old(ctx.charNr)
  loopdec len(ctx.Query) - ctx.charNr

fn (*bytecode.ParserCtx).matches(ctx, oneOf) (r)
  requires wf(ctx) && len(oneOf) >= 1 && (forall k :: 0 <= k && k < len(oneOf) ==> len(oneOf[k]) >= 1)
  modifies ctx.charNr, oneOf[*]
  ensures -1 <= r && r < len(oneOf)
  ensures r == -1 ==> ctx.charNr == old(ctx.charNr)
  ensures r >= 0 ==> ctx.charNr > old(ctx.charNr) && ctx.charNr <= len(ctx.Query)
  ensures r >= 0 && len(oneOf) == 1 ==> ctx.charNr == old(ctx.charNr) + len(old(oneOf[0]))
  inv ctx.charNr >= old(ctx.charNr)
  loopdec len(ctx.Query) - ctx.charNr
  inv ctx.charNr - old(ctx.charNr) < len(oneOf[0])

fn (*bytecode.ParserCtx).matchesWord(ctx, oneOf) (r)
  requires wf(ctx) && len(oneOf) >= 1 && (forall k :: 0 <= k && k < len(oneOf) ==> len(oneOf[k]) >= 1)
  modifies ctx.charNr, oneOf[*]
  ensures -1 <= r && r < len(oneOf)
  ensures r == -1 ==> ctx.charNr == old(ctx.charNr)
  ensures r >= 0 ==> ctx.charNr > old(ctx.charNr) && ctx.charNr <= len(ctx.Query)

fn (*bytecode.ParserCtx).err(ctx, err) (r)
  requires wf(ctx)
  modifies ctx.Errors, ctx.Errors[*]
  ensures r
  ensures len(ctx.Errors) > 0
  ensures grown(ctx.Errors)

fn (*bytecode.ParserCtx).parseAndWriteName(ctx) (n, crit)
  requires wf(ctx)
  modifies ctx.charNr, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*]
  ensures wf(ctx) && grown(ctx.Res) && grown(ctx.Errors)
  ensures !crit ==> inside(ctx) && ctx.charNr == old(ctx.charNr) + n && len(ctx.Res) == old(len(ctx.Res)) + n
  ensures len(ctx.Res) >= old(len(ctx.Res))
  ensures ctx.charNr >= old(ctx.charNr)
  inv $n >= 1 && $n < 255
  inv ctx.charNr == old(ctx.charNr) + $n
  inv len(ctx.Res) == old(len(ctx.Res)) + $n
  loopdec len(ctx.Query) - ctx.charNr

def prog(ctx) = wf(ctx) && grown(ctx.Res) && grown(ctx.Errors) && ctx.charNr >= old(ctx.charNr) && len(ctx.Res) >= old(len(ctx.Res))

def numstart(c) = c == '-' || c == '+' || c == '.' || ('0' <= c && c <= '9')

fn (*bytecode.ParserCtx).parseNumberInputValue(ctx) (crit)
  requires wf(ctx) && inside(ctx) && numstart(ctx.Query[ctx.charNr])
  modifies ctx.charNr, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*]
  ensures prog(ctx)
  ensures !crit ==> ctx.charNr > old(ctx.charNr)
  inv ctx.charNr >= old(ctx.charNr)
  inv ctx.charNr > old(ctx.charNr)
  inv ctx.charNr == old(ctx.charNr) ==> numstart($i)
  inv ctx.charNr == old(ctx.charNr) ==> '.' == $i || ('0' <= $i && $i <= '9')
  inv inside(ctx)
  inv grown(ctx.Res) && grown(ctx.Errors)
  inv len(ctx.Res) >= old(len(ctx.Res)) + 7
  loopdec len(ctx.Query) - ctx.charNr

fn (*bytecode.ParserCtx).parseStringInputValue(ctx) (crit)
  requires wf(ctx) && inside(ctx)
  modifies ctx.charNr, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*]
  ensures prog(ctx)
  ensures !crit ==> ctx.charNr > old(ctx.charNr)
  inv ctx.charNr >= old(ctx.charNr)
  inv ctx.charNr >= old(ctx.charNr) + 3
  inv ctx.charNr >= atloop(ctx.charNr)
  inv grown(ctx.Res) && grown(ctx.Errors)
  inv len(ctx.Res) >= old(len(ctx.Res)) + 7
  inv ctx.Res[old(len(ctx.Res)) + 6] == 0
  loopdec len(ctx.Query) - ctx.charNr
  loopdec len(ctx.Res)

fn (*bytecode.ParserCtx).parseGraphqlTypeName(ctx, c) (crit)
  requires wf(ctx) && inside(ctx) && c == ctx.Query[ctx.charNr]
  decreases nest(ctx, 0)
  modifies ctx.charNr, ctx.nesting, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*]
  ensures prog(ctx)
  ensures !crit ==> ctx.nesting == old(ctx.nesting)

fn (*bytecode.ParserCtx).parseInputValue(ctx) (crit)
  requires wf(ctx)
  decreases nest(ctx, 0)
  modifies ctx.charNr, ctx.nesting, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*]
  ensures prog(ctx)
  ensures !crit ==> ctx.nesting == old(ctx.nesting)
  ensures !crit ==> ctx.charNr > old(ctx.charNr)
  inv ctx.charNr >= old(ctx.charNr) + 1
  inv grown(ctx.Res) && grown(ctx.Errors)
  inv len(ctx.Res) >= old(len(ctx.Res)) + 7
  loopdec len(ctx.Query) - ctx.charNr
  inv ctx.nesting == old(ctx.nesting)

fn (*bytecode.ParserCtx).parseAssignmentSet(ctx, closure) (crit)
  requires wf(ctx)
  decreases nest(ctx, 1)
  modifies ctx.charNr, ctx.nesting, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*]
  ensures prog(ctx)
  ensures !crit ==> ctx.nesting == old(ctx.nesting)
  ensures !crit ==> ctx.charNr > old(ctx.charNr)
  inv ctx.charNr >= old(ctx.charNr)
  inv grown(ctx.Res) && grown(ctx.Errors)
  inv len(ctx.Res) >= old(len(ctx.Res)) + 7
  loopdec len(ctx.Query) - ctx.charNr
  inv ctx.nesting == old(ctx.nesting)

fn (*bytecode.ParserCtx).parseDirectives(ctx) (n, crit)
  requires wf(ctx)
  modifies ctx.charNr, ctx.nesting, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*]
  ensures prog(ctx)
  ensures !crit ==> inside(ctx)
  inv ctx.charNr >= old(ctx.charNr)
  inv grown(ctx.Res) && grown(ctx.Errors)
  inv len(ctx.Res) >= old(len(ctx.Res))
  loopdec len(ctx.Query) - ctx.charNr
  ensures !crit ==> ctx.nesting == old(ctx.nesting)
  inv ctx.nesting == old(ctx.nesting)

fn (*bytecode.ParserCtx).parseSelectionSet(ctx) (crit)
  requires wf(ctx)
  decreases nest(ctx, 0)
  modifies ctx.charNr, ctx.nesting, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*]
  ensures prog(ctx)
  ensures !crit ==> ctx.nesting == old(ctx.nesting)
  inv ctx.charNr >= old(ctx.charNr)
  inv grown(ctx.Res) && grown(ctx.Errors)
  inv len(ctx.Res) >= old(len(ctx.Res))
  loopdec len(ctx.Query) - ctx.charNr
  inv ctx.nesting == old(ctx.nesting)

fn (*bytecode.ParserCtx).parseOperatorArgument(ctx) (crit)
  requires wf(ctx)
  modifies ctx.charNr, ctx.nesting, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*]
  ensures prog(ctx)
  ensures !crit ==> ctx.nesting == old(ctx.nesting)

fn (*bytecode.ParserCtx).parseOperatorArguments(ctx) (crit)
  requires wf(ctx)
  modifies ctx.charNr, ctx.nesting, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*]
  ensures prog(ctx)
  inv ctx.charNr >= old(ctx.charNr)
  inv grown(ctx.Res) && grown(ctx.Errors)
  inv len(ctx.Res) >= old(len(ctx.Res))
  loopdec len(ctx.Query) - ctx.charNr
  ensures !crit ==> ctx.nesting == old(ctx.nesting)
  inv ctx.nesting == old(ctx.nesting)

fn (*bytecode.ParserCtx).parseOperatorOrFragment(ctx) (stop)
  requires wf(ctx) && (ctx.hasTarget ==> ctx.target != nil)
  modifies ctx.charNr, ctx.nesting, ctx.Res, ctx.Res[*], ctx.Errors, ctx.Errors[*], ctx.TargetIdx, ctx.FragmentLocations, ctx.FragmentLocations[*]
  ensures prog(ctx)
  ensures grown(ctx.FragmentLocations)
  ensures !stop ==> ctx.charNr > old(ctx.charNr) && old(ctx.charNr) < len(ctx.Query)
  ensures !stop ==> ctx.nesting == old(ctx.nesting)

fn (*bytecode.ParserCtx).ParseQueryToBytecode(ctx, target)
  requires ctx != nil && ctx.Hasher != nil && ctx.cache != nil && *ctx.cache != nil && base(ctx.Query) != base(ctx.Res)
  modifies everything()
  inv wf(ctx)
  inv (ctx.hasTarget ==> ctx.target != nil)
  loopdec len(ctx.Query) - ctx.charNr

fn bytecode.writeUint32At(res, at, value) (r)
  requires 0 <= at && at + 4 <= len(res)
  modifies res[*]
  ensures r == res && cap(r) == cap(res)

fn (cache.BytecodeCache).GetEntry(c, query, target) (res, frags, idx)
fn (cache.BytecodeCache).SetEntry(c, query, bytecode, target, idx, frags)
  requires c != nil
  modifies everything()

extern fnv.New32() (h)
  ensures h != nil
fn bytecode.NewParserCtx() (r)
  ensures fresh(r) && r.Hasher != nil && r.cache != nil && *r.cache != nil && base(r.Query) != base(r.Res)
