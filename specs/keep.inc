# what has already been written is never altered (on top of parser.inc)
def noErr(ctx) = len(ctx.Errors) == old(len(ctx.Errors))
def kept(ctx) = forall k :: 0 <= k && k < old(len(ctx.Res)) ==> ctx.Res[k] == old(ctx.Res[k])
# what is appended starts with the NULL of an instruction
def zeroFirst(ctx) = len(ctx.Res) > old(len(ctx.Res)) ==> ctx.Res[old(len(ctx.Res))] == 0
also (*bytecode.ParserCtx).parseAndWriteName
  ensures !crit ==> noErr(ctx)
  inv noErr(ctx)
  ensures @written-code-is-kept !crit ==> kept(ctx)
  ensures @a-name-has-no-null !crit ==> (forall k :: old(len(ctx.Res)) <= k && k < len(ctx.Res) ==> ctx.Res[k] != 0)
  ensures !crit ==> n == 0 || n >= 1
  inv kept(ctx)
  inv forall k :: old(len(ctx.Res)) <= k && k < len(ctx.Res) ==> ctx.Res[k] != 0
also (*bytecode.ParserCtx).parseNumberInputValue
  ensures !crit ==> noErr(ctx)
  inv noErr(ctx)
  ensures @written-code-is-kept !crit ==> kept(ctx)
  inv kept(ctx)
  ensures !crit ==> zeroFirst(ctx)
  inv ctx.Res[old(len(ctx.Res))] == 0
also (*bytecode.ParserCtx).parseStringInputValue
  ensures !crit ==> noErr(ctx)
  inv noErr(ctx)
  ensures @written-code-is-kept !crit ==> kept(ctx)
  inv kept(ctx)
  ensures !crit ==> zeroFirst(ctx)
  inv ctx.Res[old(len(ctx.Res))] == 0
also (*bytecode.ParserCtx).parseGraphqlTypeName
  ensures !crit ==> noErr(ctx)
  ensures @written-code-is-kept !crit ==> kept(ctx)
also (*bytecode.ParserCtx).parseInputValue
  ensures !crit ==> noErr(ctx)
  inv noErr(ctx)
  ensures @written-code-is-kept !crit ==> kept(ctx)
  inv kept(ctx)
  ensures !crit ==> zeroFirst(ctx)
  inv ctx.Res[old(len(ctx.Res))] == 0
also (*bytecode.ParserCtx).parseAssignmentSet
  ensures !crit ==> noErr(ctx)
  inv noErr(ctx)
  ensures @written-code-is-kept !crit ==> kept(ctx)
  inv kept(ctx)
  ensures !crit ==> zeroFirst(ctx)
  inv ctx.Res[old(len(ctx.Res))] == 0
also (*bytecode.ParserCtx).parseDirectives
  ensures !crit ==> noErr(ctx)
  inv noErr(ctx)
  ensures @written-code-is-kept !crit ==> kept(ctx)
  inv kept(ctx)
  ensures @an-instruction-starts-with-null !crit ==> zeroFirst(ctx)
  inv zeroFirst(ctx)
also (*bytecode.ParserCtx).parseSelectionSet
  fnopt standalone
  ensures !crit ==> noErr(ctx)
  inv noErr(ctx)
  ensures @written-code-is-kept !crit ==> kept(ctx)
  inv kept(ctx)
  ensures @an-instruction-starts-with-null !crit ==> zeroFirst(ctx)
  inv zeroFirst(ctx)
also (*bytecode.ParserCtx).parseOperatorArgument
  ensures !crit ==> noErr(ctx)
  ensures @written-code-is-kept !crit ==> kept(ctx)
also (*bytecode.ParserCtx).parseOperatorArguments
  ensures !crit ==> noErr(ctx)
  inv noErr(ctx)
  ensures @written-code-is-kept !crit ==> kept(ctx)
  inv kept(ctx)
also (*bytecode.ParserCtx).parseOperatorOrFragment
  ensures @written-code-is-kept !stop ==> kept(ctx)
  ensures !stop ==> len(ctx.Errors) == 0
also bytecode.writeUint32At
  ensures forall k :: 0 <= k && k < len(res) && (k < at || k >= at + 4) ==> r[k] == old(res[k])
  ensures @four-bytes-little-endian r[at] + 256*r[at+1] + 65536*r[at+2] + 16777216*r[at+3] == value
