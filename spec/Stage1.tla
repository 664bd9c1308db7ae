------------------------------- MODULE Stage1 ------------------------------
(* Stage 1: the character-level machine of ast1::Document::from_str.       *)
(* One rule per branch of the code's character loop; RuleOf says which one *)
(* fires, Step applies it.  The content of a scope or argument is captured *)
(* as text and parsed by a machine of its own when the group is complete,  *)
(* as in the code.                                                         *)
EXTENDS Ast

\* buffers
BText(s) == [t |-> "T", s |-> s]
BScope(v) == [t |-> "S", v |-> v, d |-> 1, s |-> <<>>]
BCmd(n) == [t |-> "C", n |-> n, a |-> <<>>, d |-> 0, tr |-> <<>>]

Lex0 == [out |-> <<>>,    \* finished chunks
         line |-> 1,      \* line of the next character
         bl |-> 1,        \* line on which the buffer started
         esc |-> FALSE,   \* the previous character was an active backslash
         cmt |-> FALSE,   \* in a comment
         b |-> BText(<<>>),
         err |-> <<>>]    \* <<error>> once rejected

RECURSIVE Parse1(_)

\* Parse the captured arguments of a command, with the lines passed so far
ArgStep(acc, a) ==
    IF ~acc.ok THEN acc
    ELSE LET r == Parse1(a.s)
             off == acc.off + NL(a.p)
         IN IF r.ok THEN [acc EXCEPT !.off = off + NL(a.s), !.v = Append(@, Arg(a.p, a.v, r.v))]
                    ELSE Shift(r, off)

\* Result of closing the buffer: Ok(seq of chunks) or Fail relative to the buffer
Closed(st) ==
    LET b == st.b IN
    CASE b.t = "T" -> Ok(IF b.s = <<>> THEN <<>> ELSE <<Text(st.bl, b.s)>>)
      [] b.t = "S" /\ b.d # 0 -> Fail(1, "UnclosedScope", <<b.v>>)
      [] b.t = "S" /\ b.d = 0 ->
           LET r == Parse1(b.s) IN IF r.ok THEN Ok(<<Scope(st.bl, b.v, r.v)>>) ELSE r
      [] b.t = "C" /\ b.d # 0 -> Fail(1, "UnclosedArgument", <<b.a[Len(b.a)].v>>)
      [] b.t = "C" /\ b.d = 0 ->
           LET r == FoldLeft(ArgStep, [ok |-> TRUE, v |-> <<>>, off |-> 0], b.a)
           IN IF r.ok THEN Ok(<<Cmd(st.bl, b.n, r.v)>>) ELSE r

\* Close the buffer and start buffer nb on line nl
Flush(st, nb, nl) ==
    LET r == Closed(st) IN
    IF r.ok THEN [st EXCEPT !.out = @ \o r.v, !.b = nb, !.bl = nl]
            ELSE [st EXCEPT !.err = <<Shift(r, st.bl - 1)>>]

\* As Flush, but whitespace after a command becomes a text chunk of its own
FlushWithTrailing(st, nb, nl, at) ==
    LET tr == st.b.tr
        s1 == Flush(st, nb, nl)
    IN IF tr = <<>> \/ s1.err # <<>> THEN s1
       ELSE [s1 EXCEPT !.out = Append(@, Text(at - NL(tr), tr))]

RuleOf(st, c) ==
    LET b == st.b IN
    CASE st.err # <<>> -> "Rejected"
      [] st.cmt /\ ~IsNL(c) -> "SkipComment"
      [] c = "%" /\ ~st.esc -> "EnterComment"
      [] c = "/" /\ ~st.esc -> "Backslash"
      [] b.t = "T" /\ st.esc -> "CommandFromText"
      [] b.t = "T" /\ IsOpening(c) -> "OpenScope"
      [] b.t = "T" -> "TextChar"
      [] b.t = "S" /\ st.esc -> "ScopeEscaped"
      [] b.t = "S" /\ c = b.v -> "ScopeNest"
      [] b.t = "S" /\ c = CloseOf(b.v) /\ b.d = 1 -> "ScopeClose"
      [] b.t = "S" /\ c = CloseOf(b.v) -> "ScopeUnnest"
      [] b.t = "S" -> "ScopeChar"
      [] b.d = 0 /\ st.esc -> "CommandFromCommand"
      [] b.d = 0 /\ IsOpening(c) -> "OpenArgument"
      [] b.d = 0 /\ IsSpace(c) -> "TrailingSpace"
      [] b.d # 0 /\ st.esc -> "ArgumentEscaped"
      [] b.d = 0 /\ b.tr # <<>> -> "TextAfterSpace"
      [] b.d # 0 /\ c = b.a[Len(b.a)].v -> "ArgumentNest"
      [] b.d # 0 /\ c = CloseOf(b.a[Len(b.a)].v) /\ b.d = 1 -> "ArgumentClose"
      [] b.d # 0 /\ c = CloseOf(b.a[Len(b.a)].v) -> "ArgumentUnnest"
      [] b.d # 0 -> "ArgumentChar"
      [] IsClosing(c) -> "StrayClosing"
      [] b.a # <<>> -> "TextAfterArgument"
      [] OTHER -> "LabelChar"

Rules == {"Rejected", "SkipComment", "EnterComment", "Backslash", "CommandFromText",
          "OpenScope", "TextChar", "ScopeEscaped", "ScopeNest", "ScopeClose",
          "ScopeUnnest", "ScopeChar", "CommandFromCommand", "OpenArgument",
          "TrailingSpace", "ArgumentEscaped", "TextAfterSpace", "ArgumentNest",
          "ArgumentClose", "ArgumentUnnest", "ArgumentChar", "StrayClosing",
          "TextAfterArgument", "LabelChar"}

AddArg(b, s) == [b EXCEPT !.a[Len(b.a)].s = @ \o s]

\* A command named c begins on line at: a letter opens a command buffer,
\* any other character is a complete command
BeginCommand(st, c, at) ==
    IF st.err # <<>> THEN st
    ELSE IF IsLetter(c) THEN [st EXCEPT !.b = BCmd(<<c>>), !.bl = at]
    ELSE [st EXCEPT !.out = Append(@, Cmd(at, <<c>>, <<>>)), !.b = BText(<<>>), !.bl = st.line]

Step(st0, c) ==
    LET rule == RuleOf(st0, c)
        \* a newline ends its line (and any comment) before the rule's effect
        st == IF IsNL(c) THEN [st0 EXCEPT !.line = @ + Weight(c), !.cmt = FALSE] ELSE st0
        at == st0.line
        b == st.b
        done == [st EXCEPT !.esc = FALSE]
    IN
    CASE rule \in {"Rejected", "SkipComment"} -> st0
      [] rule = "EnterComment" -> [st EXCEPT !.cmt = TRUE]
      [] rule = "Backslash" -> [st EXCEPT !.esc = TRUE]
      [] rule = "CommandFromText" -> BeginCommand(Flush(done, BText(<<>>), st.line), c, at)
      [] rule = "OpenScope" -> Flush(done, BScope(c), st.line)
      [] rule = "TextChar" -> [done EXCEPT !.b.s = Append(@, c)]
      [] rule = "ScopeEscaped" -> [done EXCEPT !.b.s = @ \o <<"/", c>>]
      [] rule = "ScopeNest" -> [done EXCEPT !.b.s = Append(@, c), !.b.d = @ + 1]
      [] rule = "ScopeClose" -> Flush([done EXCEPT !.b.d = 0], BText(<<>>), st.line)
      [] rule = "ScopeUnnest" -> [done EXCEPT !.b.s = Append(@, c), !.b.d = @ - 1]
      [] rule = "ScopeChar" -> [done EXCEPT !.b.s = Append(@, c)]
      [] rule = "CommandFromCommand" ->
           BeginCommand(FlushWithTrailing(done, BText(<<>>), st.line, at), c, at)
      [] rule = "OpenArgument" ->
           [done EXCEPT !.b = [b EXCEPT !.a = Append(@, [p |-> b.tr, v |-> c, s |-> <<>>]),
                                        !.d = 1, !.tr = <<>>]]
      [] rule = "TrailingSpace" -> [done EXCEPT !.b.tr = Append(@, c)]
      [] rule = "ArgumentEscaped" -> [done EXCEPT !.b = AddArg(b, <<"/", c>>)]
      [] rule = "TextAfterSpace" ->
           Flush(done, BText(Append(b.tr, c)), st.line - NL(b.tr))
      [] rule = "ArgumentNest" -> [done EXCEPT !.b = [AddArg(b, <<c>>) EXCEPT !.d = @ + 1]]
      [] rule = "ArgumentClose" -> [done EXCEPT !.b.d = 0]
      [] rule = "ArgumentUnnest" -> [done EXCEPT !.b = [AddArg(b, <<c>>) EXCEPT !.d = @ - 1]]
      [] rule = "ArgumentChar" -> [done EXCEPT !.b = AddArg(b, <<c>>)]
      [] rule = "StrayClosing" ->
           [done EXCEPT !.err = <<Fail(st.line, "UnexpectedClosing", <<OpenOf(c)>>)>>]
      [] rule = "TextAfterArgument" -> Flush(done, BText(<<c>>), st.line)
      [] rule = "LabelChar" -> [done EXCEPT !.b.n = Append(@, c)]

Feed(st, s) == FoldLeft(Step, st, s)

\* End of input
Finish(st) ==
    IF st.err # <<>> THEN st.err[1]
    ELSE LET s1 == IF st.b.t = "C" THEN FlushWithTrailing(st, BText(<<>>), st.line, st.line)
                                   ELSE Flush(st, BText(<<>>), st.line)
         IN IF s1.err # <<>> THEN s1.err[1]
            \* a backslash with nothing after it is a command without a name
            ELSE Ok(IF st.esc THEN Append(s1.out, Cmd(st.line, <<>>, <<>>)) ELSE s1.out)

Parse1(s) == Finish(Feed(Lex0, s))

----------------------------------------------------------------------------
(* The source without its comments, defined on its own.                    *)
Strip(s) ==
    LET step(acc, c) ==
            IF acc.cmt THEN IF IsNL(c) THEN [acc EXCEPT !.cmt = FALSE, !.s = Append(@, c)] ELSE acc
            ELSE IF acc.esc THEN [acc EXCEPT !.esc = FALSE, !.s = Append(@, c)]
            ELSE IF c = "%" THEN [acc EXCEPT !.cmt = TRUE]
            ELSE [acc EXCEPT !.esc = (c = "/"), !.s = Append(@, c)]
    IN FoldLeft(step, [s |-> <<>>, esc |-> FALSE, cmt |-> FALSE], s).s
=============================================================================
