------------------------------- MODULE Stage3 ------------------------------
(* Stage 3: maths blocks, paragraph breaks and the sections of a document  *)
(* (ast3::MathsBlock::from_chunks, Paragraph::from_chunks, Document).      *)
EXTENDS Stage2

----------------------------------------------------------------------------
(* Paragraphs: one text chunk is split at every run of whitespace holding  *)
(* two newlines or more, one step per character.                           *)
Para0(x) == [out |-> <<>>, line |-> x.l,
             t |-> <<>>, tl |-> x.l,      \* text since the last break
             b |-> <<>>, bl |-> x.l,      \* whitespace from a newline on
             n |-> 0]                     \* newlines in b

RuleP(st, c) ==
    CASE IsNL(c) /\ st.n >= 2 -> "FurtherNewline"
      [] c = "@" /\ st.n = 0 -> "NewlineRun"
      [] IsNL(c) /\ st.n = 0 -> "FirstNewline"
      [] IsNL(c) -> "SecondNewline"
      [] IsSpace(c) /\ st.n = 0 -> "SpaceInText"
      [] IsSpace(c) -> "SpaceAfterNewline"
      [] st.n = 0 -> "CharInText"
      [] st.n = 1 -> "CharAfterNewline"
      [] OTHER -> "CharAfterBreak"

StepP(st, c) ==
    LET rule == RuleP(st, c) IN
    CASE rule = "FirstNewline" ->
           [st EXCEPT !.b = Append(@, c), !.bl = st.line, !.n = 1, !.line = @ + 1]
      [] rule = "SecondNewline" ->
           [st EXCEPT !.out = IF st.t = <<>> THEN @ ELSE Append(@, Text(st.tl, st.t)),
                      !.t = <<>>, !.b = Append(@, c), !.n = @ + Weight(c), !.line = @ + Weight(c)]
      [] rule = "NewlineRun" ->    \* the first and the second, and further ones
           [st EXCEPT !.out = IF st.t = <<>> THEN @ ELSE Append(@, Text(st.tl, st.t)), !.t = <<>>,
                      !.b = Append(@, c), !.bl = st.line, !.n = Weight(c), !.line = @ + Weight(c)]
      [] rule = "FurtherNewline" -> [st EXCEPT !.b = Append(@, c), !.n = @ + Weight(c), !.line = @ + Weight(c)]
      [] rule = "SpaceInText" -> [st EXCEPT !.t = Append(@, c)]
      [] rule = "SpaceAfterNewline" -> [st EXCEPT !.b = Append(@, c)]
      [] rule = "CharInText" -> [st EXCEPT !.t = Append(@, c)]
      [] rule = "CharAfterNewline" ->
           [st EXCEPT !.tl = IF st.t = <<>> THEN st.bl ELSE @,
                      !.t = Append(@ \o st.b, c), !.b = <<>>, !.n = 0]
      [] rule = "CharAfterBreak" ->
           [st EXCEPT !.out = Append(@, Break(st.bl, st.b)), !.b = <<>>, !.n = 0,
                      !.t = <<c>>, !.tl = st.line]

FinishP(st) ==
    IF st.n > 1 THEN Append(st.out, Break(st.bl, st.b))
    ELSE IF st.t \o st.b = <<>> THEN st.out
    ELSE Append(st.out, Text(st.tl, st.t \o st.b))

Para(cs) == CatMap(LAMBDA x : IF x.k = "T" THEN FinishP(FoldLeft(StepP, Para0(x), x.s)) ELSE <<x>>, cs)

----------------------------------------------------------------------------
(* Maths: delimiters among the chunks of one container are paired in one   *)
(* pass; chunks within a block are kept back and processed when it closes. *)
(* Modes: "N" none, "D" single dollar, "DD" double dollar, "DC" double     *)
(* dollar after one closing dollar, "B(" and "B[" brackets.                *)
Maths0 == [out |-> <<>>, mode |-> "N", d |-> 0,
           bl |-> 0,                  \* line of the opening delimiter
           buf |-> <<>>,              \* stage 2 chunks of the block
           t |-> <<>>, tl |-> 0,      \* text buffer and its line
           cl |-> 0,                  \* line of the current character
           err |-> <<>>]

RECURSIVE Up3(_)         \* stage 2 chunk list -> Ok(stage 3 list) or Fail

ArgStep3(acc, a) ==
    IF ~acc.ok THEN acc
    ELSE LET off == acc.off + NL(a.p)
             r == Up3(a.c)
         IN IF r.ok THEN [acc EXCEPT !.off = off + ExtraAll(a.c), !.v = Append(@, Arg(a.p, a.v, r.v))]
                    ELSE Shift(r, off)
Args3(as, off) == FoldLeft(ArgStep3, [ok |-> TRUE, v |-> <<>>, off |-> off], as)

Env3(x) ==
    LET as == Args3(x.a, NL(x.p) + NL(x.n))
        c == Up3(x.c)
    IN IF ~as.ok THEN as
       ELSE IF ~c.ok THEN Shift(c, as.off)
       ELSE Ok(Env(x.l, x.n, as.v, c.v, x.p, x.q))

Copy3(x) ==
    CASE x.k = "S" -> LET r == Up3(x.c) IN IF r.ok THEN Ok(Scope(x.l, x.v, r.v)) ELSE r
      [] x.k = "C" -> LET r == Args3(x.a, NL(x.n)) IN IF r.ok THEN Ok(Cmd(x.l, x.n, r.v)) ELSE r
      [] x.k = "E" -> Env3(x)

CloseMaths(st, v, t, buf) ==
    LET r == Up3([i \in 1..Len(buf) |-> [buf[i] EXCEPT !.l = @ - (st.bl - 1)]])
        closed == [st EXCEPT !.mode = "N", !.d = 0, !.buf = <<>>, !.t = <<>>, !.tl = st.cl]
    IN IF r.ok THEN [closed EXCEPT !.out = Append(@, Maths(st.bl, v, t, r.v))]
               ELSE [closed EXCEPT !.err = <<Shift(r, st.bl - 1)>>]

BufText(st) == IF st.t = <<>> THEN st.buf ELSE Append(st.buf, Text(st.tl, st.t))

\* One character of a text chunk
RuleD(st, c) ==
    CASE st.err # <<>> -> "Rejected"
      [] c # "$" /\ st.mode = "DC" -> "LoneDollar"
      [] c # "$" -> "TextChar"
      [] st.mode = "N" -> "DollarOpen"
      [] st.mode = "D" /\ st.t = <<>> /\ st.buf = <<>> -> "DollarDouble"
      [] st.mode = "D" -> "DollarClose"
      [] st.mode = "DD" -> "DollarHalfClose"
      [] st.mode = "DC" -> "DollarsClose"

StepD(st0, c) ==
    LET rule == RuleD(st0, c)
        st == [st0 EXCEPT !.cl = @ + Weight(c)]
    IN CASE rule = "Rejected" -> st0
         [] rule = "LoneDollar" -> [st EXCEPT !.mode = "DD", !.t = @ \o <<"$", c>>]
         [] rule = "TextChar" -> [st EXCEPT !.t = Append(@, c)]
         [] rule = "DollarOpen" ->
              [st EXCEPT !.out = IF st.t = <<>> THEN @ ELSE Append(@, Text(st.tl, st.t)),
                         !.t = <<>>, !.tl = st.cl, !.bl = st.cl, !.mode = "D"]
         [] rule = "DollarDouble" -> [st EXCEPT !.mode = "DD"]
         [] rule = "DollarClose" -> CloseMaths(st, "D", "I", BufText(st))
         [] rule = "DollarHalfClose" -> [st EXCEPT !.mode = "DC"]
         [] rule = "DollarsClose" -> CloseMaths(st, "D", "O", BufText(st))

TextChunk(st, x) ==
    LET s1 == FoldLeft(StepD, [st EXCEPT !.t = <<>>, !.tl = x.l, !.cl = x.l], x.s)
        s2 == IF s1.mode = "DC" THEN [s1 EXCEPT !.mode = "DD", !.t = Append(@, "$")] ELSE s1
    IN IF s2.err # <<>> \/ s2.t = <<>> THEN s2
       ELSE IF s2.mode = "N" THEN [s2 EXCEPT !.out = Append(@, Text(s2.tl, s2.t)), !.t = <<>>]
       ELSE [s2 EXCEPT !.buf = Append(@, Text(s2.tl, s2.t)), !.t = <<>>]

\* with arguments a command delimits nothing
IsCmd(x, n) == x.k = "C" /\ x.n = <<n>> /\ x.a = <<>>

Rule3(st, x) ==
    CASE st.err # <<>> -> "Rejected"
      [] st.mode = "N" /\ (IsCmd(x, ")") \/ IsCmd(x, "]")) -> "StrayMathsEnd"
      [] st.mode = "N" /\ (IsCmd(x, "(") \/ IsCmd(x, "[")) -> "BracketOpen"
      [] (st.mode = "B(" /\ IsCmd(x, "(")) \/ (st.mode = "B[" /\ IsCmd(x, "[")) -> "BracketNest"
      [] ((st.mode = "B(" /\ IsCmd(x, ")")) \/ (st.mode = "B[" /\ IsCmd(x, "]"))) ->
           IF st.d = 1 THEN "BracketClose" ELSE "BracketUnnest"
      [] x.k = "T" /\ st.mode \in {"N", "D", "DD"} -> "TextChunk"
      [] st.mode = "N" -> "CopyChunk"
      [] OTHER -> "BufferChunk"

Step3(st, x) ==
    LET rule == Rule3(st, x) IN
    CASE rule = "Rejected" -> st
      [] rule = "StrayMathsEnd" -> [st EXCEPT !.err = <<Fail(x.l, "UnexpectedMathsEnd", <<>>)>>]
      [] rule = "BracketOpen" -> [st EXCEPT !.mode = IF x.n = <<"(">> THEN "B(" ELSE "B[",
                                            !.bl = x.l, !.d = 1]
      [] rule = "BracketNest" -> [st EXCEPT !.d = @ + 1, !.buf = Append(@, x)]
      [] rule = "BracketUnnest" -> [st EXCEPT !.d = @ - 1, !.buf = Append(@, x)]
      [] rule = "BracketClose" ->
           CloseMaths(st, "B", IF st.mode = "B(" THEN "I" ELSE "O", st.buf)
      [] rule = "TextChunk" -> TextChunk(st, x)
      [] rule = "CopyChunk" ->
           LET r == Copy3(x)
           IN IF r.ok THEN [st EXCEPT !.out = Append(@, r.v)]
                      ELSE [st EXCEPT !.err = <<Shift(r, x.l - 1)>>]
      [] rule = "BufferChunk" -> [st EXCEPT !.buf = Append(@, x)]

FinishMaths(st) ==
    IF st.err # <<>> THEN st.err[1]
    ELSE IF st.mode # "N" THEN Fail(st.bl, "UnclosedMaths", <<>>)
    ELSE Ok(Para(st.out))

Up3(cs) == FinishMaths(FoldLeft(Step3, Maths0, cs))

----------------------------------------------------------------------------
(* Document class options *)
LAMBDANotSpace(c) == ~IsSpace(c)
TrimmedFrom(s) == FirstIdx(s, LAMBDANotSpace)      \* 0 if only whitespace
TrimmedTo(s) == LastIdx(s, LAMBDANotSpace)

SplitAt(s, c) ==       \* pieces of s between occurrences of c
    LET step(acc, x) == IF x = c THEN Append(acc, <<>>)
                                 ELSE [acc EXCEPT ![Len(acc)] = Append(@, x)]
    IN FoldLeft(step, <<<<>>>>, s)

IsEq(c) == c = "="
Option(s) ==
    IF TrimmedTo(s) = 0 THEN [p |-> <<>>, k |-> <<>>, e |-> <<>>, q |-> s]
    ELSE LET from == TrimmedFrom(s)
             to == TrimmedTo(s)
             arg == SubSeq(s, from, to)
             pre == SubSeq(s, 1, from - 1)
             post == SubSeq(s, to + 1, Len(s))
             eq == FirstIdx(arg, IsEq)
         IN IF eq = 0 THEN [p |-> pre, k |-> arg, e |-> <<>>, q |-> post]
            ELSE LET left == SubSeq(arg, 1, eq - 1)
                     right == SubSeq(arg, eq + 1, Len(arg))
                     ke == TrimmedTo(left)
                     vs == IF TrimmedFrom(right) = 0 THEN Len(right) + 1 ELSE TrimmedFrom(right)
                 IN [p |-> pre, k |-> SubSeq(left, 1, ke),
                     e |-> <<[p |-> SubSeq(left, ke + 1, Len(left)),
                              q |-> SubSeq(right, 1, vs - 1),
                              v |-> SubSeq(right, vs, Len(right))]>>,
                     q |-> post]
ROption(o) == o.p \o o.k \o (IF o.e = <<>> THEN <<>> ELSE o.e[1].p \o <<"=">> \o o.e[1].q \o o.e[1].v) \o o.q

OptionsOf(content) == LET pieces == SplitAt(Rs(content), ",")
                      IN [i \in 1..Len(pieces) |-> Option(pieces[i])]

----------------------------------------------------------------------------
(* Document sections: one step per top-level chunk of stage 2 *)
Sec0 == [cls |-> <<>>, opts |-> <<>>, pre |-> <<>>, body |-> <<>>, args |-> <<>>,
         p |-> <<>>, q |-> <<>>, tr |-> <<>>, off |-> 0, trailing |-> FALSE, err |-> <<>>]

ClassArg(st, l, a) ==
    IF st.err # <<>> THEN st
    ELSE IF a.v # "{" THEN [st EXCEPT !.opts = @ \o OptionsOf(a.c)]
    ELSE IF st.cls # <<>> THEN [st EXCEPT !.err = <<Fail(l, "TooManyArgsDocumentClass", <<>>)>>]
    ELSE [st EXCEPT !.cls = <<Rs(a.c)>>]

RuleS(st, x) ==
    CASE st.err # <<>> -> "Rejected"
      [] st.trailing -> "TrailingChunk"
      [] x.k = "E" /\ x.n = sDocument -> "DocumentEnvironment"
      [] x.k = "C" /\ x.n = sDocumentclass ->
           IF st.cls # <<>> THEN "SecondClass" ELSE "DocumentClass"
      [] OTHER -> "PreambleChunk"

StepS(st, x) ==
    LET rule == RuleS(st, x) IN
    CASE rule = "Rejected" -> st
      [] rule = "TrailingChunk" -> [st EXCEPT !.tr = Append(@, [x EXCEPT !.l = @ - st.off])]
      [] rule = "DocumentEnvironment" ->
           LET r == Env3(x)
           IN IF r.ok THEN [st EXCEPT !.body = r.v.c, !.args = r.v.a, !.p = r.v.p, !.q = r.v.q,
                                      !.trailing = TRUE, !.off = x.l + Lines(x) - 2]
                      ELSE [st EXCEPT !.err = <<Shift(r, x.l - 1)>>]
      [] rule = "SecondClass" -> [st EXCEPT !.err = <<Fail(x.l, "DoubleDocumentClass", <<>>)>>]
      [] rule = "DocumentClass" ->
           LET s1 == FoldLeft(LAMBDA acc, a : ClassArg(acc, x.l, a), st, x.a)
           IN [s1 EXCEPT !.pre = Append(@, x)]
      [] rule = "PreambleChunk" -> [st EXCEPT !.pre = Append(@, x)]

FinishS(st) ==
    IF st.err # <<>> THEN st.err[1]
    ELSE LET pre == Up3(st.pre)
             tr == Up3(st.tr)
         IN IF ~pre.ok THEN pre
            ELSE IF ~tr.ok THEN Shift(tr, st.off)
            ELSE Ok(Doc3(st.cls, st.opts, pre.v, st.body, st.args, st.p, st.q, tr.v, st.trailing))

UpDoc3(cs) == FinishS(FoldLeft(StepS, Sec0, cs))
Parse3(s) == LET r == Parse2(s) IN IF r.ok THEN UpDoc3(r.v) ELSE r

----------------------------------------------------------------------------
(* Lowering stage 3 to stage 2 (ast2 from ast3).                           *)
RECURSIVE Flat2(_)
Low2(cs) == Merge(CatMap(Flat2, cs))
LowArgs2(as) == [i \in 1..Len(as) |-> Arg(as[i].p, as[i].v, Low2(as[i].c))]
Flat2(x) ==
    CASE x.k \in {"T", "P"} -> <<Text(x.l, x.s)>>
      [] x.k = "S" -> <<Scope(x.l, x.v, Low2(x.c))>>
      [] x.k = "C" -> <<Cmd(x.l, x.n, LowArgs2(x.a))>>
      [] x.k = "E" -> <<Env(x.l, x.n, LowArgs2(x.a), Low2(x.c), x.p, x.q)>>
      [] x.k = "M" ->
           LET c == CatMap(Flat2, x.c)
               here == [i \in 1..Len(c) |-> [c[i] EXCEPT !.l = @ + x.l - 1]]
               last == x.l + Extra(x)
               ds == MathsOpen(x.v, x.t)
           IN IF x.v = "B"
              THEN <<Cmd(x.l, Tail(MathsOpen("B", x.t)), <<>>)>> \o here
                   \o <<Cmd(last, Tail(MathsClose("B", x.t)), <<>>)>>
              ELSE IF c = <<>> THEN <<Text(x.l, ds \o ds)>>
              ELSE LET c1 == IF here[1].k = "T" THEN [here EXCEPT ![1].s = ds \o @]
                                                ELSE <<Text(x.l, ds)>> \o here
                   IN IF c1[Len(c1)].k = "T" THEN [c1 EXCEPT ![Len(c1)].s = @ \o ds]
                                             ELSE Append(c1, Text(last, ds))

DownDoc2(d) ==
    LET pre == Low2(d.pre)
        l == LinesOf(pre)
        body == Env(l, sDocument, LowArgs2(d.args), Low2(d.body), d.p, d.q)
        off == Extra(body) + l - 1
        tr == CatMap(Flat2, d.tr)
    IN IF ~d.hb THEN pre
       ELSE FoldLeft(PushMerge, Append(pre, body), [i \in 1..Len(tr) |-> [tr[i] EXCEPT !.l = @ + off]])
=============================================================================
