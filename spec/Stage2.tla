------------------------------- MODULE Stage2 ------------------------------
(* Stage 2: folding begin/end commands of a stage 1 chunk list into        *)
(* environments, one step per chunk (ast2::Document::try_from).            *)
EXTENDS Stage1

Fold0 == [out |-> <<>>,
          stack |-> <<>>,     \* labels (chunk lists) of the open environments
          el |-> 0,           \* line of the outermost begin
          bs |-> 0,           \* line its content starts on
          a |-> <<>>,         \* its further arguments
          p |-> <<>>,         \* text before its label
          buf |-> <<>>,       \* content so far, lines relative to bs
          err |-> <<>>]

RECURSIVE Up2(_)       \* chunk list -> Ok(chunk list) or Fail

\* Convert arguments; off: lines before the first one
ArgStep2(acc, a) ==
    IF ~acc.ok THEN acc
    ELSE LET off == acc.off + NL(a.p)
             r == Up2(a.c)
         IN IF r.ok THEN [acc EXCEPT !.off = off + ExtraAll(a.c), !.v = Append(@, Arg(a.p, a.v, r.v))]
                    ELSE Shift(r, off)
Args2(as, off) == FoldLeft(ArgStep2, [ok |-> TRUE, v |-> <<>>, off |-> off], as)

HasLabel(x) == x.a # <<>> /\ x.a[1].v = "{"

Rule2(st, x) ==
    LET open == st.stack # <<>> IN
    CASE st.err # <<>> -> "Rejected"
      [] x.k # "C" \/ (x.n # sBegin /\ x.n # sEnd) -> IF open THEN "Buffer" ELSE "Copy"
      [] ~HasLabel(x) -> "NoLabel"
      [] x.n = sBegin -> IF open THEN "BeginNested" ELSE "BeginOuter"
      [] ~open \/ st.stack[Len(st.stack)] # x.a[1].c -> "WrongEnd"
      [] Len(x.a) > 1 -> "EndArguments"
      [] Len(st.stack) > 1 -> "EndNested"
      [] OTHER -> "EndOuter"

Buffered(st, x) == [st EXCEPT !.buf = Append(@, [x EXCEPT !.l = @ - st.bs + 1])]

Copy2(x) ==
    CASE x.k = "T" -> Ok(x)
      [] x.k = "S" -> LET r == Up2(x.c) IN IF r.ok THEN Ok(Scope(x.l, x.v, r.v)) ELSE r
      [] x.k = "C" -> LET r == Args2(x.a, NL(x.n)) IN IF r.ok THEN Ok(Cmd(x.l, x.n, r.v)) ELSE r

Reject(st, e) == [st EXCEPT !.err = <<e>>]

Step2(st, x) ==
    LET rule == Rule2(st, x) IN
    CASE rule = "Rejected" -> st
      [] rule = "Buffer" -> Buffered(st, x)
      [] rule = "Copy" ->
           LET r == Copy2(x)
           IN IF r.ok THEN [st EXCEPT !.out = Append(@, r.v)] ELSE Reject(st, Shift(r, x.l - 1))
      [] rule = "NoLabel" -> Reject(st, Fail(x.l, "NoEnvironmentLabel", <<>>))
      [] rule = "BeginNested" -> [Buffered(st, x) EXCEPT !.stack = Append(@, x.a[1].c)]
      [] rule = "BeginOuter" ->
           [st EXCEPT !.stack = <<x.a[1].c>>, !.el = x.l, !.bs = x.l + Extra(x),
                      !.a = Tail(x.a), !.p = x.a[1].p]
      [] rule = "WrongEnd" -> Reject(st, Fail(x.l, "UnexpectedEnd", Rs(x.a[1].c)))
      [] rule = "EndArguments" -> Reject(st, Fail(x.l, "TooManyArgsEnd", <<>>))
      [] rule = "EndNested" -> [Buffered(st, x) EXCEPT !.stack = Front(@)]
      [] rule = "EndOuter" ->
           LET as == Args2(st.a, NL(st.p) + ExtraAll(x.a[1].c))
               c == Up2(st.buf)
           IN IF ~as.ok THEN Reject(st, Shift(as, st.el - 1))
              ELSE IF ~c.ok THEN Reject(st, Shift(c, st.bs - 1))
              ELSE [Fold0 EXCEPT !.out = Append(st.out,
                        Env(st.el, Rs(x.a[1].c), as.v, c.v, st.p, x.a[1].p))]

Up2(cs) ==
    LET st == FoldLeft(Step2, Fold0, cs)
    IN IF st.err # <<>> THEN st.err[1]
       ELSE IF st.stack # <<>> THEN Fail(st.el, "UnclosedEnvironment", Rs(st.stack[1]))
       ELSE Ok(st.out)

Parse2(s) == LET r == Parse1(s) IN IF r.ok THEN Up2(r.v) ELSE r

----------------------------------------------------------------------------
(* Lowering a stage 2 chunk list to stage 1 (ast1 from ast2).              *)
RECURSIVE Down1(_)
DownArgs1(as) == [i \in 1..Len(as) |-> Arg(as[i].p, as[i].v, Down1(as[i].c))]
DownChunk1(x) ==
    CASE x.k = "T" -> <<x>>
      [] x.k = "S" -> <<Scope(x.l, x.v, Down1(x.c))>>
      [] x.k = "C" -> <<Cmd(x.l, x.n, DownArgs1(x.a))>>
      [] x.k = "E" ->
           LET parsed == Parse1(x.n)
               \* a label that is not the text of a document is kept as it is
               label == IF (IF parsed.ok THEN Rs(parsed.v) = x.n ELSE FALSE) THEN parsed.v ELSE <<Text(1, x.n)>>
               content == Down1(x.c)
               cl == x.l + NL(x.p) + NL(x.n) + ExtraArgs(x.a)
           IN <<Cmd(x.l, sBegin, <<Arg(x.p, "{", label)>> \o DownArgs1(x.a))>>
              \o [i \in 1..Len(content) |-> [content[i] EXCEPT !.l = @ + cl - 1]]
              \o <<Cmd(cl + NL(Rs(x.c)), sEnd, <<Arg(x.q, "{", label)>>)>>
Down1(cs) == CatMap(DownChunk1, cs)

(* Pushing onto a chunk list merges text; used by documents and lowering.  *)
PushMerge(cs, x) ==
    IF x.k = "T" /\ cs # <<>> /\ cs[Len(cs)].k = "T"
    THEN [cs EXCEPT ![Len(cs)].s = @ \o x.s]
    ELSE Append(cs, x)
Merge(cs) == FoldLeft(PushMerge, <<>>, cs)

\* The document-level lowering pushes chunk by chunk, so top-level text merges
DownDoc1(cs) == Merge(Down1(cs))
=============================================================================
