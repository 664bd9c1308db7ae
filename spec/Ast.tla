-------------------------------- MODULE Ast --------------------------------
(* Trees of the three stages.  A chunk is one of                           *)
(*   [k |-> "T", l, s]               text                                  *)
(*   [k |-> "P", l, s]               paragraph break        (stage 3)      *)
(*   [k |-> "C", l, n, a]            command, name n, arguments a          *)
(*   [k |-> "S", l, v, c]            scope of bracket kind v, content c    *)
(*   [k |-> "E", l, n, a, c, p, q]   environment, label n, arguments a,    *)
(*                                   content c, text before the labels of  *)
(*                                   begin (p) and end (q)  (stage 2, 3)   *)
(*   [k |-> "M", l, v, t, c]         maths block, v: "B"rackets/"D"ollars, *)
(*                                   t: "I"nline/"O"utline  (stage 3)      *)
(* l is the line number relative to the container, an argument is a record *)
(* [p |-> preceding text, v |-> bracket kind, c |-> content].              *)
(* A stage 3 document is a record, see Doc3 below.                         *)
EXTENDS Chars

Text(l, s) == [k |-> "T", l |-> l, s |-> s]
Break(l, s) == [k |-> "P", l |-> l, s |-> s]
Cmd(l, n, a) == [k |-> "C", l |-> l, n |-> n, a |-> a]
Scope(l, v, c) == [k |-> "S", l |-> l, v |-> v, c |-> c]
Env(l, n, a, c, p, q) ==
    [k |-> "E", l |-> l, n |-> n, a |-> a, c |-> c, p |-> p, q |-> q]
Maths(l, v, t, c) == [k |-> "M", l |-> l, v |-> v, t |-> t, c |-> c]
Arg(p, v, c) == [p |-> p, v |-> v, c |-> c]

\* cls: <<>> or <<name>>; opts: seq of [p, k, e, q], e: <<>> or <<[p, q, v]>>
Doc3(cls, opts, pre, body, args, p, q, tr, hb) ==
    [cls |-> cls, opts |-> opts, pre |-> pre, body |-> body, args |-> args,
     p |-> p, q |-> q, tr |-> tr, hb |-> hb]

Ok(x) == [ok |-> TRUE, v |-> x]
\* kind: a string; arg: bracket as <<c>>, label text, or <<>>
Fail(line, kind, arg) == [ok |-> FALSE, line |-> line, kind |-> kind, arg |-> arg]
Shift(r, n) == IF r.ok THEN r ELSE [r EXCEPT !.line = @ + n]

MathsOpen(v, t) == CASE v = "B" /\ t = "I" -> <<"/", "(">>
                     [] v = "B" /\ t = "O" -> <<"/", "[">>
                     [] v = "D" /\ t = "I" -> <<"$">>
                     [] v = "D" /\ t = "O" -> <<"$", "$">>
MathsClose(v, t) == CASE v = "B" /\ t = "I" -> <<"/", ")">>
                      [] v = "B" /\ t = "O" -> <<"/", "]">>
                      [] OTHER -> MathsOpen(v, t)

sBegin == <<"b","e","g","i","n">>
sEnd == <<"e","n","d">>
sDocument == <<"d","o","c","u","m","e","n","t">>
sDocumentclass == sDocument \o <<"c","l","a","s","s">>

----------------------------------------------------------------------------
(* Rendering *)
RECURSIVE R(_)
Rs(cs) == CatMap(R, cs)
RArg(a) == a.p \o <<a.v>> \o Rs(a.c) \o <<CloseOf(a.v)>>
RArgs(as) == CatMap(RArg, as)
REnv(n, as, c, p, q) ==
    <<"/">> \o sBegin \o p \o <<"{">> \o n \o <<"}">> \o RArgs(as) \o Rs(c)
    \o <<"/">> \o sEnd \o q \o <<"{">> \o n \o <<"}">>
R(x) == CASE x.k \in {"T", "P"} -> x.s
          [] x.k = "C" -> <<"/">> \o x.n \o RArgs(x.a)
          [] x.k = "S" -> <<x.v>> \o Rs(x.c) \o <<CloseOf(x.v)>>
          [] x.k = "E" -> REnv(x.n, x.a, x.c, x.p, x.q)
          [] x.k = "M" -> MathsOpen(x.v, x.t) \o Rs(x.c) \o MathsClose(x.v, x.t)

RDoc3(d) == IF d.hb THEN Rs(d.pre) \o REnv(sDocument, d.args, d.body, d.p, d.q) \o Rs(d.tr)
                    ELSE Rs(d.pre)

----------------------------------------------------------------------------
(* Line counts as the code computes them: summed from the parts.           *)
RECURSIVE Extra(_)       \* lines - 1
ExtraAll(cs) == SumMap(Extra, cs)
ExtraArg(a) == NL(a.p) + ExtraAll(a.c)
ExtraArgs(as) == SumMap(ExtraArg, as)
Extra(x) == CASE x.k \in {"T", "P"} -> NL(x.s)
              [] x.k = "C" -> NL(x.n) + ExtraArgs(x.a)
              [] x.k \in {"S", "M"} -> ExtraAll(x.c)
              [] x.k = "E" -> 2 * NL(x.n) + NL(x.p) + NL(x.q) + ExtraArgs(x.a) + ExtraAll(x.c)
Lines(x) == Extra(x) + 1
LinesOf(cs) == ExtraAll(cs) + 1
LinesDoc3(d) == ExtraAll(d.pre) + ExtraAll(d.body) + ExtraAll(d.tr) + ExtraArgs(d.args)
                + NL(d.p) + NL(d.q) + 1

----------------------------------------------------------------------------
(* Validation at stage g.  A verdict is <<>> (valid) or <<problem>>, the   *)
(* first problem in document order.                                        *)
Problem(kind, arg, e, g) == <<[kind |-> kind, arg |-> arg, e |-> e, g |-> g]>>
Unsanitised(s) ==
    LET i == FirstIdx(s, IsReserved)
    IN IF i = 0 THEN <<>> ELSE Problem("UnsanitisedCharInString", <<s[i]>>, 0, 0)

\* The first of several verdicts that is a problem
FirstProblem(vs) == FoldLeft(LAMBDA found, v : IF found # <<>> THEN found ELSE v, <<>>, vs)

\* bytes of a label
Bytes(s) == Len(s) + SumMap(LAMBDA c : CASE c = "!" -> 1 [] c = "^" -> 2 [] c = "|" -> 3
                                                 [] c \in {"@", ":", "."} -> RunLen - 1 [] OTHER -> 0, s)

\* Index of the newline completing a paragraph break in s, 0 if none
BreakAt(s) ==
    LET step(acc, c) ==
            IF acc.at # 0 THEN acc
            ELSE IF IsNL(c) THEN [acc EXCEPT !.i = @ + 1, !.n = TRUE, !.at = IF acc.n \/ Weight(c) > 1 THEN acc.i ELSE 0]
            ELSE [acc EXCEPT !.i = @ + 1, !.n = IF IsSpace(c) THEN @ ELSE FALSE]
    IN FoldLeft(step, [i |-> 1, n |-> FALSE, at |-> 0], s).at

VText(g, s) ==
    IF g < 3 THEN Unsanitised(s)
    ELSE LET i == FirstIdx(s, IsReserved)
             j == BreakAt(s)
         IN IF j # 0 /\ (i = 0 \/ j < i) THEN Problem("UnbrokenParagraph", <<>>, 0, 0)
            ELSE Unsanitised(s)
VBreak(s) == IF HasChar(s, LAMBDA c : ~IsSpace(c)) THEN Problem("ParagraghBreakNonwhitespace", <<>>, 0, 0)
             ELSE IF NL(s) < 2 THEN Problem("ParagraphBreakTooShort", <<>>, 0, 0)
             ELSE <<>>

RECURSIVE V(_, _)
VAll(g, cs) == FirstProblem([i \in 1..Len(cs) |-> V(g, cs[i])])
VArgs(g, as) == FirstProblem([i \in 1..Len(as) |-> VAll(g, as[i].c)])
V(g, x) ==
    CASE x.k = "T" -> VText(g, x.s)
      [] x.k = "P" -> VBreak(x.s)
      [] x.k = "C" ->
           IF g >= 2 /\ x.n = sBegin THEN Problem("BeginCommand", <<>>, 0, 0)
           ELSE IF g >= 2 /\ x.n = sEnd THEN Problem("EndCommand", <<>>, 0, 0)
           ELSE FirstProblem(<<IF Bytes(x.n) = 1 THEN <<>> ELSE Unsanitised(x.n), VArgs(g, x.a)>>)
      [] x.k \in {"S", "M"} -> VAll(g, x.c)
      [] x.k = "E" -> FirstProblem(<<Unsanitised(x.n), VArgs(g, x.a), VAll(g, x.c)>>)

VDoc(g, cs) ==
    LET step(acc, x) ==
            IF acc.v # <<>> THEN acc
            ELSE IF x.l # acc.e THEN [acc EXCEPT !.v = Problem("IncorrectChunkLineNumber", <<>>, acc.e, x.l)]
            ELSE [e |-> acc.e + Extra(x), v |-> V(g, x)]
    IN FoldLeft(step, [e |-> 1, v |-> <<>>], cs).v
VDoc3(d) == FirstProblem(<<VDoc(3, d.pre), VArgs(3, d.args), VDoc(3, d.body), VDoc(3, d.tr)>>)

----------------------------------------------------------------------------
(* Properties of trees, stated without reference to how they are computed. *)

\* C09: each chunk of a container is on the line it starts on
RECURSIVE LinesTrue(_)
LinesTrueIn(x) ==
    CASE x.k \in {"T", "P"} -> TRUE
      [] x.k = "C" -> \A i \in 1..Len(x.a) : LinesTrue(x.a[i].c)
      [] x.k \in {"S", "M"} -> LinesTrue(x.c)
      [] x.k = "E" -> LinesTrue(x.c) /\ \A i \in 1..Len(x.a) : LinesTrue(x.a[i].c)
LinesTrue(cs) ==
    \A i \in 1..Len(cs) :
        /\ cs[i].l = 1 + NL(Rs(SubSeq(cs, 1, i - 1)))
        /\ LinesTrueIn(cs[i])
LinesTrue3(d) == /\ LinesTrue(d.pre) /\ LinesTrue(d.body) /\ LinesTrue(d.tr)
                 /\ \A i \in 1..Len(d.args) : LinesTrue(d.args[i].c)

\* C10: line counts agree with the rendered text
LinesAgree(cs) == \A i \in 1..Len(cs) : Lines(cs[i]) = 1 + NL(R(cs[i]))

\* Sub-chunks, all of them, of a chunk list
RECURSIVE All(_)
Below(x) == CASE x.k \in {"T", "P"} -> <<>>
              [] x.k = "C" -> CatMap(LAMBDA a : All(a.c), x.a)
              [] x.k \in {"S", "M"} -> All(x.c)
              [] x.k = "E" -> CatMap(LAMBDA a : All(a.c), x.a) \o All(x.c)
All(cs) == CatMap(LAMBDA x : <<x>> \o Below(x), cs)
All3(d) == All(d.pre) \o CatMap(LAMBDA a : All(a.c), d.args) \o All(d.body) \o All(d.tr)

\* Every list of chunks in the tree (containers)
ListsOf(cs) == <<cs>> \o CatMap(LAMBDA x : CASE x.k \in {"T", "P"} -> <<>>
                                              [] x.k = "C" -> [i \in 1..Len(x.a) |-> x.a[i].c]
                                              [] x.k \in {"S", "M"} -> <<x.c>>
                                              [] x.k = "E" -> Append([i \in 1..Len(x.a) |-> x.a[i].c], x.c),
                                All(cs))
=============================================================================
