-------------------------------- MODULE Views ------------------------------
(* What of a tree each property looks at, so that a deviation is reported  *)
(* for the property it concerns.                                           *)
EXTENDS Props

\* break chunks as text, adjacent text joined, no lines
RECURSIVE JoinFrom(_, _)
JoinFrom(acc, cs) ==
    IF cs = <<>> THEN acc
    ELSE LET x == IF Head(cs).k \in {"T", "P"} THEN Text(0, Head(cs).s) ELSE [Head(cs) EXCEPT !.l = 0]
         IN JoinFrom(IF x.k = "T" /\ acc # <<>> /\ acc[Len(acc)].k = "T"
                     THEN [acc EXCEPT ![Len(acc)].s = @ \o x.s] ELSE Append(acc, x), Tail(cs))
Joined(cs) == JoinFrom(<<>>, cs)
NonSpace(s) == SelectSeq(s, LAMBDA c : ~IsSpace(c))
BareText(x) == IF x.k = "T" THEN [x EXCEPT !.s = NonSpace(@)] ELSE x
Full(cs) == SelectSeq(cs, LAMBDA x : x.k # "T" \/ x.s # <<>>)

(* Modes of viewing a list: "nolines"; "bare": joined texts without their  *)
(* whitespace; "maths": likewise, but text without a paragraph break whole *)
ViewList(mode, cs) ==
    CASE mode = "nolines" -> [i \in 1..Len(cs) |-> [cs[i] EXCEPT !.l = 0]]
      [] mode = "bare" -> LET j == Joined(cs) IN Full([i \in 1..Len(j) |-> BareText(j[i])])
      [] mode = "maths" -> LET j == Joined(cs)
                           IN Full([i \in 1..Len(j) |->
                                 IF j[i].k = "T" /\ BreakAt(j[i].s) # 0 THEN BareText(j[i]) ELSE j[i]])

RECURSIVE View(_, _)
ViewArgs(mode, as) == [i \in 1..Len(as) |-> Arg(as[i].p, as[i].v, View(mode, as[i].c))]
ViewIn(mode, x) ==
    CASE x.k \in {"T", "P"} -> x
      [] x.k = "C" -> [x EXCEPT !.a = ViewArgs(mode, @)]
      [] x.k \in {"S", "M"} -> [x EXCEPT !.c = View(mode, @)]
      [] x.k = "E" -> [x EXCEPT !.a = ViewArgs(mode, @), !.c = View(mode, @)]
View(mode, cs) == LET v == ViewList(mode, cs) IN [i \in 1..Len(v) |-> ViewIn(mode, v[i])]
View3(mode, d) == [pre |-> View(mode, d.pre), body |-> View(mode, d.body), tr |-> View(mode, d.tr),
                   args |-> ViewArgs(mode, d.args)]
NoLines(cs) == View("nolines", cs)

\* texts and breaks of the lists that have a break
BreakView(cs) ==
    LET broken == \/ \E i \in 1..Len(cs) : cs[i].k = "P"
                  \/ LET j == Joined(cs) IN \E i \in 1..Len(j) : j[i].k = "T" /\ BreakAt(j[i].s) # 0
    IN IF broken THEN [i \in 1..Len(cs) |-> IF cs[i].k \in {"T", "P"} THEN <<cs[i].k, cs[i].s>> ELSE <<>>]
                 ELSE <<>>
BreakLists(d) == LET ls == Lists3(d) IN [i \in 1..Len(ls) |-> BreakView(ls[i])]

\* the sections of a document: bare of whitespace where some was lost
SectionView(m, d) ==
    LET keep(s) == IF RDoc3(m) = RDoc3(d) \/ ~m.hb THEN s ELSE NonSpace(s)
    IN <<m.hb, keep(Rs(m.pre)), keep(Rs(m.body)), keep(RArgs(m.args)), m.p, m.q, keep(Rs(m.tr)), m.cls, m.opts>>

\* environments, maths blocks and the head of a document, whatever is around them
Envs(cs) == LET es == SelectSeq(cs, LAMBDA x : x.k = "E")
            IN [i \in 1..Len(es) |-> <<es[i].n, es[i].p, es[i].q, Len(es[i].a), NonSpace(RArgs(es[i].a)), NonSpace(Rs(es[i].c))>>]
Blocks(cs) == LET ms == SelectSeq(cs, LAMBDA x : x.k = "M")
              IN [i \in 1..Len(ms) |-> <<ms[i].v, ms[i].t, NonSpace(Rs(ms[i].c))>>]
Heads(d) == <<d.hb, d.p, d.q, d.cls, d.opts>>

Outcome(r) == IF r.ok THEN <<"accepted">> ELSE <<r.kind, r.arg>>
=============================================================================
