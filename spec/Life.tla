-------------------------------- MODULE Life -------------------------------
(* What may be done with a document in the course of its life: parts are   *)
(* pushed to it, it is raised or lowered a stage, or rendered and parsed   *)
(* again at its stage ("again").  A document is its stage g and d: a list  *)
(* of chunks or, at stage 3, a Doc3.  A deed is [o, sec, x]; o is an       *)
(* operation of Push, "up", "down" or "again", or an edit in place of the  *)
(* chunk at op.at of a section:                                            *)
(*   "set"     it becomes the variant of x     "line"  it is put on the    *)
(*   "append"  text is put at its end                  line of x           *)
(*   "drop"    it is taken out                                             *)
EXTENDS Push

IsPush(op) == op.o \in {"push", "pushu", "chunk", "chunku"}
IsEdit(op) == op.o \in {"set", "append", "line", "drop"}
\* A section after an edit
Edited(cs, op) ==
    CASE op.o = "set" -> [cs EXCEPT ![op.at] = [op.x EXCEPT !.l = cs[op.at].l]]
      [] op.o = "append" -> [cs EXCEPT ![op.at].s = @ \o op.x.s]
      [] op.o = "line" -> [cs EXCEPT ![op.at].l = op.x.l]
      [] op.o = "drop" -> SubSeq(cs, 1, op.at - 1) \o SubSeq(cs, op.at + 1, Len(cs))
SectionOf(g, d, sec) == IF g = 3 THEN d[sec] ELSE d
Replaced(g, d, sec, cs) == IF g = 3 THEN [d EXCEPT ![sec] = cs, !.hb = @ \/ sec # "pre"] ELSE cs
TextAt(g, d) == IF g = 3 THEN RDoc3(d) ELSE Rs(d)
LinesAt(g, d) == IF g = 3 THEN LinesTrue3(d) ELSE LinesTrue(d)
CountAt(g, d) == IF g = 3 THEN LinesDoc3(d) ELSE LinesOf(d)
VerdictAt(g, d) == IF g = 3 THEN VDoc3(d) ELSE VDoc(g, d)
UpFrom(g, d) == IF g = 1 THEN Up2(d) ELSE UpDoc3(d)
DownFrom(g, d) == IF g = 2 THEN DownDoc1(d) ELSE DownDoc2(d)
ParseAt(g, s) == CASE g = 1 -> Parse1(s) [] g = 2 -> Parse2(s) [] g = 3 -> Parse3(s)

Done(g, d) == [ok |-> TRUE, g |-> g, d |-> d, why |-> <<>>]
NotDone(g, d, why) == [ok |-> FALSE, g |-> g, d |-> d, why |-> why]
From(g0, d0, g, r) == IF r.ok THEN Done(g, r.v) ELSE NotDone(g0, d0, <<r>>)

\* What comes of a deed: the document after it, or the one there was and why
\* (the reasons there are, any of which may be told, for a push)
Deed(g, d, op) ==
    CASE IsPush(op) ->
           LET cs == SectionOf(g, d, op.sec)
               why == IF IsChecked(op) THEN Reasons(g, cs, op) ELSE <<>>
           IN IF why = <<>> THEN Done(g, Replaced(g, d, op.sec, After(cs, op))) ELSE NotDone(g, d, why)
      [] IsEdit(op) ->     \* put together again by hand, a stage 3 document has its environment
           LET e == Replaced(g, d, op.sec, Edited(SectionOf(g, d, op.sec), op))
           IN Done(g, IF g = 3 THEN [e EXCEPT !.hb = TRUE] ELSE e)
      [] op.o = "up" -> From(g, d, g + 1, UpFrom(g, d))
      [] op.o = "down" -> Done(g - 1, DownFrom(g, d))
      [] op.o = "again" -> From(g, d, g, ParseAt(g, TextAt(g, d)))
Possible(g, d, op) ==
    CASE op.o = "up" -> g < 3
      [] op.o = "down" -> g > 1
      [] IsEdit(op) -> LET cs == SectionOf(g, d, op.sec)
                       IN op.at <= Len(cs) /\ (op.o = "append" => cs[op.at].k \in {"T", "P"})
      [] OTHER -> TRUE
\* Documents that conversions speak of: chunks on their lines, and no empty
\* or neighbouring texts
NeatList(cs) == \A i \in 1..Len(cs) : cs[i].k = "T" => cs[i].s # <<>> /\ (IF i = 1 THEN TRUE ELSE cs[i - 1].k # "T")
Neat(ls) == \A i \in 1..Len(ls) : NeatList(ls[i])
Orderly(g, d) == /\ LinesAt(g, d)
                 /\ Neat(IF g = 3 THEN ListsOf(d.pre) \o ListsOf(d.body) \o ListsOf(d.tr) \o CatMap(LAMBDA a : ListsOf(a.c), d.args)
                          ELSE ListsOf(d))
=============================================================================
