-------------------------------- MODULE Push -------------------------------
(* Documents built by pushes.  A document is its stage g and three lists   *)
(* of chunks; stages 1 and 2 have one section only (pre).  hb: does the    *)
(* document have a document environment (stage 3).                         *)
(* An operation is a record [o, sec, x]: x is a chunk (its line counts     *)
(* only when a chunk is pushed), o one of                                  *)
(*   "push" "pushu"    a variant, checked / unchecked                      *)
(*   "chunk" "chunku"  a chunk, checked / unchecked                        *)
(*   "into"            the chunks a stage 2 chunk lowers to (stage 1)      *)
EXTENDS Stage3

\* the line the next chunk starts on
NextLine(cs) == IF cs = <<>> THEN 1 ELSE cs[Len(cs)].l + Extra(cs[Len(cs)])

\* whitespace that text s ends with, and that text t starts with
Tail0(s) == SubSeq(s, TrimmedTo(s) + 1, Len(s))
Head0(t) == IF TrimmedTo(t) = 0 THEN t ELSE SubSeq(t, 1, TrimmedFrom(t) - 1)
\* does t, put after s, complete a paragraph break
Completes(s, t) == NL(Tail0(s)) > 0 /\ NL(Head0(t)) > 0

LastText(cs) == IF cs # <<>> /\ cs[Len(cs)].k = "T" THEN <<cs[Len(cs)].s>> ELSE <<>>

\* Reasons to refuse a checked operation on section cs of a stage g document
Reasons(g, cs, op) ==
    LET brk == /\ g = 3 /\ op.x.k = "T" /\ LastText(cs) # <<>>
               /\ Completes(LastText(cs)[1], op.x.s)
        lin == op.o = "chunk" /\ op.x.l # NextLine(cs)
    IN V(g, op.x)
       \o (IF brk THEN Problem("UnbrokenParagraph", <<>>, 0, 0) ELSE <<>>)
       \o (IF lin THEN Problem("IncorrectChunkLineNumber", <<>>, NextLine(cs), op.x.l) ELSE <<>>)

IsChecked(op) == op.o \in {"push", "chunk"}
Refused(g, cs, op) == IsChecked(op) /\ Reasons(g, cs, op) # <<>>

\* The section after an operation that is not refused
After(cs, op) ==
    CASE op.o \in {"push", "pushu"} -> PushMerge(cs, [op.x EXCEPT !.l = NextLine(cs)])
      [] op.o \in {"chunk", "chunku"} -> PushMerge(cs, op.x)
      [] op.o = "into" -> FoldLeft(PushMerge, cs, DownChunk1(op.x))

Empty3 == [pre |-> <<>>, body |-> <<>>, tr |-> <<>>]
AsDoc3(s, hb) == Doc3(<<>>, <<>>, s.pre, s.body, <<>>, <<>>, <<>>, s.tr, hb)

\* Verdict and text of a document
Verdict(g, s, hb) == IF g = 3 THEN VDoc3(AsDoc3(s, hb)) ELSE VDoc(g, s.pre)
TextOf(g, s, hb) == IF g = 3 THEN RDoc3(AsDoc3(s, hb)) ELSE Rs(s.pre)

NoAdjacentTexts(cs) == \A i \in 1..Len(cs) - 1 : ~(cs[i].k = "T" /\ cs[i + 1].k = "T")
=============================================================================
