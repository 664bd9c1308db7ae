-------------------------------- MODULE Calls ------------------------------
(* Several documents, and calls made on them from several threads.  docs   *)
(* is a sequence of documents <<g, d>> (a stage, and as in Life).  A call  *)
(* is a record [o, h, from, g, s, sec, x, at]:                             *)
(*   "parse"   source s at stage g; if accepted, document h is replaced    *)
(*   "copy"    document h is replaced by a clone of document from          *)
(*   "look"    document h is rendered, counted, validated and compared     *)
(*   others    a deed of Life done to document h                           *)
(* What is done by a step is a sequence of calls made at once, each by a   *)
(* thread of its own, none of which touches what another changes.          *)
EXTENDS Life

IsDeed(c) == c.o \notin {"parse", "copy", "look"}
Reads(c) == CASE c.o = "parse" -> {} [] c.o = "copy" -> {c.from} [] OTHER -> {c.h}
Writes(c) == IF c.o = "look" THEN {} ELSE {c.h}
Apart(a, b) == /\ Writes(a) \cap (Reads(b) \cup Writes(b)) = {}
               /\ Writes(b) \cap (Reads(a) \cup Writes(a)) = {}

\* what comes of a call: the document at h afterwards, and why it was refused
Comes(docs, c) ==
    CASE c.o = "parse" -> LET r == ParseAt(c.g, c.s)
                          IN IF r.ok THEN [doc |-> <<c.g, r.v>>, why |-> <<>>]
                                     ELSE [doc |-> docs[c.h], why |-> <<r>>]
      [] c.o = "copy" -> [doc |-> docs[c.from], why |-> <<>>]
      [] c.o = "look" -> [doc |-> docs[c.h], why |-> <<>>]
      [] OTHER -> LET r == Deed(docs[c.h][1], docs[c.h][2], c)
                  IN [doc |-> <<r.g, r.d>>, why |-> r.why]
Called(docs, c) == [docs EXCEPT ![c.h] = Comes(docs, c).doc]
\* one after another
RECURSIVE CalledAll(_, _)
CalledAll(docs, cs) == IF cs = <<>> THEN docs ELSE CalledAll(Called(docs, cs[1]), Tail(cs))
Reversed(cs) == [i \in 1..Len(cs) |-> cs[Len(cs) + 1 - i]]
\* at once: in any order, all of them saw what there was before
AtOnce(docs, cs) == [h \in 1..Len(docs) |->
                        LET w == SelectSeq(cs, LAMBDA c : h \in Writes(c))
                        IN IF w = <<>> THEN docs[h] ELSE Comes(docs, w[1]).doc]

\* The document at h after the first n steps of a history, by what was done
\* to it alone: nothing else that was called is looked at
RECURSIVE OnItsOwn(_, _, _, _)
OnItsOwn(first, hist, h, n) ==
    IF n = 0 THEN first[h]
    ELSE LET w == SelectSeq(hist[n], LAMBDA c : h \in Writes(c))
         IN IF w = <<>> THEN OnItsOwn(first, hist, h, n - 1)
            ELSE LET c == w[1]
                     own == OnItsOwn(first, hist, IF c.o = "copy" THEN c.from ELSE h, n - 1)
                 IN IF c.o = "copy" THEN own
                    ELSE Comes([i \in 1..Len(first) |-> own], [c EXCEPT !.h = 1]).doc
=============================================================================
