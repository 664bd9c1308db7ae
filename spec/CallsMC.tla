------------------------------- MODULE CallsMC -----------------------------
(* All short histories of calls on two documents by two threads.           *)
EXTENDS Calls, Json, TLC

CONSTANTS Families, Depth, Emit

VARIABLES fam, first, docs,
          hist,     \* steps so far: each a sequence of calls, with by whom and why refused
          last      \* the calls of the last step
vars == <<fam, first, docs, hist, last>>

T(str) == Text(1, S(str))
P(str) == Break(1, S(str))
C(name, as) == Cmd(1, S(name), as)
Sc(v, c) == Scope(1, v, c)
None == <<>>
All3Stages(srcs) == {<<g, s>> : g \in 1..3, s \in srcs}

\* sources: <<stage, source>> parsed; parts: pushed at each stage; deeds:
\* conversions and edits; on: which documents are written to; one, two: the
\* threads of steps of one call, and whether steps of two are taken;
\* firsts: what the documents are parsed from at first
Base == [sources |-> {}, parts |-> <<{}, {}, {}>>, deeds |-> {}, copies |-> FALSE, looks |-> FALSE,
         on |-> 1..2, one |-> 1..2, two |-> TRUE, firsts |-> {<<<<1, "">>, <<1, "">>>>}, max |-> <<3, 3, 4>>]
Body == "/documentclass[a_=~b]{k}~x~~y~/begin{document}~$x$~~z/end{document}~"
\* more than a word long, alike at both ends
Long(m) == "abcdefghijklmnopqrstuvwxyz_abcdefghijklmnopqrstuvwxyz~" \o m \o "_abcdefghijklmnopqrstuvwxyz~abcdefghijklmnopqrstuvwxyz"
Refusals == {<<1, "{">>, <<1, "a]~">>, <<1, "~/c[x~{y}">>, <<1, "~(/c{[})">>, <<2, "/begin{e}~/begin{f}">>, <<2, "~/end{e}">>, <<2, "/begin">>,
             <<2, "{~[~/begin{e}/begin{f}~/end{e}]}">>, <<3, "~$x">>, <<3, "/)">>, <<3, "/begin{e}~/[x/end{e}">>,
             <<3, "/documentclass{a}~/documentclass{b}">>, <<3, "/documentclass{a}{b}">>}
Def == [
  \* what is refused leaves nothing behind
  refusals |-> [Base EXCEPT !.sources = Refusals \cup {<<1, "x~{y}">>, <<2, "~/begin{e}~x/end{e}">>, <<3, Body>>},
                          !.on = {1}, !.two = FALSE, !.max = <<2, 3, 3>>],
  again |-> [Base EXCEPT !.sources = {<<1, "{">>, <<1, "~/c{[}">>, <<2, "{~[/begin{e}]}">>, <<3, "/begin{e}~$/end{e}">>, <<3, "x~~y">>}, !.on = {1}, !.two = FALSE, !.max = <<4, 5, 6>>],
  \* sources hard to tell apart
  alike |-> [Base EXCEPT !.sources = All3Stages({"{x}~", "[x]~", "(x)~", "{y}~", "~{x}", "/x~", "/y~", "/X~", "x/ ~", "x%~", "%x~", "/c{x}[y]", "/c[y]{x}", "/c{y}[x]", "/c[x]{y}",
                                                   "/begin{e}x/end{e}", "/begin{e}y/end{e}", "/begin{f}x/end{f}", "$x$y", "$y$x", "x$y$", "/(x/)", "/[x/]", "x~~y", "x~y~", "~x~y"})
                                \cup {<<1, Long("ab")>>, <<1, Long("ba")>>, <<1, Long("{}")>>, <<2, Long("/c")>>, <<2, Long("c_")>>, <<3, Long("x~")>>, <<3, Long("~~")>>, <<3, Long("$$$$")>>, <<3, Long("/(/)")>>},
                         !.on = {1}, !.one = {1}, !.two = FALSE, !.max = <<2, 2, 2>>],
  \* two threads at once
  alongside |-> [Base EXCEPT !.sources = All3Stages({"~{[/c~{}]/begin{e}{}/end{e}}", "x~~$y~$"}) \cup {<<1, Long("/c{[~]}")>>, <<3, Long("/c{[~]}")>>, <<1, "/c{">>, <<2, "{/begin{e}}">>, <<3, "~$/]">>}, !.one = {}, !.max = <<2, 2, 2>>],
  together |-> [Base EXCEPT !.parts = <<{T("~x")}, {T("$~")}, {T("~x"), P("~~")}>>, !.deeds = {"up", "again"}, !.copies = TRUE, !.looks = TRUE, !.one = {}, !.max = <<2, 3, 3>>,
                            !.firsts = {<<<<1, "x~{~}">>, <<2, "/begin{e}~/end{e}">>>>, <<<<3, "$x$~">>, <<3, Body>>>>, <<<<2, "~$x$">>, <<1, "/c[~]">>>>}],
  \* documents and their clones
  copies |-> [Base EXCEPT !.parts = <<{T("~x"), C("c", None)}, {T("$~")}, {T("~x"), P("~~")}>>, !.deeds = {"up", "down", "set", "drop"}, !.copies = TRUE, !.one = {1}, !.two = FALSE, !.max = <<3, 5, 5>>,
                          !.firsts = {<<<<1, "x~{~}">>, <<1, "">>>>, <<<<2, "/begin{e}~/end{e}">>, <<1, "">>>>, <<<<3, Body>>, <<3, "">>>>}],
  \* handed from thread to thread
  handed |-> [Base EXCEPT !.parts = <<{T("~x"), Sc("{", <<T("~")>>)}, {T("$~"), T("(")}, {T("~x"), P("~~")}>>, !.deeds = {"up", "down", "again", "append"}, !.on = {1}, !.two = FALSE, !.max = <<4, 5, 5>>,
                          !.firsts = {<<<<1, "x~{~}">>, <<1, "">>>>, <<<<3, Body>>, <<1, "">>>>}],
  both |-> [Base EXCEPT !.sources = {<<1, "x~{y}">>, <<2, "/begin{e}~{">>, <<3, Body>>}, !.parts = <<{T("~x")}, {T("$~")}, {P("~~")}>>, !.deeds = {"up", "again"}, !.copies = TRUE, !.one = {1}, !.max = <<2, 3, 3>>]
]
AllFamilies == DOMAIN Def
F == Def[fam]

Call == [o |-> "", h |-> 1, from |-> 1, g |-> 1, s |-> None, sec |-> "pre", x |-> Text(1, None), at |-> 1]
Docs == 1..2
ListAt(h) == SectionOf(docs[h][1], docs[h][2], "pre")
CallsOn(h) ==
    LET g == docs[h][1]
    IN {[Call EXCEPT !.o = "parse", !.h = h, !.g = q[1], !.s = S(q[2])] : q \in F.sources}
       \cup {[Call EXCEPT !.o = "push", !.h = h, !.x = p] : p \in F.parts[g]}
       \cup (IF F.looks THEN {[Call EXCEPT !.o = "look", !.h = h]} ELSE {})
       \cup (IF F.copies THEN {[Call EXCEPT !.o = "copy", !.h = h, !.from = 3 - h]} ELSE {})
       \cup {c \in {[Call EXCEPT !.o = o, !.h = h, !.x = IF o \in {"set", "append"} THEN T("~z") ELSE @] : o \in F.deeds} :
               /\ Possible(g, docs[h][2], c)
               /\ c.o \in {"up", "down"} => Orderly(g, docs[h][2])}

Init == /\ fam \in Families
        /\ first \in F.firsts
        /\ docs = [h \in Docs |-> <<first[h][1], ParseAt(first[h][1], S(first[h][2])).v>>]
        /\ hist = None /\ last = None

\* calls cs made by threads ts
Take(ts, cs) ==
    /\ docs' = CalledAll(docs, cs)
    /\ hist' = Append(hist, [i \in 1..Len(cs) |->
                 [t |-> ts[i], o |-> cs[i].o, h |-> cs[i].h, from |-> cs[i].from, g |-> cs[i].g, s |-> cs[i].s,
                  sec |-> cs[i].sec, x |-> cs[i].x, at |-> cs[i].at, why |-> Comes(docs, cs[i]).why]])
    /\ last' = cs
    /\ UNCHANGED <<fam, first>>
More == Len(hist) < F.max[Depth + 1]
One == More /\ \E t \in F.one, h \in F.on : \E c \in CallsOn(h) : Take(<<t>>, <<c>>)
Two == /\ More /\ F.two
       /\ \E a \in CallsOn(1), b \in CallsOn(2) : Apart(a, b) /\ Take(<<1, 2>>, <<a, b>>)
\* both look at, or one looks while the other copies, the same document
TwoOnOne == /\ More /\ F.two /\ F.looks
            /\ \E h \in Docs, c \in CallsOn(1) \cup CallsOn(2) : LET l == [Call EXCEPT !.o = "look", !.h = h]
               IN Apart(l, c) /\ h \in Reads(c) /\ Take(<<1, 2>>, <<l, c>>)
Next == One \/ Two \/ TwoOnOne
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* C25 *)
Start == [h \in Docs |-> <<first[h][1], ParseAt(first[h][1], S(first[h][2])).v>>]
\* a document is what was done to it, whatever else was called
Own == \A h \in Docs : docs[h] = OnItsOwn(Start, hist, h, Len(hist))
\* calls at once: in whatever order
AnyOrder == [][docs' = CalledAll(docs, Reversed(last')) /\ docs' = AtOnce(docs, last')]_vars
\* what is not called on stays, and what is refused changes nothing
Frame == [][\A h \in Docs : (\A i \in 1..Len(last') : h \notin Writes(last'[i]) \/ hist'[Len(hist')][i].why # None)
                               => docs'[h] = docs[h]]_vars

Seen(h) == [g |-> docs[h][1], d |-> docs[h][2], text |-> TextAt(docs[h][1], docs[h][2]), lines |-> CountAt(docs[h][1], docs[h][2]),
            verdict |-> VerdictAt(docs[h][1], docs[h][2])]
Line == ToJson([first |-> [h \in Docs |-> [g |-> first[h][1], s |-> S(first[h][2])]], steps |-> hist, docs |-> [h \in Docs |-> Seen(h)]])
Printed == (Emit /\ hist # None) => PrintT(Line)
=============================================================================
