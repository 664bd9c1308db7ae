------------------------------- MODULE LifeMC ------------------------------
(* All short lives of documents: every mix of pushes, conversions and      *)
(* reparses, from documents of every stage.                                *)
EXTENDS Life, Json, TLC

CONSTANTS Families, Depth, Emit

VARIABLES fam,
          start,    \* <<stage, source>> begun with
          g, d,     \* the document
          hist,     \* deeds so far, each with why it was not done
          clean,    \* valid at first, parts pushed checked, never reparsed
          edited,   \* some part was edited in place
          last      \* the last deed
vars == <<fam, start, g, d, hist, clean, edited, last>>

T(str) == Text(1, S(str))
P(str) == Break(1, S(str))
C(name, as) == Cmd(1, S(name), as)
A(p, v, c) == Arg(S(p), v, c)
Sc(v, c) == Scope(1, v, c)
Label(p, l) == A(p, "{", IF l = "" THEN <<>> ELSE <<T(l)>>)
Begin(l) == C("begin", <<Label("", l)>>)
End(l) == C("end", <<Label("~", l)>>)
None == <<>>

\* edits: how parts are edited in place; places: which; texts: what is
\* appended; lines: where they are put
\* parts: what is pushed at each stage; secs: to which sections at stage 3;
\* with: how; starts: <<stage, source>>
Base == [parts |-> <<{}, {}, {}>>, secs |-> {"pre"}, with |-> {"push"}, starts |-> {<<1, "">>, <<2, "">>, <<3, "">>},
         edits |-> {}, places |-> 1..2, texts |-> {}, lines |-> {}, max |-> <<5, 6, 7>>]
Def == [
  folds |-> [Base EXCEPT !.parts = <<{T("a~"), Begin("e"), End("e"), Sc("[", <<>>)}, {T("~b"), Begin("e"), Env(1, S("e"), None, None, None, S("~"))},
                                     {T("~c"), Env(1, S("e"), None, <<T("~")>>, None, None)}>>],
  doors |-> [Base EXCEPT !.parts = <<{T("$"), C("(", None), C(")", None)}, {T("$~"), C("[", None), C("]", None)}, {T("~"), T("$"), Maths(1, "D", "I", <<T("x~")>>), Maths(1, "B", "O", None)}>>],
  breaks |-> [Base EXCEPT !.parts = <<{T("~"), T("_"), C("c", None)}, {T("~x"), T("~")}, {T("~"), T("x_"), P("~~"), P("~_~")}>>, !.with = {"push", "pushu"}, !.max = <<4, 5, 6>>],
  bodies |-> [Base EXCEPT !.parts = <<{Begin("document"), End("document"), T("~")}, {T("~"), Env(1, sDocument, None, None, None, S("~"))}, {T("~"), T("x")}>>,
                          !.secs = {"pre", "body", "tr"}, !.max = <<4, 5, 6>>, !.starts = @ \cup {<<3, "~/begin{document}~/end{document}~">>}],
  classes |-> [Base EXCEPT !.parts = <<{C("documentclass", <<A("", "[", <<T("a,~b")>>), A("~", "{", <<T("k")>>)>>), Begin("document"), End("document")},
                                       {C("documentclass", <<A("", "{", <<T("k~")>>)>>), T("~")}, {C("documentclass", <<A("", "[", <<T("a=~b")>>)>>), T("~")}>>,
                           !.secs = {"pre", "body"}, !.starts = {<<1, "">>, <<3, "/documentclass[x]{k}~">>, <<3, "/begin{document}/end{document}">>}],
  groups |-> [Base EXCEPT !.parts = <<{C("c", None), C("", None), Sc("{", <<T("~")>>), T("x~"), C("%", None)}, {Sc("[", <<T("$~$")>>), C("c", <<A("~", "(", <<T("~")>>)>>)},
                                      {Sc("{", <<T("x")>>), C("!", None)}>>],
  lines |-> [Base EXCEPT !.parts = <<{T("~a"), [T("b~") EXCEPT !.l = 2]}, {[T("~") EXCEPT !.l = 2], Env(1, S("e"), None, <<T("~")>>, None, None), [C("c", None) EXCEPT !.l = 3]},
                                     {[T("x~") EXCEPT !.l = 2], [P("~~") EXCEPT !.l = 2], P("~~"), [Maths(1, "D", "O", <<T("~")>>) EXCEPT !.l = 3]}>>,
                         !.with = {"push", "chunk"}, !.max = <<4, 5, 6>>],
  parsed |-> [Base EXCEPT !.parts = <<{T("~"), T("$")}, {T("~"), T("$")}, {T("~"), T("x")}>>, !.secs = {"pre", "body", "tr"}, !.max = <<3, 4, 5>>,
              !.starts = {<<s, src>> : s \in 1..3, src \in {"/documentclass[a_=~b,c]{k}~x~~y%z~~/begin{document}~$x$~~/begin{e}~/end{e}/end{document}~w",
                                                             "a)~/c{}~[~]x/(~/)$$~$$", "{(~[/c{~}{}]~)}~~/begin~{e~}/end{e~}~", "/begin{e}~~$~$~~/begin{f}{~}/end{f}/end{e}~"}}],
  runs |-> [Base EXCEPT !.parts = <<{T("x@"), Begin("e"), End("e")}, {T("x@y"), T("$")}, {T("x@"), T("x."), P("_@"), Maths(1, "D", "I", <<T("x@")>>)}>>, !.max = <<4, 4, 5>>],
  many |-> [Base EXCEPT !.parts = <<{T("~"), C("c", None)}, {T("~$"), Sc("[", <<T("~")>>)}, {T("~x"), P("~~")}>>, !.max = <<2, 3, 4>>,
                         !.starts = {<<s, src, n>> : s \in 1..3, src \in {"x~{}", "/c[~]$x$~~"}, n \in {260}}],
  \* edited in place
  edits |-> [Base EXCEPT !.parts = <<{T("x~"), C("c", None), Sc("{", <<T("~")>>)}, {T("~"), Env(1, S("e"), None, <<T("~")>>, None, None)}, {T("~x"), P("~~")}>>,
                         !.edits = {"set", "append", "drop"}, !.texts = {"~"}, !.max = <<5, 6, 7>>],
  editlines |-> [Base EXCEPT !.parts = <<{T("~"), C("c", None)}, {T("~"), C("c", <<A("~", "{", None)>>)}, {T("~"), Maths(1, "D", "I", <<T("x~")>>)}>>,
                         !.with = {"push", "chunk"}, !.edits = {"line"}, !.lines = 1..3, !.max = <<4, 5, 6>>],
  editwrong |-> [Base EXCEPT !.parts = <<{T("x"), C("d", None)}, {T("x"), C("begin", None)}, {T("x"), P("~~")}>>,
                         !.edits = {"set", "append"}, !.texts = {"%", "_~~", "("}, !.max = <<4, 5, 6>>],
  editbody |-> [Base EXCEPT !.parts = <<{T("$")}, {T("x~")}, {T("~x"), Sc("[", <<T("~")>>)}>>, !.secs = {"pre", "body", "tr"}, !.places = {1},
                         !.edits = {"set", "append", "drop"}, !.texts = {"~", "$"}, !.starts = {<<3, "~/begin{document}~x/end{document}~">>, <<3, "">>, <<3, "x">>}, !.max = <<3, 4, 4>>],
  editmany |-> [Base EXCEPT !.parts = <<{T("~"), C("c", None)}, {T("~x")}, {T("~x")}>>, !.max = <<2, 3, 4>>, !.places = {1, 258, 520},
                         !.edits = {"set", "append", "drop"}, !.texts = {"~"},
                         !.starts = {<<s, src, 260>> : s \in 1..3, src \in {"x~{}", "x$~$/c[~]~~"}}],
  edited |-> [Base EXCEPT !.parts = <<{T("~"), Begin("e")}, {T("~$")}, {P("~~"), Maths(1, "B", "O", <<T("~")>>)}>>, !.places = 1..3,
                         !.edits = {"set", "append", "drop"}, !.texts = {"~", "$"}, !.max = <<3, 4, 4>>,
                         !.starts = {<<s, src>> : s \in 1..3, src \in {"x~~y/begin{e}[~]$~$/end{e}~", "/c[~]{x~}~(~)y"}}]
]
EditFamilies == {"editmany", "edits", "editlines", "editwrong", "editbody", "edited"}
Begun(st) == LET s == S(st[2]) n == Len(s)
             IN IF Len(st) = 2 THEN s ELSE [i \in 1..(n * st[3]) |-> s[((i - 1) % n) + 1]]
AllFamilies == DOMAIN Def \ EditFamilies
F == Def[fam]

Again == [o |-> "again", sec |-> "", x |-> Text(0, None)]
Up == [Again EXCEPT !.o = "up"]
Down == [Again EXCEPT !.o = "down"]
Edits == LET at(os, xs) == [o : os, sec : IF g = 3 THEN F.secs ELSE {"pre"}, x : xs, at : F.places]
         IN at(F.edits \cap {"set"}, F.parts[g]) \cup at(F.edits \cap {"append"}, {T(t) : t \in F.texts})
            \cup at(F.edits \cap {"line"}, {Text(l, None) : l \in F.lines}) \cup at(F.edits \cap {"drop"}, {Text(0, None)})
Pushes == [o : F.with, sec : IF g = 3 THEN F.secs ELSE {"pre"}, x : F.parts[g]]

Init == /\ fam \in Families
        /\ start \in F.starts
        /\ g = start[1]
        /\ d = ParseAt(start[1], Begun(start)).v
        /\ hist = None /\ clean = (VerdictAt(g, d) = None) /\ edited = FALSE /\ last = Again

Try(op) ==
    /\ Len(hist) < F.max[Depth + 1]
    /\ Possible(g, d, op)
    /\ (op.o \in {"up", "down"} /\ edited) => Orderly(g, d)
    /\ edited' = (edited \/ IsEdit(op))
    /\ LET r == Deed(g, d, op)
       IN /\ g' = r.g /\ d' = r.d
          /\ hist' = Append(hist, [o |-> op.o, sec |-> op.sec, x |-> op.x, at |-> IF IsEdit(op) THEN op.at ELSE 0, why |-> r.why])
    /\ clean' = (clean /\ op.o \notin {"pushu", "chunku", "again"} /\ ~IsEdit(op))
    /\ last' = op
    /\ UNCHANGED <<fam, start>>
Accepted == hist'[Len(hist')].why = None
PushPart == \E op \in Pushes : Try(op) /\ Accepted
Edit == \E op \in Edits : Try(op)
PushRefused == \E op \in Pushes : Try(op) /\ ~Accepted
Raise == Try(Up) /\ Accepted
RaiseRefused == Try(Up) /\ ~Accepted
Lower == Try(Down)
Reparse == Try(Again) /\ Accepted
ReparseRefused == Try(Again) /\ ~Accepted
Next == Edit \/ PushPart \/ PushRefused \/ Raise \/ RaiseRefused \/ Lower \/ Reparse \/ ReparseRefused
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* C23 *)
\* whatever happened, chunks are on their lines and parts count their lines
Placed == ~edited => LinesAt(g, d)
Counted == LinesAgree(IF g = 3 THEN All3(d) ELSE All(d))
\* checked pushes and conversions keep a document valid
Valid == clean => VerdictAt(g, d) = None
\* raising is undone by lowering, and an accepted reparse has settled
Undone == (g < 3 /\ (edited => Orderly(g, d)) /\ VerdictAt(g, d) = None) => LET r == UpFrom(g, d) IN r.ok => DownFrom(g + 1, r.v) = d
Settled == LET r == ParseAt(g, TextAt(g, d)) IN r.ok => ParseAt(g, TextAt(g, r.v)) = r
\* the lines counted are those of the text (C24: edited as it may be)
Afresh == CountAt(g, d) = 1 + NL(TextAt(g, d))
\* each deed does what it says, to what it is done to only
Others(x, s) == IF g = 3 THEN [x EXCEPT ![s] = None, !.hb = TRUE] ELSE None
Kept(op, ok, h, e) ==     \* h, e: the document afterwards
    CASE ~ok -> h = g /\ e = d
      [] IsPush(op) -> /\ h = g
                       /\ Rs(SectionOf(g, e, op.sec)) = Rs(SectionOf(g, d, op.sec)) \o R(op.x)
                       /\ Others(e, op.sec) = Others(d, op.sec)
      [] IsEdit(op) ->
           LET a == SectionOf(g, d, op.sec) b == SectionOf(g, e, op.sec)
           IN /\ h = g
              /\ Others(e, op.sec) = Others(d, op.sec)
              /\ SubSeq(b, 1, op.at - 1) = SubSeq(a, 1, op.at - 1)
              /\ SubSeq(b, op.at + (IF op.o = "drop" THEN 0 ELSE 1), Len(b)) = SubSeq(a, op.at + 1, Len(a))
              /\ Rs(b) = Rs(SubSeq(a, 1, op.at - 1))
                         \o (CASE op.o = "set" -> R(op.x) [] op.o = "append" -> R(a[op.at]) \o op.x.s
                                [] op.o = "line" -> R(a[op.at]) [] op.o = "drop" -> None)
                         \o Rs(SubSeq(a, op.at + 1, Len(a)))
      [] op.o = "again" -> h = g /\ TextAt(g, e) = Strip(TextAt(g, d))
      [] OTHER -> TextAt(h, e) = TextAt(g, d)
Keeps == [][Kept(last', Accepted, g', d')]_vars

Line == ToJson([start |-> start, s |-> Begun(start), hist |-> hist, g |-> g, d |-> d, text |-> TextAt(g, d),
                 lines |-> CountAt(g, d), verdict |-> VerdictAt(g, d)])
Printed == (Emit /\ hist # None) => PrintT(Line)
=============================================================================
