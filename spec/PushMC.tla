------------------------------- MODULE PushMC ------------------------------
(* All short histories of pushes, from families of parts and operations.   *)
EXTENDS Push, Json, TLC

CONSTANTS Families, Depth, Emit

VARIABLES fam,
          hb0, hb,  \* has the document an environment, at first and now
          secs,
          hist,     \* operations so far
          said,     \* per section, what has been pushed
          clean,    \* no unchecked operation so far
          last      \* reasons the last operation was refused for

vars == <<fam, hb0, secs, hb, hist, said, clean, last>>

T(str) == Text(1, S(str))
P(str) == Break(1, S(str))
C(name, as) == Cmd(1, S(name), as)
A(p, v, c) == Arg(S(p), v, c)
Sc(v, c) == Scope(1, v, c)

\* Texts: with and without newlines at either end, empty, invalid
Texts == {T("a"), T("~"), T("_~"), T("~_"), T("a~b"), T(""), T("~~"), T("x/"), T("}"), T("a^~`")}
Commands == {C("c", <<>>), C("c", <<A("~", "{", <<T("a~b")>>), A("", "[", <<>>)>>), C("{", <<>>), C("a{", <<>>),
             C("!", <<>>), C("", <<>>), C("~", <<>>), C("c", <<A("", "(", <<T("%")>>)>>)}
Scopes == {Sc("{", <<>>), Sc("[", <<T("~")>>), Sc("(", <<C("c", <<>>), T("_~a"), Scope(2, "{", <<T("/")>>)>>)}
Labelled == {C("begin", <<A("", "{", <<T("e")>>)>>), C("end", <<>>)}
Envs == {Env(1, S("e"), <<>>, <<T("x")>>, <<>>, <<>>),
         Env(1, S("e~"), <<A("~", "[", <<T("a")>>)>>, <<T("~"), Cmd(2, S("c"), <<>>)>>, S("_~"), S("~")),
         Env(1, S("e{"), <<>>, <<>>, <<>>, <<>>),
         Env(1, S("e"), <<>>, <<C("end", <<>>)>>, <<>>, <<>>)}
Breaks == {P("~~"), P("~_~`"), P("~"), P("~a~"), P("")}
Blocks == {Maths(1, "D", "I", <<T("x")>>), Maths(1, "D", "O", <<T("~"), Cmd(2, S("c"), <<>>), Text(2, S("~"))>>),
           Maths(1, "B", "I", <<>>), Maths(1, "B", "O", <<T("%")>>)}

One == {"pre"}
Three == {"pre", "body", "tr"}
Ops(os, sec, xs) == [o : os, sec : sec, x : xs]

\* g: stage; start: the document begun with; ops; max: how many operations
Def == [
  any1 |-> [g |-> 1, ops |-> Ops({"push", "pushu"}, One, Texts \cup Commands \cup Scopes), max |-> <<2, 3, 3>>],
  any2 |-> [g |-> 2, ops |-> Ops({"push", "pushu"}, One, Texts \cup Commands \cup Scopes \cup Labelled \cup Envs), max |-> <<2, 3, 3>>],
  any3 |-> [g |-> 3, ops |-> Ops({"push", "pushu"}, One, Texts \cup Commands \cup Scopes \cup Labelled \cup Envs \cup Breaks \cup Blocks), max |-> <<2, 2, 3>>],
  texts1 |-> [g |-> 1, ops |-> Ops({"push"}, One, {T("a"), T("~"), T("a~_"), T("/"), C("c", <<>>), C("c", <<A("~", "{", <<>>)>>)}), max |-> <<5, 6, 7>>],
  texts3 |-> [g |-> 3, ops |-> Ops({"push"}, {"body"}, {T("a"), T("~"), T("_"), T("a~_"), T("^~b"), P("~~"), C("c", <<>>)}), max |-> <<5, 6, 7>>],
  lines1 |-> [g |-> 1, ops |-> Ops({"chunk", "chunku"}, One, {[x EXCEPT !.l = l] : l \in 0..3, x \in {T("a~"), Sc("[", <<T("~")>>), T("/")}})
                              \cup Ops({"push"}, One, {T("~b"), C("c", <<>>)}), max |-> <<3, 4, 4>>],
  lines2 |-> [g |-> 2, ops |-> Ops({"chunk", "chunku"}, One, {[x EXCEPT !.l = l] : l \in 0..3, x \in {T("a~"), Env(1, S("e"), <<>>, <<T("~")>>, <<>>, S("~")), C("end", <<>>)}})
                              \cup Ops({"push"}, One, {T("~b"), Env(1, S("e"), <<>>, <<>>, <<>>, <<>>)}), max |-> <<3, 4, 4>>],
  lines3 |-> [g |-> 3, ops |-> Ops({"chunk", "chunku"}, {"pre"}, {[x EXCEPT !.l = l] : l \in 0..3, x \in {T("a~"), P("~~"), T("~"), Maths(1, "D", "O", <<T("~")>>)}})
                              \cup Ops({"push"}, {"pre"}, {T("~b"), C("c", <<>>)}), max |-> <<3, 3, 4>>],
  sections3 |-> [g |-> 3, ops |-> Ops({"push", "pushu"}, Three, {T("a~"), T("/"), P("~~")}) \cup Ops({"chunk", "chunku"}, Three, {[T("~b") EXCEPT !.l = l] : l \in 1..2}),
                 max |-> <<3, 3, 4>>],
  runs1 |-> [g |-> 1, ops |-> Ops({"push", "pushu"}, One, {T("x@"), T("x."), T("_"), C("c", <<A("_@", "[", <<T("x@")>>)>>), Sc("(", <<T("x@y")>>)})
                             \cup Ops({"chunk"}, One, {[T("x") EXCEPT !.l = RunLen + 1]}) \cup Ops({"into"}, One, {Env(1, S("x@"), <<>>, <<T("x@")>>, S("_@"), <<>>)}), max |-> <<3, 4, 4>>],
  runs3 |-> [g |-> 3, ops |-> Ops({"push", "pushu"}, {"body"}, {T("x@"), T("x."), T("x_@_"), T("_~x"), T("x~"), T("x:"), P("_@"), C("c", <<A("_@", "[", <<T("x@")>>)>>), Env(1, S("e"), <<>>, <<T("x@")>>, S("_@"), S("`@"))})
                             \cup Ops({"chunk"}, {"body"}, {[T("x") EXCEPT !.l = RunLen + 1]}), max |-> <<3, 3, 4>>],
  into1 |-> [g |-> 1, ops |-> Ops({"into"}, One, {T("a~"), C("c", <<A("~", "{", <<Env(1, S("f"), <<>>, <<T("~")>>, <<>>, <<>>)>>)>>),
                                                  Env(1, S("e"), <<A("~", "[", <<T("a")>>)>>, <<T("~"), Cmd(2, S("c"), <<>>), Text(2, S("_"))>>, S("_~"), S("~")),
                                                  Env(3, S("e"), <<>>, <<>>, <<>>, <<>>), Sc("(", <<Env(1, S("f"), <<>>, <<T("~")>>, <<>>, <<>>), Text(2, S("x"))>>)})
                             \cup Ops({"push", "pushu"}, One, {T("~b"), C("c", <<>>)}), max |-> <<4, 5, 5>>]
]
AllFamilies == DOMAIN Def
G == Def[fam].g

Init == /\ fam \in Families
        /\ secs = Empty3
        \* stage 3: the default document, or one parsed from nothing
        /\ hb0 \in (IF G = 3 THEN {TRUE, FALSE} ELSE {TRUE})
        /\ hb = hb0
        /\ hist = <<>> /\ clean = TRUE /\ last = <<>>
        /\ said = Empty3

Room == Len(hist) < Def[fam].max[Depth + 1]

Do(op) == /\ hist' = Append(hist, op)
          /\ last' = <<>>
          /\ secs' = [secs EXCEPT ![op.sec] = After(@, op)]
          /\ said' = [said EXCEPT ![op.sec] = @ \o R(op.x)]
          /\ hb' = (hb \/ op.sec # "pre")
          /\ clean' = (clean /\ IsChecked(op))
          /\ UNCHANGED <<fam, hb0>>
Accept(o) == Room /\ \E op \in Def[fam].ops : op.o = o /\ ~Refused(G, secs[op.sec], op) /\ Do(op)
Refuse(o) == Room /\ \E op \in Def[fam].ops :
                        /\ op.o = o /\ Refused(G, secs[op.sec], op)
                        /\ hist' = Append(hist, op)
                        /\ last' = Reasons(G, secs[op.sec], op)
                        /\ UNCHANGED <<fam, hb0, secs, hb, said, clean>>

Push == Accept("push")
PushRefused == Refuse("push")
PushUnchecked == Accept("pushu")
PushChunk == Accept("chunk")
PushChunkRefused == Refuse("chunk")
PushChunkUnchecked == Accept("chunku")
PushInto == Accept("into")

Next == Push \/ PushRefused \/ PushUnchecked \/ PushChunk \/ PushChunkRefused
        \/ PushChunkUnchecked \/ PushInto
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Sections == {"pre", "body", "tr"}
\* C16
Consistent == clean => /\ Verdict(G, secs, hb) = <<>>
                       /\ \A s \in Sections : LinesTrue(secs[s])
Said == \A s \in Sections : Rs(secs[s]) = said[s]
Merged == \A s \in Sections : NoAdjacentTexts(secs[s])
Counted == \A s \in Sections : LinesAgree(All(secs[s]))
RefusedUnchanged == [][last' # <<>> => UNCHANGED <<secs, hb, said>>]_vars

Line == ToJson([g |-> G, hb0 |-> hb0, hist |-> hist, bad |-> [i \in 1..Len(hist) |-> V(G, hist[i].x) # <<>>],
                last |-> last, secs |-> secs, hb |-> hb, clean |-> clean,
                v |-> Verdict(G, secs, hb)])
Printed == (Emit /\ hist # <<>>) => PrintT(Line)
=============================================================================
