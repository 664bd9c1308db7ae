------------------------------- MODULE Machine -----------------------------
(* Stages 2 and 3 as machines that take one rule at a time: where Up2 and  *)
(* UpDoc3 recur into a container, the machine suspends what it was doing   *)
(* on a stack.  Shown here: the two agree, nothing of the source is lost   *)
(* or moved at any moment, lines stay true, and every source comes to an   *)
(* end.  One action per rule.                                              *)
EXTENDS Props, Sources, TLC

CONSTANTS Picked,     \* names of the families of sources
          Depth

VARIABLES source,
          stack,      \* frames, the innermost last
          outcomes    \* results of the stages so far
vars == <<source, stack, outcomes>>

----------------------------------------------------------------------------
(* A frame: m the machine ("2" folding, "3" maths, "P" paragraphs,         *)
(* "D" sections), st its state, todo and chars what it has not read        *)
(* (inText: it is within a text chunk), pend the containers to be          *)
(* converted before it goes on, whole the text it was given                *)
Frame(m, st, cs) == [m |-> m, st |-> st, todo |-> cs, chars |-> <<>>, inText |-> FALSE,
                     pend |-> <<>>, whole |-> Rs(cs)]
StateOf(m) == CASE m = "2" -> Fold0 [] m = "3" -> Maths0 [] m = "D" -> Sec0
ChildOf(m) == IF m = "2" THEN "2" ELSE "3"

Up == stack[Len(stack)]
Put(f) == /\ stack' = [stack EXCEPT ![Len(stack)] = f]
          /\ UNCHANGED <<source, outcomes>>
On(m) == stack # <<>> /\ Up.m = m /\ Up.pend = <<>>
Failed(f) == f.m # "P" /\ f.st.err # <<>>

\* parts: <<chunks, lines before them>> to convert, for rule r
Suspend(r, parts) == Put([Up EXCEPT !.pend = <<[r |-> r, parts |-> parts, done |-> <<>>]>>])
ArgParts(as, off) == [i \in 1..Len(as) |->
                        <<as[i].c, off + ExtraArgs(SubSeq(as, 1, i - 1)) + NL(as[i].p)>>]
WithArgs(as, done) == [i \in 1..Len(as) |-> Arg(as[i].p, as[i].v, done[i])]
PartsOf(x) ==
    CASE x.k = "S" -> <<<<x.c, x.l - 1>>>>
      [] x.k = "C" -> ArgParts(x.a, x.l - 1 + NL(x.n))
      [] x.k = "E" -> LET off == x.l - 1 + NL(x.p) + NL(x.n)
                      IN Append(ArgParts(x.a, off), <<x.c, off + ExtraArgs(x.a)>>)
Rebuilt(x, done) ==
    CASE x.k = "S" -> Scope(x.l, x.v, done[1])
      [] x.k = "C" -> Cmd(x.l, x.n, WithArgs(x.a, done))
      [] x.k = "E" -> Env(x.l, x.n, WithArgs(x.a, done), done[Len(done)], x.p, x.q)

----------------------------------------------------------------------------
(* Folding *)
At2(r) == On("2") /\ ~Failed(Up) /\ Up.todo # <<>> /\ Rule2(Up.st, Head(Up.todo)) = r
By2(r) == At2(r) /\ Put([Up EXCEPT !.st = Step2(@, Head(Up.todo)), !.todo = Tail(@)])
FoldBuffer == By2("Buffer")
FoldNoLabel == By2("NoLabel")
FoldBeginNested == By2("BeginNested")
FoldBeginOuter == By2("BeginOuter")
FoldWrongEnd == By2("WrongEnd")
FoldEndArguments == By2("EndArguments")
FoldEndNested == By2("EndNested")
FoldCopyText == At2("Copy") /\ Head(Up.todo).k = "T" /\ By2("Copy")
FoldCopy == At2("Copy") /\ Head(Up.todo).k # "T" /\ Suspend("Copy", PartsOf(Head(Up.todo)))
FoldEndOuter ==
    /\ At2("EndOuter")
    /\ LET st == Up.st
           off == st.el - 1 + NL(st.p) + ExtraAll(Head(Up.todo).a[1].c)
       IN Suspend("EndOuter", Append(ArgParts(st.a, off), <<st.buf, st.bs - 1>>))

(* Maths *)
At3(r) == On("3") /\ ~Failed(Up) /\ ~Up.inText /\ Up.todo # <<>> /\ Rule3(Up.st, Head(Up.todo)) = r
By3(r) == At3(r) /\ Put([Up EXCEPT !.st = Step3(@, Head(Up.todo)), !.todo = Tail(@)])
StrayMathsEnd == By3("StrayMathsEnd")
BracketOpen == By3("BracketOpen")
BracketNest == By3("BracketNest")
BracketUnnest == By3("BracketUnnest")
BufferChunk == By3("BufferChunk")
Block(buf) == <<<<[i \in 1..Len(buf) |-> [buf[i] EXCEPT !.l = @ - (Up.st.bl - 1)]], Up.st.bl - 1>>>>
BracketClose == At3("BracketClose") /\ Suspend("BracketClose", Block(Up.st.buf))
CopyChunk == At3("CopyChunk") /\ Suspend("CopyChunk", PartsOf(Head(Up.todo)))
BeginText == /\ At3("TextChunk")
             /\ LET x == Head(Up.todo)
                IN Put([Up EXCEPT !.st.t = <<>>, !.st.tl = x.l, !.st.cl = x.l, !.todo = Tail(@),
                                  !.chars = x.s, !.inText = TRUE])
AtD(r) == On("3") /\ ~Failed(Up) /\ Up.inText /\ Up.chars # <<>> /\ RuleD(Up.st, Head(Up.chars)) = r
ByD(r) == AtD(r) /\ Put([Up EXCEPT !.st = StepD(@, Head(Up.chars)), !.chars = Tail(@)])
LoneDollar == ByD("LoneDollar")
TextOfMaths == ByD("TextChar")
DollarOpen == ByD("DollarOpen")
DollarDouble == ByD("DollarDouble")
DollarHalfClose == ByD("DollarHalfClose")
DollarClose == AtD("DollarClose") /\ Suspend("DollarClose", Block(BufText(Up.st)))
DollarsClose == AtD("DollarsClose") /\ Suspend("DollarsClose", Block(BufText(Up.st)))
EndText ==
    /\ On("3") /\ ~Failed(Up) /\ Up.inText /\ Up.chars = <<>>
    /\ LET s1 == Up.st
           s2 == IF s1.mode = "DC" THEN [s1 EXCEPT !.mode = "DD", !.t = Append(@, "$")] ELSE s1
           s3 == IF s2.t = <<>> THEN s2
                 ELSE IF s2.mode = "N" THEN [s2 EXCEPT !.out = Append(@, Text(s2.tl, s2.t)), !.t = <<>>]
                 ELSE [s2 EXCEPT !.buf = Append(@, Text(s2.tl, s2.t)), !.t = <<>>]
       IN Put([Up EXCEPT !.st = s3, !.inText = FALSE])
UnclosedMaths == /\ On("3") /\ ~Failed(Up) /\ ~Up.inText /\ Up.todo = <<>> /\ Up.st.mode # "N"
                 /\ Put([Up EXCEPT !.st.err = <<Fail(Up.st.bl, "UnclosedMaths", <<>>)>>])
ToParagraphs == /\ On("3") /\ ~Failed(Up) /\ ~Up.inText /\ Up.todo = <<>> /\ Up.st.mode = "N"
                /\ Put([Up EXCEPT !.m = "P", !.st = [out |-> <<>>, cur |-> <<>>], !.todo = Up.st.out])

(* Paragraphs *)
PassChunk == /\ On("P") /\ Up.st.cur = <<>> /\ Up.todo # <<>> /\ Head(Up.todo).k # "T"
             /\ Put([Up EXCEPT !.st.out = Append(@, Head(Up.todo)), !.todo = Tail(@)])
SplitText == /\ On("P") /\ Up.st.cur = <<>> /\ Up.todo # <<>> /\ Head(Up.todo).k = "T"
             /\ Put([Up EXCEPT !.st.cur = <<Para0(Head(Up.todo))>>, !.chars = Head(Up.todo).s, !.todo = Tail(@)])
ByP(r) == /\ On("P") /\ Up.st.cur # <<>> /\ Up.chars # <<>>
          /\ RuleP(Up.st.cur[1], Head(Up.chars)) = r
          /\ Put([Up EXCEPT !.st.cur = <<StepP(@[1], Head(Up.chars))>>, !.chars = Tail(@)])
FirstNewline == ByP("FirstNewline")
SecondNewline == ByP("SecondNewline")
FurtherNewline == ByP("FurtherNewline")
NewlineRun == ByP("NewlineRun")
SpaceInText == ByP("SpaceInText")
SpaceAfterNewline == ByP("SpaceAfterNewline")
CharInText == ByP("CharInText")
CharAfterNewline == ByP("CharAfterNewline")
CharAfterBreak == ByP("CharAfterBreak")
EndSplit == /\ On("P") /\ Up.st.cur # <<>> /\ Up.chars = <<>>
            /\ Put([Up EXCEPT !.st = [out |-> @.out \o FinishP(@.cur[1]), cur |-> <<>>]])

(* Sections *)
AtS(r) == On("D") /\ ~Failed(Up) /\ Up.todo # <<>> /\ RuleS(Up.st, Head(Up.todo)) = r
ByS(r) == AtS(r) /\ Put([Up EXCEPT !.st = StepS(@, Head(Up.todo)), !.todo = Tail(@)])
TrailingChunk == ByS("TrailingChunk")
SecondClass == ByS("SecondClass")
DocumentClass == ByS("DocumentClass")
PreambleChunk == ByS("PreambleChunk")
DocumentEnvironment == AtS("DocumentEnvironment") /\ Suspend("DocumentEnvironment", PartsOf(Head(Up.todo)))
ToSections == /\ On("D") /\ ~Failed(Up) /\ Up.todo = <<>>
              /\ Suspend("Sections", <<<<Up.st.pre, 0>>, <<Up.st.tr, Up.st.off>>>>)

----------------------------------------------------------------------------
(* Containers *)
Resumable == stack # <<>> /\ Up.pend # <<>>
Enter == /\ Resumable /\ Len(Up.pend[1].done) < Len(Up.pend[1].parts)
         /\ LET m == ChildOf(Up.m)
            IN stack' = Append(stack, Frame(m, StateOf(m), Up.pend[1].parts[Len(Up.pend[1].done) + 1][1]))
         /\ UNCHANGED <<source, outcomes>>

\* what rule r makes of the converted containers
Built(f, r, done) ==
    LET st == f.st
        go == [f EXCEPT !.pend = <<>>, !.todo = Tail(@)]
        closed == [st EXCEPT !.mode = "N", !.d = 0, !.buf = <<>>, !.t = <<>>, !.tl = st.cl]
    IN CASE r \in {"Copy", "CopyChunk"} -> [go EXCEPT !.st.out = Append(@, Rebuilt(Head(f.todo), done))]
         [] r = "EndOuter" ->
              LET x == Head(f.todo)
              IN [go EXCEPT !.st = [Fold0 EXCEPT !.out = Append(st.out,
                     Env(st.el, Rs(x.a[1].c), WithArgs(st.a, done), done[Len(done)], st.p, x.a[1].p))]]
         [] r = "BracketClose" ->
              [go EXCEPT !.st = [closed EXCEPT !.out = Append(@, Maths(st.bl, "B", IF st.mode = "B(" THEN "I" ELSE "O", done[1]))]]
         [] r \in {"DollarClose", "DollarsClose"} ->
              [f EXCEPT !.pend = <<>>, !.chars = Tail(@),
                        !.st = [closed EXCEPT !.out = Append(@, Maths(st.bl, "D", IF r = "DollarClose" THEN "I" ELSE "O", done[1]))]]
         [] r = "DocumentEnvironment" ->
              LET x == Head(f.todo)
              IN [go EXCEPT !.st.body = done[Len(done)], !.st.args = WithArgs(x.a, done), !.st.p = x.p, !.st.q = x.q,
                            !.st.trailing = TRUE, !.st.off = x.l + Lines(x) - 2]
Rebuild == /\ Resumable /\ Len(Up.pend[1].done) = Len(Up.pend[1].parts) /\ Up.pend[1].r # "Sections"
           /\ Put(Built(Up, Up.pend[1].r, Up.pend[1].done))

Finished(f) ==
    \/ Failed(f)
    \/ f.m = "2" /\ f.pend = <<>> /\ f.todo = <<>>
    \/ f.m = "P" /\ f.todo = <<>> /\ f.st.cur = <<>>
    \/ f.m = "D" /\ f.pend # <<>> /\ Len(f.pend[1].done) = 2 /\ f.pend[1].r = "Sections"
ResultOf(f) ==
    IF Failed(f) THEN f.st.err[1]
    ELSE CASE f.m = "2" -> IF f.st.stack = <<>> THEN Ok(f.st.out)
                           ELSE Fail(f.st.el, "UnclosedEnvironment", Rs(f.st.stack[1]))
           [] f.m = "P" -> Ok(f.st.out)
           [] f.m = "D" -> LET st == f.st
                               done == f.pend[1].done
                           IN Ok(Doc3(st.cls, st.opts, done[1], st.body, st.args, st.p, st.q, done[2], st.trailing))

Inner == stack # <<>> /\ Len(stack) > 1 /\ Finished(Up)
Under == stack[Len(stack) - 1]
PartUnder == Under.pend[1].parts[Len(Under.pend[1].done) + 1]
Return == /\ Inner /\ ResultOf(Up).ok
          /\ stack' = [Front(stack) EXCEPT ![Len(stack) - 1].pend[1].done = Append(@, ResultOf(Up).v)]
          /\ UNCHANGED <<source, outcomes>>
PassOn == /\ Inner /\ ~ResultOf(Up).ok
          /\ stack' = [Front(stack) EXCEPT ![Len(stack) - 1].pend = <<>>,
                                           ![Len(stack) - 1].st.err = <<Shift(ResultOf(Up), PartUnder[2])>>]
          /\ UNCHANGED <<source, outcomes>>
Outer == stack # <<>> /\ Len(stack) = 1 /\ Finished(Up)
NextStage == /\ Outer /\ Up.m = "2" /\ ResultOf(Up).ok
             /\ outcomes' = Append(outcomes, ResultOf(Up))
             /\ stack' = <<Frame("D", Sec0, ResultOf(Up).v)>>
             /\ UNCHANGED source
Stop == /\ Outer /\ (Up.m = "D" \/ ~ResultOf(Up).ok)
        /\ outcomes' = Append(outcomes, ResultOf(Up))
        /\ stack' = <<>>
        /\ UNCHANGED source

----------------------------------------------------------------------------
Init == \E f \in Picked : \E w0 \in Def[f].wraps, k \in 0..Def[f].max[Depth + 1] :
          \E typed \in [1..k -> Def[f].tok] :
            /\ source = w0[1] \o FlattenSeq(typed) \o w0[2]
            /\ outcomes = <<Parse1(source)>>
            /\ stack = IF outcomes[1].ok THEN <<Frame("2", Fold0, outcomes[1].v)>> ELSE <<>>

Next == \/ FoldBuffer \/ FoldNoLabel \/ FoldBeginNested \/ FoldBeginOuter \/ FoldWrongEnd
        \/ FoldEndArguments \/ FoldEndNested \/ FoldCopyText \/ FoldCopy \/ FoldEndOuter
        \/ StrayMathsEnd \/ BracketOpen \/ BracketNest \/ BracketUnnest \/ BufferChunk
        \/ BracketClose \/ CopyChunk \/ BeginText \/ LoneDollar \/ TextOfMaths \/ DollarOpen
        \/ DollarDouble \/ DollarHalfClose \/ DollarClose \/ DollarsClose \/ EndText
        \/ UnclosedMaths \/ ToParagraphs
        \/ PassChunk \/ SplitText \/ FirstNewline \/ SecondNewline \/ FurtherNewline \/ NewlineRun
        \/ SpaceInText \/ SpaceAfterNewline \/ CharInText \/ CharAfterNewline \/ CharAfterBreak \/ EndSplit
        \/ TrailingChunk \/ SecondClass \/ DocumentClass \/ PreambleChunk \/ DocumentEnvironment \/ ToSections
        \/ Enter \/ Rebuild \/ Return \/ PassOn \/ NextStage \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
(* The stages agree with the operators that everything else is built on *)
Agree == /\ Len(outcomes) >= 2 => outcomes[2] = Up2(outcomes[1].v)
         /\ Len(outcomes) = 3 => outcomes[3] = UpDoc3(outcomes[2].v)

(* C02, C03: what a frame holds is at every moment what it was given *)
ModeOpen(mode) == CASE mode = "N" -> <<>> [] mode = "D" -> <<"$">> [] mode \in {"DD", "DC"} -> <<"$", "$">>
                    [] mode = "B(" -> <<"/", "(">> [] mode = "B[" -> <<"/", "[">>
Holding(f) ==
    LET st == f.st IN
    (CASE f.m = "2" -> Rs(st.out) \o (IF st.stack = <<>> THEN <<>>
                         ELSE <<"/">> \o sBegin \o st.p \o <<"{">> \o Rs(st.stack[1]) \o <<"}">> \o RArgs(st.a) \o Rs(st.buf))
       [] f.m = "3" -> Rs(st.out) \o ModeOpen(st.mode) \o Rs(st.buf) \o st.t \o (IF st.mode = "DC" THEN <<"$">> ELSE <<>>)
       [] f.m = "P" -> Rs(st.out) \o (IF st.cur = <<>> THEN <<>> ELSE Rs(st.cur[1].out) \o st.cur[1].t \o st.cur[1].b)
       [] f.m = "D" -> Rs(st.pre) \o (IF st.trailing THEN REnv(sDocument, st.args, st.body, st.p, st.q) ELSE <<>>) \o Rs(st.tr))
    \o f.chars \o Rs(f.todo)
NothingLost == \A i \in 1..Len(stack) : Failed(stack[i]) \/ Holding(stack[i]) = stack[i].whole

(* C09: what has been put out is on its true line *)
OutTrue == \A i \in 1..Len(stack) :
             LET out == IF stack[i].m = "D" THEN stack[i].st.pre ELSE stack[i].st.out
             IN \A j \in 1..Len(out) : out[j].l = 1 + NL(Rs(SubSeq(out, 1, j - 1)))

(* What the modes mean *)
ModesKept == \A i \in 1..Len(stack) :
               LET f == stack[i]
                   st == f.st
               IN CASE f.m = "2" -> /\ st.stack = <<>> => st.buf = <<>> /\ st.a = <<>>
                                    /\ \A j \in 1..Len(st.buf) : st.buf[j].l >= 1
                    [] f.m = "3" -> /\ st.mode = "N" => st.buf = <<>> /\ st.d = 0
                                    /\ st.mode \in {"D", "DD", "DC"} => st.d = 0
                                    /\ st.mode \in {"B(", "B["} => st.d >= 1 /\ st.t = <<>>
                                    /\ st.mode = "DC" => f.inText
                                    /\ st.mode # "N" => st.bl >= 1
                    [] f.m = "P" -> st.cur # <<>> => (st.cur[1].n = 0 <=> st.cur[1].b = <<>>) /\ (st.cur[1].n >= 2 => st.cur[1].t = <<>>)
                    [] f.m = "D" -> ~st.trailing => st.tr = <<>> /\ st.body = <<>> /\ st.off = 0

(* C13: every source comes to an end, and stops only there *)
Ends == <>(stack = <<>>)
StopsAtEnd == stack # <<>> => ENABLED Next
=============================================================================
