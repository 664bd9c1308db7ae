------------------------------- MODULE Explore -----------------------------
(* Sources are typed token by token and read character by character by the *)
(* stage 1 machine, one action per rule of its loop.  Whenever a token has *)
(* been read the source so far, closed by the suffix of its wrapping, is a *)
(* complete source: the properties are checked on the results of the three *)
(* stages, and (Emit) the source and the results are printed for replay    *)
(* against the implementation.                                             *)
EXTENDS Props, Json, TLC

CONSTANTS Families,   \* names of the families of sources to explore
          TokensOf(_),  \* the texts sources of a family are made of
          MaxOf(_),     \* how many of them
          WrapsOf(_),   \* <<prefix, suffix>> pairs put around them
          Bulk,         \* families of big sources: tokens are read at once
          Checks,     \* names of the properties to check
          Emit        \* results to print: "s", "1", "2", "3", "v"

VARIABLES fam,        \* the family
          w,          \* the wrapping
          typed,      \* tokens so far, concatenated
          n,          \* how many
          inp,        \* characters typed but not read
          st          \* stage 1 machine

vars == <<fam, w, typed, n, inp, st>>
\* the machine is a function of what it has read
View == <<fam, w, typed, inp>>

\* the prefix of the wrapping is typed first
Init == /\ typed = <<>> /\ n = 0
        /\ fam \in Families
        /\ w \in WrapsOf(fam)
        /\ inp = w[1]
        /\ st = Lex0

Type == /\ inp = <<>> /\ n < MaxOf(fam) /\ st.err = <<>>
        /\ \E t \in TokensOf(fam) : inp' = t /\ typed' = typed \o t
        /\ n' = n + 1
        /\ UNCHANGED <<fam, w, st>>

\* Read one character by rule r
Read(r) == /\ inp # <<>> /\ fam \notin Bulk
           /\ RuleOf(st, Head(inp)) = r
           /\ st' = Step(st, Head(inp))
           /\ inp' = Tail(inp)
           /\ UNCHANGED <<fam, w, typed, n>>

\* Read all that has been typed
ReadWhole == /\ inp # <<>> /\ fam \in Bulk
             /\ st' = Feed(st, inp)
             /\ inp' = <<>>
             /\ UNCHANGED <<fam, w, typed, n>>

Rejected == Read("Rejected")
SkipComment == Read("SkipComment")
EnterComment == Read("EnterComment")
Backslash == Read("Backslash")
CommandFromText == Read("CommandFromText")
OpenScope == Read("OpenScope")
TextChar == Read("TextChar")
ScopeEscaped == Read("ScopeEscaped")
ScopeNest == Read("ScopeNest")
ScopeClose == Read("ScopeClose")
ScopeUnnest == Read("ScopeUnnest")
ScopeChar == Read("ScopeChar")
CommandFromCommand == Read("CommandFromCommand")
OpenArgument == Read("OpenArgument")
TrailingSpace == Read("TrailingSpace")
ArgumentEscaped == Read("ArgumentEscaped")
TextAfterSpace == Read("TextAfterSpace")
ArgumentNest == Read("ArgumentNest")
ArgumentClose == Read("ArgumentClose")
ArgumentUnnest == Read("ArgumentUnnest")
ArgumentChar == Read("ArgumentChar")
StrayClosing == Read("StrayClosing")
TextAfterArgument == Read("TextAfterArgument")
LabelChar == Read("LabelChar")

Next == \/ Type \/ ReadWhole
        \/ Rejected \/ SkipComment \/ EnterComment \/ Backslash \/ CommandFromText
        \/ OpenScope \/ TextChar \/ ScopeEscaped \/ ScopeNest \/ ScopeClose
        \/ ScopeUnnest \/ ScopeChar \/ CommandFromCommand \/ OpenArgument
        \/ TrailingSpace \/ ArgumentEscaped \/ TextAfterSpace \/ ArgumentNest
        \/ ArgumentClose \/ ArgumentUnnest \/ ArgumentChar \/ StrayClosing
        \/ TextAfterArgument \/ LabelChar

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Complete == inp = <<>>
Source == w[1] \o typed \o w[2]
R1 == Finish(Feed(st, w[2]))
R2Of(r1) == IF r1.ok THEN Up2(r1.v) ELSE r1
R3Of(r2) == IF r2.ok THEN UpDoc3(r2.v) ELSE r2

\* The named checks of a source
Holds(p, s, r1, r2, r3) ==
    CASE p = "Restart" -> r1 = Parse1(s)
      [] p = "RoundTrip1" -> RoundTrip1(s, r1)
      [] p = "RoundTrip2" -> RoundTrip2(s, r2)
      [] p = "RoundTrip3" -> RoundTrip3(s, r3)
      [] p = "Shape1" -> Shape1(r1)
      [] p = "Folded" -> Folded(r2)
      [] p = "Delimited" -> Delimited(r3)
      [] p = "BreaksWhole" -> BreaksWhole(r3)
      [] p = "Sections" -> Sections(r2, r3)
      [] p = "TrueLines" -> TrueLines(r1, r2, r3)
      [] p = "CountedLines" -> CountedLines(r1, r2, r3)
      [] p = "Cumulative" -> Cumulative(r1, r2, r3)
      [] p = "ErrorPlace" -> ErrorPlace(s, r1) /\ ErrorPlace(s, r2) /\ ErrorPlace(s, r3)
      [] p = "Lowered1" -> Lowered1(r1, r2)
      [] p = "Lowered2" -> Lowered2(r2, r3)
      [] p = "ValidParsed" -> ValidParsed(r1, r2, r3)
      [] p = "Reparsed1" -> Reparsed1(r1)
      [] p = "Reparsed2" -> Reparsed2(r2)
      [] p = "Reparsed3" -> Reparsed3(r3)

\* Results as printed: 0 is not given, 1 the same as the stage before, 2 an
\* accepted source of which only that is told ("o": outcomes)
Opt(name, x) == IF name \in Emit THEN x ELSE 0
Short(r) == IF r.ok THEN 2 ELSE r
Line(s, r1, r2, r3) ==
    LET short == "o" \in Emit IN
    ToJson([d |-> s,
            s |-> Opt("s", Strip(s)),
            r1 |-> IF short THEN Short(r1) ELSE Opt("1", r1),
            r2 |-> IF short THEN Short(r2) ELSE Opt("2", IF "1" \in Emit /\ r2 = r1 THEN 1 ELSE r2),
            r3 |-> IF short THEN Short(r3) ELSE Opt("3", IF "2" \in Emit /\ ~r3.ok /\ r3 = r2 THEN 1 ELSE r3),
            v |-> Opt("v", <<IF r1.ok THEN VDoc(1, r1.v) ELSE <<>>,
                             IF r2.ok THEN VDoc(2, r2.v) ELSE <<>>,
                             IF r3.ok THEN VDoc3(r3.v) ELSE <<>>>>)])

Good == Complete =>
    LET s == Source
        r1 == R1
        r2 == R2Of(r1)
        r3 == R3Of(r2)
    IN /\ \A p \in Checks : Assert(Holds(p, s, r1, r2, r3), <<p, s>>)
       /\ (Emit # {}) => PrintT(Line(s, r1, r2, r3))
=============================================================================
