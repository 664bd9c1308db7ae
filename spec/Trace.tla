-------------------------------- MODULE Trace ------------------------------
(* Recordings of the implementation, judged by the specification.  A       *)
(* recording is a file of runs, each a sequence of events: what was called *)
(* and what came of it.  The specification takes the events one by one,    *)
(* carrying the state they lead to; an event that it has no step for is    *)
(* rejected.  Judge names the property the events are held against, so     *)
(* that a deviation is reported for the property it concerns.              *)
(*                                                                         *)
(* Later stages are judged on what the implementation itself passes on:    *)
(* stage 2 must be the folding of the stage 1 tree the implementation      *)
(* made, and so on; acceptance, error lines, and what the source is        *)
(* expected to render to are judged on the source.                         *)
EXTENDS Calls, Views, Json, TLC, TLCExt, IOUtils

CONSTANT Judge

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES run, pos,
          want,      \* what the source parses to, by stage (specification)
          got,       \* the trees the implementation made of it, by stage
          src,
          secs, head, hb, clean, said,   \* documents built by pushes
          tree,      \* a tree built by hand
          held,      \* several documents, and what is told of them
          rejected
vars == <<run, pos, want, got, src, secs, head, hb, clean, said, tree, held, rejected>>

NoTree == [ok |-> FALSE, line |-> 0, kind |-> "", arg |-> <<>>]

Init == /\ run \in 1..Len(Runs)
        /\ pos = 1
        /\ want = <<NoTree, NoTree, NoTree>> /\ got = want /\ src = <<>>
        /\ secs = Empty3 /\ head = <<>> /\ hb = TRUE /\ clean = TRUE /\ said = Empty3
        /\ tree = <<>> /\ held = <<>> /\ rejected = FALSE

Events == Runs[run].ev
E == Events[pos]
Is(op) == ~rejected /\ pos <= Len(Events) /\ E.op = op

----------------------------------------------------------------------------
(* A claim is <<what, expected, found>>; a step is taken if all its claims *)
(* hold, and the run rejected at the first that does not.                  *)
Broken(claims) == SelectSeq(claims, LAMBDA c : c[2] # c[3])
Report(c) == PrintT(ToJson([reject |-> c[1], property |-> Judge, run |-> Runs[run].id, at |-> pos,
                            members |-> Runs[run].members,
                            op |-> E.op, g |-> E.g, expected |-> c[2], got |-> c[3]]))
Claim(p, what, expected, found) == IF Judge = p THEN <<<<what, expected, found>>>> ELSE <<>>
\* claims that are evaluated only where a condition holds
OnlyIf(c, claims) == IF c THEN claims ELSE <<>>
Must(p, what, fact) == Claim(p, what, TRUE, fact)

Settle(claims) ==
    LET b == Broken(claims)
    IN IF b = <<>> THEN pos' = pos + 1 /\ rejected' = FALSE
                   ELSE Report(b[1]) /\ pos' = pos /\ rejected' = TRUE

PushVars == <<secs, head, hb, clean, said>>
SourceVars == <<want, got, src>>

----------------------------------------------------------------------------
(* One source through the three stages *)
Source == /\ Is("source")
          /\ src' = E.s
          /\ want' = LET r1 == Parse1(E.s)
                         r2 == IF r1.ok THEN Up2(r1.v) ELSE r1
                         r3 == IF r2.ok THEN UpDoc3(r2.v) ELSE r2
                     IN <<r1, r2, r3>>
          /\ got' = <<NoTree, NoTree, NoTree>>
          /\ Settle(<<>>)
          /\ UNCHANGED <<run, held, PushVars, tree>>

Rendered(g, t) == IF g = 3 THEN RDoc3(t) ELSE Rs(t)
LinesOK(g, t) == IF g = 3 THEN LinesTrue3(t) ELSE LinesTrue(t)
\* a stage's tree, given the tree the implementation made one stage below
FromBelow(g) == CASE g = 2 -> Up2(got[1].v) [] g = 3 -> UpDoc3(got[2].v)
HasBelow(g) == g > 1 /\ got[g - 1].ok

\* what was accepted has no such fault: each opening is paired with what balances it
NoneOf(p, kinds, f) ==
    OnlyIf(~f.ok, Must(p, "every opening is paired with what balances it", f.kind \notin kinds))

TreeClaims(g, r) ==
    LET t == r.v
        w == want[g]
    IN CASE Judge = "C04" /\ g = 1 ->
              Must("C04", "shape of the stage 1 tree", Shape1(r))
              \o OnlyIf(w.ok, Claim("C04", "stage 1 tree", NoLines(w.v), NoLines(t)))
         [] Judge = "C05" /\ g = 2 ->
              Must("C05", "no begin or end is left over", Folded(r))
              \o OnlyIf(w.ok, Claim("C05", "environments of the source", Envs(All(w.v)), Envs(All(t))))
              \o OnlyIf(HasBelow(2),
                   LET f == FromBelow(2)
                   IN OnlyIf(f.ok, Claim("C05", "stage 2 tree", NoLines(f.v), NoLines(t)))
                      \o NoneOf("C05", {"UnexpectedEnd", "UnclosedEnvironment"}, f))
         [] Judge = "C06" /\ g = 3 ->
              Must("C06", "no maths delimiter is left outside its block", Delimited(r))
              \o OnlyIf(w.ok, Claim("C06", "maths blocks of the source", Blocks(All3(w.v)), Blocks(All3(t))))
              \o OnlyIf(HasBelow(3),
                   LET f == FromBelow(3)
                   IN OnlyIf(f.ok, Claim("C06", "maths blocks", View3("maths", f.v), View3("maths", t)))
                      \o NoneOf("C06", {"UnexpectedMathsEnd", "UnclosedMaths"}, f))
         [] Judge = "C07" /\ g = 3 ->
              Must("C07", "breaks are whole and texts hold none", BreaksWhole(r))
              \o OnlyIf(HasBelow(3),
                   LET f == FromBelow(3)
                   IN OnlyIf(f.ok /\ View3("bare", f.v) = View3("bare", t),
                             Claim("C07", "texts and paragraph breaks", BreakLists(f.v), BreakLists(t))))
         [] Judge = "C08" /\ g = 3 ->
              OnlyIf(w.ok, Claim("C08", "document environment, class and options", Heads(w.v), Heads(t)))
              \o OnlyIf(HasBelow(3),
                   LET f == FromBelow(3)
                   IN OnlyIf(f.ok, Claim("C08", "sections, class and options", SectionView(f.v, t), SectionView(t, f.v))))
         [] Judge = "C09" ->
              OnlyIf(Rendered(g, t) = Strip(src), Must("C09", "chunks are on the lines they start on", LinesOK(g, t)))
         [] OTHER -> <<>>
OutcomeClaims(g, r) ==
    Claim("C11", "outcome", Outcome(want[g]), Outcome(r))
    \o OnlyIf(Judge \in <<{"C01", "C04"}, {"C02", "C05"}, {"C03", "C06", "C07", "C08"}>>[g] /\ want[g].ok,
              <<<<"outcome of a well-formed source", Outcome(want[g]), Outcome(r)>>>>)
    \o OnlyIf(Judge = "C12" /\ ~want[g].ok /\ Outcome(r) = Outcome(want[g]),
              Claim("C12", "line of the error", want[g].line, r.line)
              \o Must("C12", "the construct is on the line", ErrorPlace(src, r)))

Parse == /\ Is("parse")
         /\ got' = [got EXCEPT ![E.g] = E.r]
         /\ Settle(OutcomeClaims(E.g, E.r) \o (IF E.r.ok THEN TreeClaims(E.g, E.r) ELSE <<>>))
         /\ UNCHANGED <<run, held, want, src, PushVars, tree>>

\* The conversion of the lower stage's tree: the same as parsing at once
RaiseTree == /\ Is("up")
         /\ Settle(OutcomeClaims(E.g, E.r) \o (IF E.r.ok THEN TreeClaims(E.g, E.r) ELSE <<>>))
         /\ UNCHANGED <<run, held, SourceVars, PushVars, tree>>

RoundTripOf(g) == <<"C01", "C02", "C03">>[g]
RenderParsed == /\ Is("text") /\ tree = <<>>
          /\ Settle(OnlyIf(Judge = RoundTripOf(E.g), Claim(RoundTripOf(E.g), "rendered text", Strip(src), E.t)))
          /\ UNCHANGED <<run, held, SourceVars, PushVars, tree>>

CountLines == /\ Is("lines")
         /\ Settle(OnlyIf(Judge = "C10", Must("C10", "lines are one more than the newlines",
                        SelectSeq(E.ns, LAMBDA x : x[1] # x[2] + 1) = <<>>)))
         /\ UNCHANGED <<run, held, SourceVars, PushVars, tree>>

ValidateParsed == /\ Is("valid") /\ tree = <<>>
             /\ LET t == got[E.g].v
                    cs == IF E.g = 3 THEN All3(t) ELSE All(t)
                IN Settle(OnlyIf(Judge = "C17" /\ got[E.g].ok,
                        Claim("C17", "verdict", IF E.g = 3 THEN VDoc3(t) ELSE VDoc(E.g, t), E.v)
                        \o Must("C17", "a parsed document is valid but for brackets and labels", ParsedValid(E.g, E.v, cs))))
             /\ UNCHANGED <<run, held, SourceVars, PushVars, tree>>

ParseAgain == /\ Is("again")
         /\ Settle(OnlyIf(Judge = "C18", Claim("C18", "reparsed document", got[E.g], E.r)))
         /\ UNCHANGED <<run, held, SourceVars, PushVars, tree>>

LowerTree == /\ Is("down")
         /\ LET p == <<"", "C14", "C15">>[E.g]
            IN Settle(OnlyIf(Judge = p, Claim(p, "lowered tree", got[E.g - 1], Ok(E.t))))
         /\ UNCHANGED <<run, held, SourceVars, PushVars, tree>>

----------------------------------------------------------------------------
(* Documents built by pushes *)
Start == /\ Is("start")
         /\ secs' = IF E.g = 3 THEN [pre |-> E.d.pre, body |-> E.d.body, tr |-> E.d.tr] ELSE [Empty3 EXCEPT !.pre = E.d]
         /\ said' = [pre |-> Rs(secs'.pre), body |-> Rs(secs'.body), tr |-> Rs(secs'.tr)]
         \* what is between preamble and body, and after the body
         /\ head' = IF E.g = 3 THEN <<E.d.p \o <<"{">> \o sDocument \o <<"}">> \o RArgs(E.d.args),
                                      E.d.q \o <<"{">> \o sDocument \o <<"}">>>> ELSE <<>>
         /\ hb' = E.hb
         /\ clean' = ((IF E.g = 3 THEN VDoc3(E.d) ELSE VDoc(E.g, E.d)) = <<>>)
         /\ Settle(<<>>)
         /\ UNCHANGED <<run, held, SourceVars, tree>>

Op == [o |-> E.o, sec |-> E.sec, x |-> E.x]
PushIs(os) == Is("do") /\ E.o \in os
WasRefused == E.e # <<>>
Reaches(s, h) ==
    <<<<"chunks after the operation", s, E.secs>>, <<"has_body after the operation", h, E.hb>>>>
SaidBy(h) == IF E.g = 3 /\ h
             THEN said'.pre \o <<"/">> \o sBegin \o head[1] \o said'.body \o <<"/">> \o sEnd \o head[2] \o said'.tr
             ELSE said'.pre \o said'.body \o said'.tr

AcceptedPush(os) ==
    /\ PushIs(os) /\ ~WasRefused
    /\ secs' = [secs EXCEPT ![E.sec] = After(@, Op)]
    /\ said' = [said EXCEPT ![E.sec] = @ \o R(E.x)]
    /\ hb' = (hb \/ E.sec # "pre")
    /\ clean' = (clean /\ IsChecked(Op))
    /\ UNCHANGED head
    /\ Settle(OnlyIf(Judge = "C16",
         <<<<"reasons to refuse an accepted push", IF IsChecked(Op) THEN Reasons(E.g, secs[E.sec], Op) ELSE <<>>, <<>>>>>>
         \o Reaches(secs', hb')
         \o <<<<"rendered text", SaidBy(hb'), E.t>>>>
         \o OnlyIf(clean', <<<<"validation after checked pushes", <<>>, E.v>>>>)))
    /\ UNCHANGED <<run, held, SourceVars, tree>>
RefusedPush(os) ==
    /\ PushIs(os) /\ WasRefused
    /\ UNCHANGED <<run, held, SourceVars, PushVars, tree>>
    /\ LET rs == IF IsChecked(Op) THEN Reasons(E.g, secs[E.sec], Op) ELSE <<>>
       IN Settle(OnlyIf(Judge = "C16",
            <<<<"a refused push has a reason", TRUE, rs # <<>>>>,
              <<"the reason told is one of them", TRUE, \E i \in 1..Len(rs) : rs[i] = E.e[1]>>>>
            \o Reaches(secs, hb)))

PushPart == AcceptedPush({"push"})
PushPartRefused == RefusedPush({"push"})
PushPartUnchecked == AcceptedPush({"pushu"})
PushChunk == AcceptedPush({"chunk"})
PushChunkRefused == RefusedPush({"chunk"})
PushChunkUnchecked == AcceptedPush({"chunku"})
PushInto == AcceptedPush({"into"})
UncheckedRefused == RefusedPush({"pushu", "chunku", "into"})

----------------------------------------------------------------------------
(* Trees built by hand *)
Built == /\ Is("built")
         /\ tree' = <<E.d>>
         /\ Settle(<<>>)
         /\ UNCHANGED <<run, held, SourceVars, PushVars>>
Seen == /\ Is("seen")
        /\ Settle(Claim("C19", "parts of the tree", tree[1], E.d))
        /\ UNCHANGED <<run, held, SourceVars, PushVars, tree>>
RenderBuilt == /\ (Is("text") \/ Is("lowtext")) /\ tree # <<>>
        /\ Settle(OnlyIf(Judge = "C19", Claim("C19", "rendered text", Rendered(E.g, tree[1]), E.t)))
        /\ UNCHANGED <<run, held, SourceVars, PushVars, tree>>
TotalLines == /\ Is("total")
        /\ Settle(OnlyIf(Judge = "C10", Claim("C10", "lines of the document", NL(Rendered(E.g, tree[1])) + 1, E.n)))
        /\ UNCHANGED <<run, held, SourceVars, PushVars, tree>>
ValidateBuilt == /\ Is("valid") /\ tree # <<>>
        /\ Settle(OnlyIf(Judge = "C17", Claim("C17", "verdict", IF E.g = 3 THEN VDoc3(tree[1]) ELSE VDoc(E.g, tree[1]), E.v)))
        /\ UNCHANGED <<run, held, SourceVars, PushVars, tree>>

\* Conversions of documents that are valid, with true lines, and no empty or
\* neighbouring texts
Convertible(g, t) == IF g = 3 THEN Neat(Lists3(t)) /\ LinesTrue3(t) /\ VDoc3(t) = <<>>
                              ELSE Neat(ListsOf(t)) /\ LinesTrue(t) /\ VDoc(g, t) = <<>>
ConversionClaims(g, expected) ==
    <<<<"converted document", expected, E.r>>>>
    \o OnlyIf(E.r.ok, <<<<"text of the converted document", Rendered(g, tree[1]), E.t>>>>)
Raise == /\ Is("raise")
         /\ tree' = IF E.r.ok THEN <<E.r.v>> ELSE <<>>
         /\ Settle(OnlyIf(Judge = "C20" /\ Convertible(E.g - 1, tree[1]),
                ConversionClaims(E.g - 1, IF E.g = 2 THEN Up2(tree[1]) ELSE UpDoc3(tree[1]))))
         /\ UNCHANGED <<run, held, SourceVars, PushVars>>
Lower == /\ Is("lowered")
         /\ tree' = <<E.r.v>>
         /\ Settle(OnlyIf(Judge = "C20" /\ Convertible(E.g + 1, tree[1]),
                ConversionClaims(E.g + 1, Ok(IF E.g = 1 THEN DownDoc1(tree[1]) ELSE DownDoc2(tree[1])))))
         /\ UNCHANGED <<run, held, SourceVars, PushVars>>

----------------------------------------------------------------------------
(* Lives of documents *)
Born == /\ Is("born")
        /\ tree' = <<E.d>>
        /\ Settle(<<>>)
        /\ UNCHANGED <<run, held, SourceVars, PushVars>>
Lives == Is("live")
\* what is raised is where it says
SoundDeed == IF Judge = "C24" THEN E.o \in {"up", "down"} => Orderly(E.g, tree[1])
             ELSE E.o = "up" => LinesAt(E.g, tree[1])
TheDeed == [o |-> E.o, sec |-> E.sec, x |-> E.x, at |-> E.at]
OfLives == Judge \in {"C23", "C24"}
LivesOn == /\ Lives /\ E.why = <<>>
           /\ tree' = <<E.d>>
           /\ Settle(OnlyIf(OfLives /\ SoundDeed,
                LET r == Deed(E.g, tree[1], TheDeed)
                IN <<<<"reasons not to", <<>>, r.why>>, <<"stage", r.g, E.ng>>, <<"the document after it", r.d, E.d>>,
                     <<"rendered text", TextAt(r.g, r.d), E.t>>>>))
           /\ UNCHANGED <<run, held, SourceVars, PushVars>>
LivesUnchanged == /\ Lives /\ E.why # <<>>
           /\ Settle(OnlyIf(OfLives /\ SoundDeed,
                LET r == Deed(E.g, tree[1], TheDeed)
                IN <<<<"the reason told is one there is", TRUE, \E i \in 1..Len(r.why) : r.why[i] = E.why[1]>>,
                     <<"stage", E.g, E.ng>>, <<"the document is unchanged", tree[1], E.d>>>>))
           /\ UNCHANGED <<run, held, SourceVars, PushVars, tree>>

\* what is told of the document follows from the parts it now has
Derived == /\ Is("derived")
           /\ Settle(OnlyIf(Judge = "C24",
                <<<<"lines counted", CountAt(E.g, tree[1]), E.n>>, <<"verdict", VerdictAt(E.g, tree[1]), E.v>>,
                  <<"equals the same built anew", 1, E.same>>>>))
           /\ UNCHANGED <<run, held, SourceVars, PushVars, tree>>

----------------------------------------------------------------------------
(* Parts converted on their own: raised, lowered, a list with its maths    *)
(* blocks found or its texts split into paragraphs                         *)
Delimits(g, x) == IF g = 1 THEN x.k = "C" /\ x.n \in {sBegin, sEnd}
                  ELSE \E c \in {"(", ")", "[", "]"} : IsCmd(x, c)
TopTrue(cs) == \A i \in 1..Len(cs) : cs[i].l = 1 + ExtraAll(SubSeq(cs, 1, i - 1))
SoundAlone(o, g, xs) ==
    /\ Neat(ListsOf(xs))
    /\ CASE o = "up" -> V(g, xs[1]) = <<>> /\ LinesTrueIn(xs[1]) /\ ~Delimits(g, xs[1])
         [] o = "down" -> V(g, xs[1]) = <<>> /\ LinesTrueIn(xs[1])
         [] o = "maths" -> VDoc(2, xs) = <<>> /\ LinesTrue(xs)
         [] o = "para" -> TopTrue(xs)
AloneOf(o, g, xs) ==
    CASE o = "up" -> LET u == IF g = 1 THEN Copy2(xs[1]) ELSE Copy3(xs[1])
                     IN IF u.ok THEN Ok(<<u.v>>) ELSE u
      [] o = "down" -> Ok(IF g = 2 THEN DownChunk1(xs[1]) ELSE Flat2(xs[1]))
      [] o = "maths" -> Up3(xs)
      [] o = "para" -> Ok(Para(xs))
Alone == /\ Is("alone")
         /\ Settle(OnlyIf(Judge = "C21" /\ SoundAlone(E.o, E.g, E.x),
                <<<<E.what, AloneOf(E.o, E.g, E.x), E.r>>>>))
         /\ UNCHANGED <<run, held, SourceVars, PushVars, tree>>

(* Comparisons: 1 where told equal, 0 where told different, 2 where the    *)
(* answers contradict each other; and clones.                              *)
Compare == /\ Is("pair")
        /\ LET told == IF E.a = E.b THEN 1 ELSE 0
           IN Settle(OnlyIf(Judge = "C22",
                <<<<"answers other than whether they are the same", <<>>, SelectSeq(E.r, LAMBDA r : r # told)>>>>))
        /\ UNCHANGED <<run, held, SourceVars, PushVars, tree>>
CloneOf == /\ Is("copy")
        /\ Settle(OnlyIf(Judge = "C22",
             <<<<"parts of the clone", E.a, E.seen>>, <<"equal to its clone", 1, E.eq>>,
               <<"unchanged by what its clone is put to", TRUE, E.free>>>>))
        /\ UNCHANGED <<run, held, SourceVars, PushVars, tree>>

----------------------------------------------------------------------------
(* Several documents called on by two threads.  Each call was also made    *)
(* alone, in a process of its own: what went wrong there too is no matter  *)
(* of C25.                                                                 *)
Meet == /\ Is("meet")
        /\ held' = E.all
        /\ Settle(<<>>)
        /\ UNCHANGED <<run, SourceVars, PushVars, tree>>
SpecDocs == [h \in 1..Len(held) |-> <<held[h].g, held[h].d>>]
\* is what is told of a document what the specification has told of d
TellsOf(l, d) == /\ l.g = d[1]
                 /\ l.d = d[2]
                 /\ l.text = TextAt(d[1], d[2])
                 /\ l.lines = CountAt(d[1], d[2])
                 /\ l.verdict = VerdictAt(d[1], d[2])
                 /\ l.same = 1
SameTold(a, b) == a.g = b.g /\ a = b
HasDoc(r) == "doc" \in DOMAIN r
\* r: why it was refused, and the document told of (not of a refused source)
FitsCall(w, r) == /\ IF w.why = <<>> THEN r.why = <<>> ELSE r.why # <<>> /\ \E i \in 1..Len(w.why) : w.why[i] = r.why[1]
                  /\ HasDoc(r) => TellsOf(r.doc, w.doc)
SameGiven(a, b) == /\ a.why = b.why
                   /\ HasDoc(a) = HasDoc(b)
                   /\ HasDoc(a) => SameTold(a.doc, b.doc)
GivenClaims(e) == LET w == Comes(SpecDocs, e.c)
                      fits == FitsCall(w, e.alone)
                  IN IF SameGiven(e.alone, e.r) THEN <<>>
                     ELSE <<<<IF fits THEN "what comes of a call" ELSE "what comes of a call made alone", ToJson(e.alone), ToJson(e.r)>>>>
Written == UNION {Writes(E.calls[i].c) : i \in {k \in 1..Len(E.calls) : E.calls[k].r.why = <<>>}}
CallsMade == /\ Is("calls")
             /\ held' = E.all
             /\ Settle(OnlyIf(Judge = "C25",
                  CatMap(GivenClaims, E.calls)
                  \o <<<<"documents not called on stay as they were", {},
                         {h \in 1..Len(held) : h \notin Written /\ ~SameTold(held[h], E.all[h])}>>,
                       <<"documents called on are what came of it", {},
                         {i \in 1..Len(E.calls) : HasDoc(E.calls[i].r) /\ ~SameTold(E.calls[i].r.doc, E.all[E.calls[i].c.h])}>>>>))
             /\ UNCHANGED <<run, SourceVars, PushVars, tree>>

----------------------------------------------------------------------------
(* A panic is no step of anything.                                         *)
PanicConcerns == CASE E.in \in {"parse", "up"} ->
                           {"C13", "C11"} \cup
                           (IF want[E.g].ok THEN <<{"C01", "C04"}, {"C02", "C05"}, {"C03", "C06", "C07", "C08"}>>[E.g] ELSE {})
                   [] E.in \in {"text", "seen"} -> {"C13", IF tree = <<>> THEN RoundTripOf(E.g) ELSE "C19"}
                   [] E.in = "lines" -> {"C13", "C10"}
                   [] E.in = "total" -> {"C10"}
                   [] E.in = "valid" -> {"C13", "C17"}
                   [] E.in = "again" -> {"C13", "C18"}
                   [] E.in = "down" -> {"C13", <<"", "C14", "C15">>[E.g]}
                   [] E.in = "lower" -> {"C19"}
                   [] E.in = "raise" -> IF Convertible(E.g - 1, tree[1]) THEN {"C20"} ELSE {}
                   [] E.in = "lowered" -> IF Convertible(E.g + 1, tree[1]) THEN {"C20"} ELSE {}
                   [] E.in \in {"pair", "copy"} -> {"C22"}
                   [] E.in = "live" -> IF SoundDeed THEN {"C23", "C24"} ELSE {}
                   [] E.in = "derived" -> {"C24"}
                   [] E.in = "meet" -> {}
                   [] OTHER -> {"C16"}
Panic == /\ Is("panic")
         /\ Settle(OnlyIf(Judge \in PanicConcerns, <<<<"no panic", "", E.what>>>>))
         /\ UNCHANGED <<run, held, SourceVars, PushVars, tree>>

Next == \/ Source \/ Parse \/ RaiseTree \/ RenderParsed \/ CountLines \/ ValidateParsed
        \/ ParseAgain \/ LowerTree
        \/ Start \/ PushPart \/ PushPartRefused \/ PushPartUnchecked \/ PushChunk
        \/ PushChunkRefused \/ PushChunkUnchecked \/ PushInto \/ UncheckedRefused
        \/ Built \/ Seen \/ RenderBuilt \/ TotalLines \/ ValidateBuilt \/ Raise \/ Lower
        \/ Born \/ LivesOn \/ LivesUnchanged \/ Derived
        \/ Alone \/ Compare \/ CloneOf
        \/ Meet \/ CallsMade
        \/ Panic
Spec == Init /\ [][Next]_vars

\* states of a run are told apart by where they are
Here == <<run, pos, rejected>>
\* every event of every run has been consumed, unless its run was rejected
Consumed == pos <= Len(Events) /\ ~rejected => ENABLED Next
=============================================================================
