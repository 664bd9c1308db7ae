-------------------------------- MODULE Props ------------------------------
(* The properties of properties.jsonl that speak about one source text,    *)
(* as predicates on the source and the results of the three stages.        *)
EXTENDS Stage3

Abs(x) == IF x < 0 THEN -x ELSE x

\* C01-C03 rendering gives back the source without its comments
RoundTrip1(s, r) == r.ok => Rs(r.v) = Strip(s)
RoundTrip2(s, r) == r.ok => Rs(r.v) = Strip(s)
RoundTrip3(s, r) == r.ok => RDoc3(r.v) = Strip(s)

\* C04 shape of stage 1 lists
IsSpaces(s) == ~HasChar(s, LAMBDA c : ~IsSpace(c))
LabelOK(n) ==
    \/ n = <<>>
    \/ Len(n) = 1 /\ ~IsLetter(n[1])
    \/ IsLetter(n[1]) /\ \A i \in 1..Len(n) : ~IsSpace(n[i]) /\ n[i] \notin Bracket \cup {"/"}
Shape1In(cs, i) ==
    LET x == cs[i]
        last == i = Len(cs)
    IN CASE x.k = "T" ->
              /\ x.s # <<>>
              \* maximal: the next chunk is not text
              /\ ~last => cs[i + 1].k # "T"
              \* the only brackets left in text are closing ones
              /\ ~HasChar(x.s, LAMBDA c : c \in Opening \cup {"/"})
              \* text after a command starts with whitespace only where an
              \* argument could have followed
         [] x.k = "C" ->
              /\ LabelOK(x.n)
              /\ x.n = <<>> => last
              /\ (x.n = <<>> \/ ~IsLetter(x.n[1])) => x.a = <<>>
              /\ \A j \in 1..Len(x.a) : IsSpaces(x.a[j].p)
              \* what follows is not a group belonging to the command
              /\ (x.n # <<>> /\ IsLetter(x.n[1]) /\ ~last) =>
                    /\ cs[i + 1].k # "S"
                    /\ (cs[i + 1].k = "T" /\ IsSpaces(cs[i + 1].s) /\ i + 2 <= Len(cs)) => cs[i + 2].k # "S"
                    /\ (x.a = <<>> /\ cs[i + 1].k = "T") => IsSpace(cs[i + 1].s[1])
         [] x.k = "S" -> TRUE
         [] OTHER -> FALSE
ShapeList1(cs) == \A i \in 1..Len(cs) : Shape1In(cs, i)
Shape1(r) == r.ok => LET ls == ListsOf(r.v) IN \A i \in 1..Len(ls) : ShapeList1(ls[i])

\* C05 no begin or end is left over, stage 1 is what environments unfold to
Folded(r) == r.ok => LET cs == All(r.v) IN
                     \A i \in 1..Len(cs) : cs[i].k = "C" => cs[i].n # sBegin /\ cs[i].n # sEnd

\* C06 no delimiter is left outside its block
NoDelimiter(cs) == \A i \in 1..Len(cs) :
                      CASE cs[i].k = "T" -> ~HasChar(cs[i].s, LAMBDA c : c = "$")
                        [] cs[i].k = "C" -> cs[i].a = <<>> => cs[i].n \notin {<<"(">>, <<")">>, <<"[">>, <<"]">>}
                        [] OTHER -> TRUE
Delimited(r) == r.ok => NoDelimiter(All3(r.v))

\* C07 breaks are whole, texts hold none
ParaList(cs) == \A i \in 1..Len(cs) :
                   CASE cs[i].k = "P" -> /\ IsSpaces(cs[i].s) /\ IsNL(cs[i].s[1]) /\ NL(cs[i].s) >= 2
                                         \* up to the next non-whitespace or the end of the run
                                         /\ i < Len(cs) => cs[i + 1].k # "P"
                                         /\ (i < Len(cs) /\ cs[i + 1].k = "T") => ~IsSpace(cs[i + 1].s[1])
                     [] cs[i].k = "T" -> /\ BreakAt(cs[i].s) = 0 /\ cs[i].s # <<>>
                                         \* the text before a break has no newline at its end
                                         /\ (i < Len(cs) /\ cs[i + 1].k = "P") =>
                                               LET t == TrimmedTo(cs[i].s)
                                               IN NL(SubSeq(cs[i].s, t + 1, Len(cs[i].s))) = 0
                     [] OTHER -> TRUE
Lists3(d) == ListsOf(d.pre) \o ListsOf(d.body) \o ListsOf(d.tr)
             \o CatMap(LAMBDA a : ListsOf(a.c), d.args)
BreaksWhole(r) == r.ok => LET ls == Lists3(r.v) IN \A i \in 1..Len(ls) : ParaList(ls[i])

\* C08 options concatenate to the source of the option arguments
ClassCmds(cs) == SelectSeq(cs, LAMBDA x : x.k = "C" /\ x.n = sDocumentclass)
OptionArgs(cs) == CatMap(LAMBDA x : SelectSeq(x.a, LAMBDA a : a.v # "{"), ClassCmds(cs))
CurlyArgs(cs) == CatMap(LAMBDA x : SelectSeq(x.a, LAMBDA a : a.v = "{"), ClassCmds(cs))
NoComma(s) == ~HasChar(s, LAMBDA c : c = ",")
OptionShape(o) == /\ IsSpaces(o.p) /\ IsSpaces(o.q)
                  /\ o.k # <<>> => ~IsSpace(o.k[1]) /\ ~IsSpace(o.k[Len(o.k)])
                  /\ o.e # <<>> => /\ IsSpaces(o.e[1].p) /\ IsSpaces(o.e[1].q)
                                   /\ o.e[1].v # <<>> => ~IsSpace(o.e[1].v[1]) /\ ~IsSpace(o.e[1].v[Len(o.e[1].v)])
                  /\ ~HasChar(o.k, LAMBDA c : c = "=")
                  /\ NoComma(ROption(o))
Sections(r2, r) ==
    r.ok => LET d == r.v
                isDoc(x) == x.k = "E" /\ x.n = sDocument
                i == FirstIdx(r2.v, isDoc)
                \* top-level chunks before the body
                before == IF i = 0 THEN r2.v ELSE SubSeq(r2.v, 1, i - 1)
            IN /\ d.hb <=> i # 0
               /\ i = 0 => Rs(d.pre) = Rs(r2.v) /\ d.body = <<>> /\ d.tr = <<>> /\ d.args = <<>>
               /\ i # 0 => /\ Rs(d.pre) = Rs(before)
                           /\ Rs(d.body) = Rs(r2.v[i].c)
                           /\ RArgs(d.args) = RArgs(r2.v[i].a)
                           /\ d.p = r2.v[i].p /\ d.q = r2.v[i].q
                           /\ Rs(d.tr) = Rs(SubSeq(r2.v, i + 1, Len(r2.v)))
               /\ \A j \in 1..Len(d.opts) : OptionShape(d.opts[j])
               /\ Len(CurlyArgs(before)) <= 1
               /\ d.cls = [j \in 1..Len(CurlyArgs(before)) |-> Rs(CurlyArgs(before)[j].c)]
               /\ LET as == OptionArgs(before)
                      pieces == CatMap(LAMBDA a : SplitAt(Rs(a.c), ","), as)
                  IN [j \in 1..Len(d.opts) |-> ROption(d.opts[j])] = pieces

\* C09, C10
TrueLines(r1, r2, r3) == /\ r1.ok => LinesTrue(r1.v)
                         /\ r2.ok => LinesTrue(r2.v)
                         /\ r3.ok => LinesTrue3(r3.v)
CountedLines(r1, r2, r3) ==
    /\ r1.ok => LinesAgree(All(r1.v)) /\ LinesOf(r1.v) = 1 + NL(Rs(r1.v))
    /\ r2.ok => LinesAgree(All(r2.v)) /\ LinesOf(r2.v) = 1 + NL(Rs(r2.v))
    /\ r3.ok => LinesAgree(All3(r3.v)) /\ LinesDoc3(r3.v) = 1 + NL(RDoc3(r3.v))

\* C11 a stage rejects what the stage before rejects, for the same reason
Cumulative(r1, r2, r3) == /\ ~r1.ok => r2 = r1
                          /\ ~r2.ok => r3 = r2

\* C12 errors are in the source, on a line holding what they complain about
OnLine(s, r, what) == \E i \in 1..Len(s) :
                          /\ NL(SubSeq(s, 1, i - 1)) = r.line - 1
                          /\ i + Len(what) - 1 <= Len(s)
                          /\ SubSeq(s, i, i + Len(what) - 1) = what
ErrorPlace(s, r) ==
    ~r.ok =>
        /\ r.line \in 1..(NL(s) + 1)
        /\ CASE r.kind = "UnclosedScope" -> OnLine(s, r, r.arg)
             [] r.kind = "UnexpectedClosing" -> OnLine(s, r, <<CloseOf(r.arg[1])>>)
             [] r.kind = "UnclosedArgument" -> OnLine(s, r, <<"/">>)
             [] r.kind = "UnclosedEnvironment" -> OnLine(s, r, <<"/">> \o sBegin)
             [] r.kind \in {"UnexpectedEnd", "TooManyArgsEnd"} -> OnLine(s, r, <<"/">> \o sEnd)
             [] r.kind = "NoEnvironmentLabel" ->
                  OnLine(s, r, <<"/">> \o sBegin) \/ OnLine(s, r, <<"/">> \o sEnd)
             [] r.kind \in {"DoubleDocumentClass", "TooManyArgsDocumentClass"} ->
                  OnLine(s, r, <<"/">> \o sDocumentclass)
             [] r.kind = "UnexpectedMathsEnd" -> OnLine(s, r, <<"/", ")">>) \/ OnLine(s, r, <<"/", "]">>)
             [] r.kind = "UnclosedMaths" ->
                  \/ OnLine(s, r, <<"$">>) \/ OnLine(s, r, <<"/", "(">>) \/ OnLine(s, r, <<"/", "[">>)

\* C14, C15
Lowered1(r1, r2) == r2.ok => DownDoc1(r2.v) = r1.v
Lowered2(r2, r3) == r3.ok => DownDoc2(r3.v) = r2.v

\* C17 parsed documents are valid but for closing brackets and labels
ParsedValid(g, v, cs) ==
    \/ v = <<>>
    \/ /\ v[1].kind = "UnsanitisedCharInString"
       /\ \/ v[1].arg[1] \in Closing
          \/ \E i \in 1..Len(cs) : cs[i].k = "E" /\ HasChar(cs[i].n, LAMBDA c : c = v[1].arg[1])
ValidParsed(r1, r2, r3) ==
    /\ r1.ok => ParsedValid(1, VDoc(1, r1.v), All(r1.v))
    /\ r2.ok => ParsedValid(2, VDoc(2, r2.v), All(r2.v))
    /\ r3.ok => ParsedValid(3, VDoc3(r3.v), All3(r3.v))

\* C18
Reparsed1(r) == r.ok => Parse1(Rs(r.v)) = r
Reparsed2(r) == r.ok => Parse2(Rs(r.v)) = r
Reparsed3(r) == r.ok => Parse3(RDoc3(r.v)) = r
=============================================================================
