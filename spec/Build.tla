-------------------------------- MODULE Build ------------------------------
(* Trees built by hand through the public constructors: containers are     *)
(* opened, filled and closed in any order.  At every moment the tree got   *)
(* by closing what is open is checked, and printed for replay.             *)
EXTENDS Props, Json, TLC

CONSTANTS Families, Depth, Emit

VARIABLES fam,
          stack,    \* open containers, outermost (the document) first
          n         \* steps so far
vars == <<fam, stack, n>>

None == <<>>
\* A container: k "D"ocument, "A"rgument or a kind of chunk, with what is
\* written before its content, arguments a, chunks c; secs: the finished
\* sections of a document
Frame(k, v, t, nm, p, q) == [k |-> k, v |-> v, t |-> t, n |-> nm, p |-> p, q |-> q,
                             a |-> None, c |-> None, secs |-> None]

----------------------------------------------------------------------------
(* Families.  g: stage; texts, breaks: as given; cmds: command names; envs: *)
(* <<label, before label of begin, of end>>; maths: <<variant, type>>;      *)
(* args: <<before, bracket>>; scopes: brackets; off: by how much the line   *)
(* of a text may be wrong; parts: chunks as a whole; neat: texts are not    *)
(* empty and do not follow each other, and conversions are printed; wide:   *)
(* so many options and arguments the document begins with; max: steps       *)
TT(xs) == Ss(xs)
Envs(xs) == {<<S(x[1]), S(x[2]), S(x[3])>> : x \in xs}
Args(xs) == {<<S(x[1]), x[2]>> : x \in xs}
AllMaths == {<<"D", "I">>, <<"D", "O">>, <<"B", "I">>, <<"B", "O">>}
Base == [g |-> 1, texts |-> {}, breaks |-> {}, cmds |-> {}, envs |-> {}, maths |-> {}, args |-> {},
         scopes |-> {}, off |-> {0}, parts |-> {}, neat |-> FALSE, wide |-> 0, max |-> <<3, 4, 5>>]

kinds1 == [Base EXCEPT !.texts = TT({"a", "~"}), !.cmds = TT({"c", ""}), !.args = Args({<<"", "{">>, <<"~", "[">>}),
                       !.scopes = {"{", "(", "["}, !.max = <<4, 5, 6>>]
kinds2 == [kinds1 EXCEPT !.g = 2, !.envs = Envs({<<"e", "", "">>, <<"f~", "~", "_~">>}), !.cmds = TT({"c"})]
kinds3 == [kinds2 EXCEPT !.g = 3, !.breaks = TT({"~~"}), !.maths = AllMaths, !.scopes = {"{"}, !.max = <<3, 4, 5>>]

invalid1 == [Base EXCEPT !.texts = TT({"a", "x/", "%", ")", "~[", "{"}),
                         !.cmds = TT({"c", "{", "a{", "/", "//", "", "begin", "end", "!", "|%", "^]", "("}),
                         !.args = Args({<<"", "(">>}), !.scopes = {"["}, !.max = <<3, 4, 4>>]
invalid2 == [invalid1 EXCEPT !.g = 2, !.envs = Envs({<<"e", "", "">>, <<"%", "", "">>, <<"a}", "_", "">>, <<"a%~", "", "">>, <<"/c~{", "", "">>, <<"/c{x}", "", "">>}),
                             !.texts = TT({"a", "/", "]"}), !.cmds = TT({"c", "a%", "%", "begin", "end"}),
                             !.max = <<4, 4, 5>>]
invalid3 == [invalid2 EXCEPT !.g = 3, !.maths = {<<"D", "I">>, <<"B", "O">>}, !.breaks = TT({"~~", "~", "a~~", ""}),
                             !.texts = TT({"a", "/", "~~", "~_~x)", "}~~"}), !.max = <<3, 4, 4>>]

breaks3 == [Base EXCEPT !.g = 3, !.texts = TT({"a~", "~", "~^~", "x~_", "`~b~c~", "~a~", "a~'>~"}),
                        !.breaks = TT({"~~", "~_~", "~", "_~~", "~a~", "^~`~~", ""}), !.cmds = TT({"c"}),
                        !.maths = {<<"D", "O">>}, !.max = <<3, 4, 4>>]

lines1 == [Base EXCEPT !.texts = TT({"~", "a~~b", "/~"}), !.cmds = TT({"~", "c", "c~"}), !.scopes = {"(", "{"},
                       !.args = Args({<<"~_~", "[">>, <<"", "{">>}), !.max = <<4, 5, 6>>]
lines2 == [lines1 EXCEPT !.g = 2, !.envs = Envs({<<"e~", "", "~">>, <<"~", "~~", "">>}), !.cmds = TT({"c~"})]
lines3 == [lines2 EXCEPT !.g = 3, !.breaks = TT({"~_~~"}), !.maths = {<<"D", "I">>, <<"B", "O">>}, !.scopes = {"{"},
                         !.texts = TT({"~", "a~x~b"}), !.max = <<3, 4, 5>>]

places1 == [Base EXCEPT !.texts = TT({"a~", "b"}), !.cmds = TT({"c"}), !.args = Args({<<"~", "{">>}), !.scopes = {"{"},
                        !.off = {0, 1, 2}, !.max = <<4, 4, 5>>]
places2 == [places1 EXCEPT !.g = 2, !.envs = Envs({<<"e", "~", "">>}), !.texts = TT({"a~"})]
places3 == [places2 EXCEPT !.g = 3, !.breaks = TT({"~~"}), !.maths = {<<"D", "O">>}, !.scopes = {}]

\* all short texts, breaks and labels
RECURSIVE AllOf(_, _)
AllOf(cs, k) == IF k = 0 THEN {<<>>} ELSE LET less == AllOf(cs, k - 1)
                                         IN less \cup {<<c>> \o t : c \in cs, t \in less}
Blank == AllOf({"~", "_", ">", "x", "^"}, 4 + Depth)
Odd == AllOf({"a", "!", "{", ")", "%", "/", "_"}, 3 + Depth)
Words == {S(x) \o c : x \in {"begin", "end", "document", "documentclass"}, c \in {<<>>, <<"*">>, <<"_">>, <<"s">>}}
strings1 == [Base EXCEPT !.texts = Odd, !.cmds = Odd \cup Words, !.max = <<1, 1, 1>>]
strings2 == [strings1 EXCEPT !.g = 2, !.envs = {<<t, None, None>> : t \in Odd \cup Words}]
strings3 == [strings2 EXCEPT !.g = 3, !.texts = Odd \cup Blank, !.breaks = Blank]

\* runs: more of a character than 16 bits count
runs1 == [Base EXCEPT !.texts = TT({"x@", "x.", "~", "x:/"}), !.cmds = TT({"c", "x.", "x@"}), !.scopes = {"("},
                      !.args = Args({<<"_@", "[">>, <<"`:", "{">>}), !.max = <<3, 4, 5>>]
runs2 == [runs1 EXCEPT !.g = 2, !.envs = Envs({<<"x@", "", "_@">>, <<"x.", "`@", ":">>}), !.texts = TT({"x@", ":."}), !.cmds = TT({"c", "x@"})]
runs3 == [runs2 EXCEPT !.g = 3, !.breaks = TT({"_@", "`:~~", "x@"}), !.maths = {<<"D", "I">>, <<"B", "O">>}, !.texts = TT({"x@", "x.", "x:~"}),
                       !.cmds = TT({"c"}), !.scopes = {"{"}]
\* counts: as many parts as a small counter, or a guard, might stop at
Copies(x, k) == [i \in 1..k |-> x]
TallText == Text(1, S("x~"))
Rows(k) == [i \in 1..k |-> IF i % 2 = 1 THEN [TallText EXCEPT !.l = (i + 1) \div 2] ELSE Cmd(i \div 2 + 1, S("c"), None)]
CountsOf == {17, 65, 257}
Ample(k, t) == {Cmd(1, S("c"), Copies(Arg(S("~"), "[", <<Text(1, t)>>), k)), Cmd(1, S("c"), <<Arg(None, "{", Rows(k))>>), Scope(1, "(", Rows(k)),
               Scope(1, "{", Copies(Cmd(1, S("c"), None), k) \o <<Text(1, t)>>)}
wide1 == [Base EXCEPT !.texts = TT({"~", "/"}), !.parts = UNION {Ample(k, S("~a")) : k \in CountsOf} \cup UNION {Ample(k, S("%")) : k \in {65, 257}}, !.max = <<1, 1, 2>>]
WideEnv(k, t) == {Env(1, S("e"), Copies(Arg(S("~"), "[", <<Text(1, t)>>), k), None, None, None), Env(1, S("e~"), <<Arg(None, "{", Rows(k))>>, Rows(k), None, S("~"))}
wide2 == [wide1 EXCEPT !.g = 2, !.parts = @ \cup UNION {WideEnv(k, S("~a")) : k \in CountsOf}]
WideMaths(k) == {Maths(1, "D", "O", Rows(k)), Maths(1, "B", "I", Copies(Cmd(1, S("c"), None), k) \o <<Text(1, S("~"))>>)}
wide3 == [wide2 EXCEPT !.g = 3, !.parts = @ \cup UNION {WideMaths(k) : k \in CountsOf}, !.max = <<1, 1, 2>>]
wide65 == [Base EXCEPT !.g = 3, !.texts = TT({"~"}), !.wide = 65, !.max = <<2, 3, 4>>]
wide257 == [wide65 EXCEPT !.wide = 257, !.max = <<1, 2, 3>>]

\* documents that conversions change: commands and texts standing for the
\* parts of a later stage
Txt(l, t) == <<Text(l, S(t))>>
Curly(p, t) == Arg(S(p), "{", IF t = "" THEN <<>> ELSE Txt(1, t))
Square(p, cs) == Arg(S(p), "[", cs)
Com(nm, as) == Cmd(1, S(nm), as)
Begins == {Com("begin", <<Curly("", "e")>>), Com("begin", <<Curly("~", "e"), Square("~", Txt(1, "~x"))>>),
           Com("begin", <<Curly("", "f~"), Curly("_", "y")>>), Com("begin", <<Curly("~~", "")>>)}
Ends == {Com("end", <<Curly("", "e")>>), Com("end", <<Curly("~", "f~")>>), Com("end", <<Curly("_", "")>>)}
BadEnds == {Com("begin", <<>>), Com("begin", <<Square("", <<>>), Curly("", "e")>>), Com("end", <<>>),
            Com("end", <<Curly("~", "e"), Curly("~", "x")>>), Com("end", <<Square("", Txt(1, "e"))>>)}
fold1 == [Base EXCEPT !.texts = TT({"a~"}), !.parts = Begins \cup Ends, !.neat = TRUE, !.max = <<4, 4, 6>>]
foldin1 == [Base EXCEPT !.texts = TT({"~"}), !.cmds = TT({"c", "~", "{"}), !.args = Args({<<"~", "[">>, <<"", "{">>}),
                        !.scopes = {"{"}, !.neat = TRUE, !.max = <<5, 5, 6>>,
                        !.parts = {Com("begin", <<Curly("~", "e")>>), Com("end", <<Curly("", "e")>>)}]
foldbad1 == [fold1 EXCEPT !.parts = {Com("begin", <<Curly("~", "e")>>), Com("end", <<Curly("", "e")>>)} \cup BadEnds,
                          !.scopes = {"("}, !.max = <<3, 4, 5>>]
\* what stands in an argument of begin
foldargs1 == [Base EXCEPT !.texts = TT({"~"}), !.neat = TRUE, !.max = <<3, 4, 5>>,
                 !.parts = {Com("begin", <<Curly("~", "e"), Square("~", c)>>) :
                              c \in {<<Com("end", <<>>)>>, <<Com("begin", <<Curly("", "e")>>)>>,
                                     Txt(1, "~") \o <<Cmd(2, S("begin"), <<Curly("~", "e")>>), Cmd(3, S("end"), <<Curly("", "e")>>)>>,
                                     Txt(1, "~") \o <<Cmd(2, S("end"), <<Curly("", "e")>>)>>}}
                           \cup {Com("begin", <<Curly("", "e")>>), Com("end", <<Curly("", "e")>>)}]
mathsof2 == [Base EXCEPT !.g = 2, !.texts = TT({"$", "$$", "a$~", "~$$b$"}), !.neat = TRUE, !.scopes = {"{"},
                         !.parts = {Com("(", <<>>), Com(")", <<>>), Com("[", <<>>), Com("]", <<>>), Com("c", <<>>),
                                   Com("(", <<Curly("~", "x~")>>), Com(")", <<Curly("", "")>>), Com("[", <<Curly("", "x")>>), Com("]", <<Curly("_", "~~")>>)},
                         !.max = <<4, 5, 5>>]
mathsin2 == [Base EXCEPT !.g = 2, !.texts = TT({"$", "~x$$"}), !.neat = TRUE, !.scopes = {"["}, !.envs = Envs({<<"e~", "~", "">>}),
                         !.args = Args({<<"~", "{">>}), !.cmds = TT({"c"}), !.parts = {Com("(", <<>>), Com(")", <<>>)},
                         !.max = <<4, 5, 6>>]
breaksof2 == [Base EXCEPT !.g = 2, !.neat = TRUE, !.scopes = {"("}, !.cmds = TT({"c"}), !.args = Args({<<"", "[">>}),
                          !.texts = TT({"~~", "a~_~", "~~b", "`~x~", "x~~y~^~~w", "~$~~$"}), !.max = <<4, 4, 5>>]
Body(cs) == Env(1, sDocument, <<Square("~", Txt(1, "$~$"))>>, cs, S("~"), S("_"))
docsof2 == [Base EXCEPT !.g = 2, !.neat = TRUE, !.texts = TT({"~", "$", "~~"}), !.max = <<4, 4, 5>>,
               !.parts = {Com("documentclass", <<>>), Com("documentclass", <<Curly("~", "k~")>>),
                          Com("documentclass", <<Square("", Txt(1, "a,_b~=~c_,")), Curly("", "k")>>),
                          Com("documentclass", <<Curly("", "k"), Square("~", <<Scope(1, "{", Txt(1, "a,b"))>>), Curly("~", "l")>>),
                          Body(<<>>), Body(Txt(1, "~~$")), Body(Txt(1, "~") \o <<Cmd(2, S("c"), <<>>)>>),
                          Env(1, S("documents"), <<>>, <<>>, <<>>, <<>>)}]
down2 == [kinds2 EXCEPT !.neat = TRUE, !.texts = TT({"a~"}), !.max = <<4, 5, 5>>]
down3 == [kinds3 EXCEPT !.neat = TRUE, !.texts = TT({"a~", "$"}), !.max = <<3, 4, 5>>]
downsec3 == [Base EXCEPT !.g = 3, !.neat = TRUE, !.texts = TT({"~", "x"}), !.breaks = TT({"~~"}), !.maths = {<<"D", "O">>, <<"B", "I">>},
                         !.args = Args({<<"~", "[">>}), !.max = <<5, 5, 6>>]
foldruns1 == [fold1 EXCEPT !.texts = TT({"x@", "x."}), !.scopes = {"{"}, !.max = <<4, 4, 5>>,
                 !.parts = {Com("begin", <<Curly("`@", "x@"), Square("_@", Txt(1, "x@"))>>), Com("end", <<Curly("", "x@")>>),
                            Com("begin", <<Curly("", "e")>>), Com("end", <<Curly(":", "e")>>), Com("c", <<Curly("_@", "x.")>>)}]
mathsruns2 == [mathsof2 EXCEPT !.texts = TT({"$x@", "x.$$", "x@_y", "$"}), !.max = <<4, 4, 5>>,
                 !.parts = {Com("(", <<>>), Com(")", <<>>), Com("c", <<Curly("_@", "x@~")>>)}]
docruns2 == [docsof2 EXCEPT !.texts = TT({"x@", ":"}), !.max = <<4, 4, 5>>,
               !.parts = {Com("documentclass", <<Square("_@", Txt(1, "x.,x:=`@x.,x@")), Curly("", "x@")>>),
                          Env(1, sDocument, <<Square("_@", Txt(1, "x@"))>>, Txt(1, "x@"), S("_@"), S("`:"))}]
downruns3 == [runs3 EXCEPT !.neat = TRUE, !.texts = TT({"x@", "x."}), !.breaks = TT({"_@"}), !.max = <<3, 4, 4>>]
downwide2 == [wide2 EXCEPT !.neat = TRUE, !.texts = TT({"~"}),
               !.parts = UNION {Ample(k, S("~a")) : k \in CountsOf} \cup UNION {WideEnv(k, S("~a")) : k \in CountsOf}]
downwide3 == [wide65 EXCEPT !.neat = TRUE]
foldwide1 == [fold1 EXCEPT !.texts = TT({"~"}), !.max = <<3, 3, 4>>,
                !.parts = {Com("end", <<Curly("~", "e")>>)} \cup {Com("begin", <<Curly("", "e")>> \o Copies(Square("~", Txt(1, "~x")), k)) : k \in {16, 65, 256}}
                          \cup UNION {Ample(k, S("~a")) : k \in {65, 257}}]
\* texts as they come to be split into paragraphs
paras3 == [Base EXCEPT !.g = 3, !.neat = TRUE, !.cmds = TT({"c"}), !.maths = {<<"D", "I">>}, !.max = <<3, 4, 5>>,
               !.texts = AllOf({"~", "_", "x"}, 4) \cup TT({"~x~_~`~y~~", "x~~y~~z", "_~>~^x~^", "a~b~c~d", "~~a~_b~~c_~", "x_@", "@", "x:@y"})]
\* documents to compare
eq1 == [Base EXCEPT !.texts = TT({"a~", ""}), !.cmds = TT({"c"}), !.args = Args({<<"~", "[">>}), !.scopes = {"{"}, !.max = <<5, 6, 7>>]
eq2 == [eq1 EXCEPT !.g = 2, !.envs = Envs({<<"e", "", "_">>}), !.max = <<5, 6, 6>>]
eq3 == [eq2 EXCEPT !.g = 3, !.texts = TT({"a~"}), !.breaks = TT({"~~"}), !.maths = {<<"D", "I">>, <<"B", "O">>}, !.max = <<3, 4, 5>>]
eqruns1 == [Base EXCEPT !.texts = TT({"x.", "x@y"}), !.cmds = TT({"x."}), !.args = Args({<<":", "[">>}), !.max = <<2, 3, 4>>]
eqruns2 == [eqruns1 EXCEPT !.g = 2, !.envs = Envs({<<"x.", ":", "@">>}), !.cmds = {}]
eqruns3 == [eqruns2 EXCEPT !.g = 3, !.breaks = TT({"@"}), !.maths = {<<"D", "O">>}, !.max = <<1, 2, 3>>]
eqwide2 == [Base EXCEPT !.g = 2, !.texts = TT({"~"}), !.max = <<1, 1, 2>>,
               !.parts = UNION {Ample(k, S("a")) : k \in {17, 65}} \cup UNION {WideEnv(k, S("a")) : k \in {17, 65}}]
eqwide3 == [wide65 EXCEPT !.max = <<1, 2, 3>>]
\* texts of spaces only, everywhere a text may be
blanks1 == [Base EXCEPT !.neat = TRUE, !.texts = TT({"_", ">_"}), !.scopes = {"["}, !.cmds = TT({"c"}), !.args = Args({<<"_", "{">>}),
                !.parts = {Com("begin", <<Curly("_", "_")>>), Com("end", <<Curly("_", "_")>>)}, !.max = <<4, 5, 6>>]
blanks2 == [blanks1 EXCEPT !.g = 2, !.envs = Envs({<<"_", "_", "_">>}), !.parts = {Com("(", <<>>), Com(")", <<>>), Com("documentclass", <<Square("_", Txt(1, "_,_")), Curly("", "_")>>)}]
blanks3 == [blanks2 EXCEPT !.g = 3, !.maths = {<<"D", "I">>, <<"B", "O">>}, !.breaks = TT({"~~"}), !.parts = {}, !.max = <<3, 4, 5>>]
ConversionsOfMany == {"foldruns1", "mathsruns2", "docruns2", "downruns3", "downwide2", "downwide3", "foldwide1"}
Conversions == ConversionsOfMany \cup {"fold1", "foldin1", "foldbad1", "foldargs1", "mathsof2", "mathsin2", "breaksof2", "docsof2", "down2", "down3", "downsec3", "blanks1", "blanks2", "blanks3"}

PartsConverted == Conversions \cup {"paras3"}

AllFamilies == {"runs1", "runs2", "runs3", "wide1", "wide2", "wide3", "wide65", "wide257", "strings1", "strings2", "strings3", "kinds1", "kinds2", "kinds3", "invalid1", "invalid2",
                "invalid3", "breaks3", "lines1", "lines2", "lines3", "places1", "places2",
                "places3"}
F == CASE fam = "paras3" -> paras3 []
       fam = "blanks1" -> blanks1 []
       fam = "blanks2" -> blanks2 []
       fam = "blanks3" -> blanks3 []
       fam = "eq1" -> eq1 []
       fam = "eq2" -> eq2 []
       fam = "eq3" -> eq3 []
       fam = "eqruns1" -> eqruns1 []
       fam = "eqruns2" -> eqruns2 []
       fam = "eqruns3" -> eqruns3 []
       fam = "eqwide2" -> eqwide2 []
       fam = "eqwide3" -> eqwide3 []
       fam = "runs1" -> runs1 []
       fam = "runs2" -> runs2 []
       fam = "runs3" -> runs3 []
       fam = "wide1" -> wide1 []
       fam = "wide2" -> wide2 []
       fam = "wide3" -> wide3 []
       fam = "wide65" -> wide65 []
       fam = "wide257" -> wide257 []
       fam = "foldruns1" -> foldruns1 []
       fam = "mathsruns2" -> mathsruns2 []
       fam = "docruns2" -> docruns2 []
       fam = "downruns3" -> downruns3 []
       fam = "downwide2" -> downwide2 []
       fam = "downwide3" -> downwide3 []
       fam = "foldwide1" -> foldwide1 [] fam = "fold1" -> fold1 [] fam = "foldin1" -> foldin1 [] fam = "foldbad1" -> foldbad1 []
       fam = "foldargs1" -> foldargs1 [] fam = "mathsof2" -> mathsof2 [] fam = "mathsin2" ->
       mathsin2 [] fam = "breaksof2" -> breaksof2 [] fam = "docsof2" -> docsof2 [] fam = "down2" ->
       down2 [] fam = "down3" -> down3 [] fam = "downsec3" -> downsec3 [] fam = "strings1" ->
       strings1 [] fam = "strings2" -> strings2 [] fam = "strings3" -> strings3 [] fam = "kinds1" ->
       kinds1 [] fam = "kinds2" -> kinds2 [] fam = "kinds3" -> kinds3 [] fam = "invalid1" ->
       invalid1 [] fam = "invalid2" -> invalid2 [] fam = "invalid3" -> invalid3 [] fam = "breaks3"
       -> breaks3 [] fam = "lines1" -> lines1 [] fam = "lines2" -> lines2 [] fam = "lines3" ->
       lines3 [] fam = "places1" -> places1 [] fam = "places2" -> places2 [] fam = "places3" ->
       places3

----------------------------------------------------------------------------
(* Building *)
Root == IF F.g = 3 THEN [Frame("D", "", "", S("document"), S("~"), S("_~")) EXCEPT !.a = Copies(Arg(S("~"), "[", Txt(1, "~")), F.wide)] ELSE Frame("D", "", "", None, None, None)
Init == /\ fam \in Families
        /\ stack = <<Root>>
        /\ n = 0

Top == stack[Len(stack)]
NextLine(cs) == IF cs = <<>> THEN 1 ELSE cs[Len(cs)].l + Extra(cs[Len(cs)])

\* The stack with the innermost container closed into the one around it
CloseTop(s) ==
    LET x == s[Len(s)]
        rest == Front(s)
        up == rest[Len(rest)]
        l == NextLine(up.c)
        put(ch) == [rest EXCEPT ![Len(rest)].c = Append(@, ch)]
    IN CASE x.k = "A" -> [rest EXCEPT ![Len(rest)].a = Append(@, Arg(x.p, x.v, x.c))]
         [] x.k = "C" -> put(Cmd(l, x.n, x.a))
         [] x.k = "S" -> put(Scope(l, x.v, x.c))
         [] x.k = "E" -> put(Env(l, x.n, x.a, x.c, x.p, x.q))
         [] x.k = "M" -> put(Maths(l, x.v, x.t, x.c))
RECURSIVE CloseAll(_)
CloseAll(s) == IF Len(s) = 1 THEN s[1] ELSE CloseAll(CloseTop(s))

Room == n < F.max[Depth + 1]
Go(s) == Room /\ stack' = s /\ n' = n + 1 /\ UNCHANGED fam
InTop(ch) == [stack EXCEPT ![Len(stack)].c = Append(@, ch)]
\* a command holds arguments only
TakesChunks == Top.k # "C"
TakesArgument == Top.k = "C" \/ (Top.k = "E" /\ Top.c = None)
                 \/ (Top.k = "D" /\ F.g = 3 /\ Len(Top.secs) = 1 /\ Top.c = None)

TakesText == TakesChunks /\ ~(F.neat /\ (IF Top.c = None THEN FALSE ELSE Top.c[Len(Top.c)].k = "T"))
AddText == TakesText /\ \E t \in F.texts, o \in F.off : Go(InTop(Text(NextLine(Top.c) + o, t)))
AddBreak == TakesChunks /\ \E t \in F.breaks : Go(InTop(Break(NextLine(Top.c), t)))
AddPart == TakesChunks /\ \E x \in F.parts : Go(InTop([x EXCEPT !.l = NextLine(Top.c)]))
OpenScope == TakesChunks /\ \E v \in F.scopes : Go(Append(stack, Frame("S", v, "", None, None, None)))
OpenCommand == TakesChunks /\ \E c \in F.cmds : Go(Append(stack, Frame("C", "", "", c, None, None)))
OpenEnvironment == TakesChunks /\ \E e \in F.envs : Go(Append(stack, Frame("E", "", "", e[1], e[2], e[3])))
OpenMaths == TakesChunks /\ \E m \in F.maths : Go(Append(stack, Frame("M", m[1], m[2], None, None, None)))
OpenArgument == TakesArgument /\ \E a \in F.args : Go(Append(stack, Frame("A", a[2], "", None, a[1], None)))
Close == Len(stack) > 1 /\ Go(CloseTop(stack))
NextSection == /\ F.g = 3 /\ Len(stack) = 1 /\ Len(Top.secs) < 2
               /\ Go(<<[Top EXCEPT !.secs = Append(@, Top.c), !.c = None]>>)

Next == AddText \/ AddBreak \/ AddPart \/ OpenScope \/ OpenCommand \/ OpenEnvironment \/ OpenMaths
        \/ OpenArgument \/ Close \/ NextSection
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The document so far *)
Cls == <<S("k~")>>
TwoOptions == <<[p |-> S("_"), k |-> S("a"), e |-> <<[p |-> S("~"), q |-> None, v |-> S("b")]>>, q |-> S("_~")],
          [p |-> None, k |-> None, e |-> None, q |-> S("~")]>>
Opts == IF F.wide = 0 THEN TwoOptions ELSE Copies(TwoOptions[1], F.wide)
Tree == LET d == CloseAll(stack)
            secs == Append(d.secs, d.c)
            sec(i) == IF i <= Len(secs) THEN secs[i] ELSE None
        IN IF F.g < 3 THEN d.c
           ELSE Doc3(Cls, Opts, sec(1), sec(2), d.a, d.p, d.q, sec(3), TRUE)

Nodes == IF F.g < 3 THEN All(Tree) ELSE All3(Tree)
TextOf(t) == IF F.g < 3 THEN Rs(t) ELSE RDoc3(t)
LinesOfTree(t) == IF F.g < 3 THEN LinesOf(t) ELSE LinesDoc3(t)
Verdict(t) == IF F.g < 3 THEN VDoc(F.g, t) ELSE VDoc3(t)

\* C10
CountedTree == /\ LinesAgree(Nodes)
                /\ LinesOfTree(Tree) = 1 + NL(TextOf(Tree))
\* C19
LoweredText == CASE F.g = 1 -> TRUE
                 [] F.g = 2 -> Rs(DownDoc1(Tree)) = TextOf(Tree)
                 [] F.g = 3 -> Rs(DownDoc2(Tree)) = TextOf(Tree)
\* C17: a tree is valid exactly when no node of it shows a problem and lines are true
OwnProblem(x) ==
    CASE x.k = "T" -> \/ HasChar(x.s, IsReserved)
                      \/ F.g = 3 /\ BreakAt(x.s) # 0
      [] x.k = "P" -> HasChar(x.s, LAMBDA c : ~IsSpace(c)) \/ NL(x.s) < 2
      [] x.k = "C" -> \/ F.g >= 2 /\ x.n \in {sBegin, sEnd}
                      \/ Bytes(x.n) # 1 /\ HasChar(x.n, IsReserved)
      [] x.k = "E" -> HasChar(x.n, IsReserved)
      [] OTHER -> FALSE
TrueTop(cs) == \A i \in 1..Len(cs) : cs[i].l = 1 + NL(Rs(SubSeq(cs, 1, i - 1)))
ValidExactly ==
    (Verdict(Tree) = None) <=>
        /\ \A i \in 1..Len(Nodes) : ~OwnProblem(Nodes[i])
        /\ IF F.g < 3 THEN TrueTop(Tree) ELSE TrueTop(Tree.pre) /\ TrueTop(Tree.body) /\ TrueTop(Tree.tr)

\* C20: what a valid document is raised to and lowered to
Raised(t) == IF F.g = 1 THEN Up2(t) ELSE UpDoc3(t)
Dropped(t) == IF F.g = 2 THEN DownDoc1(t) ELSE DownDoc2(t)
RaisedWell(t, u) ==
    IF ~u.ok THEN ErrorPlace(Rs(t), u)
    ELSE IF F.g = 1 THEN Rs(u.v) = Rs(t) /\ LinesTrue(u.v) /\ Folded(u) /\ DownDoc1(u.v) = t
    ELSE /\ RDoc3(u.v) = Rs(t) /\ LinesTrue3(u.v) /\ Delimited(u) /\ BreaksWhole(u)
         /\ DownDoc2(u.v) = t
DroppedWell(t, d) == Rs(d) = TextOf(t) /\ LinesTrue(d)
Converted ==
    LET t == Tree IN
    (F.neat /\ n > 0) =>
        IF Verdict(t) # None THEN TRUE
        ELSE LET u == IF F.g < 3 THEN <<Raised(t)>> ELSE None
                 d == IF F.g > 1 THEN <<Dropped(t)>> ELSE None
             IN /\ IF F.g < 3 THEN LinesTrue(t) ELSE LinesTrue3(t)
                /\ u # None => RaisedWell(t, u[1])
                /\ d # None => DroppedWell(t, d[1])
                /\ Emit => PrintT(ToJson([g |-> F.g, d |-> t, text |-> TextOf(t), up |-> u, down |-> d]))
----------------------------------------------------------------------------
(* C21: the last chunk, and the list it is in, converted on their own *)
UpPart(x) == IF F.g = 1 THEN Copy2(x) ELSE Copy3(x)
DownPart(x) == IF F.g = 2 THEN DownChunk1(x) ELSE Flat2(x)
\* commands that do not stand for themselves
Delimits(x) == IF F.g = 1 THEN x.k = "C" /\ x.n \in {sBegin, sEnd}
               ELSE \E c \in {"(", ")", "[", "]"} : IsCmd(x, c)
ThisList == LET d == CloseAll(stack) IN d.c
Sound(x) == V(F.g, x) = None /\ LinesTrueIn(x)
UpWell(x, u) == IF u.ok THEN R(u.v) = R(x) /\ LinesTrueIn(u.v) /\ u.v.l = x.l ELSE ErrorPlace(R(x), u)
DownWell(x, d) == Rs(d) = R(x) /\ LinesTrue([i \in 1..Len(d) |-> [d[i] EXCEPT !.l = @ - x.l + 1]])
ListWell(cs, u) == IF u.ok THEN Rs(u.v) = Rs(cs) /\ LinesTrue(u.v) ELSE ErrorPlace(Rs(cs), u)
ParaWell(cs, d) == /\ Rs(d) = Rs(cs) /\ TrueTop(d)
                   /\ (\A i \in 1..Len(cs) : cs[i].k # "P") => ParaList(d)
PartsAlone ==
    LET cs == ThisList
        x == cs[Len(cs)]
        sound == Sound(x)
        listed == VDoc(2, cs) = None /\ LinesTrue(cs)
        up == IF F.g < 3 /\ sound /\ x.k \in {"S", "C", "E"} /\ ~Delimits(x) THEN <<UpPart(x)>> ELSE None
        down == IF F.g > 1 /\ sound THEN <<DownPart(x)>> ELSE None
        maths == IF F.g = 2 /\ listed THEN <<Up3(cs)>> ELSE None
        para == IF F.g = 3 /\ TrueTop(cs) THEN <<Para(cs)>> ELSE None
    IN (F.neat /\ cs # None) =>
         /\ up # None => UpWell(x, up[1])
         /\ down # None => DownWell(x, down[1])
         /\ maths # None => ListWell(cs, maths[1])
         /\ para # None => ParaWell(cs, para[1])
         /\ (up \o down \o maths \o para # None /\ Emit) =>
              PrintT(ToJson([g |-> F.g, d |-> cs, up |-> up, down |-> down, maths |-> maths, para |-> para,
                             text |-> R(x), whole |-> Rs(cs)]))

----------------------------------------------------------------------------
(* C22: all documents that differ from one in a single place *)
Places(k) == IF k <= 6 THEN 1..k ELSE {1, 2, k - 1, k}
Other(v) == CASE v = "{" -> {"(", "["} [] v = "(" -> {"[", "{"} [] v = "[" -> {"{", "("}
EditText(t) == {Append(t, "a"), <<"_">> \o t} \cup (IF t = None THEN {} ELSE {Tail(t), Front(t), Append(Front(t), IF t[Len(t)] = "b" THEN "d" ELSE "b")})
ListEdits(cs, edits(_)) ==
    UNION {{[cs EXCEPT ![i] = y] : y \in edits(cs[i])} : i \in Places(Len(cs))}
    \cup (IF cs = None THEN {} ELSE {Front(cs), Tail(cs), Append(cs, cs[Len(cs)])})
    \cup (IF Len(cs) > 1 /\ cs[1] # cs[Len(cs)] THEN {[cs EXCEPT ![1] = cs[Len(cs)], ![Len(cs)] = cs[1]]} ELSE {})
RECURSIVE ChunkEdits(_)
EditList(cs) == ListEdits(cs, ChunkEdits) \cup (IF cs = None THEN {<<Text(1, None)>>} ELSE {})
ArgEdits(a) == {[a EXCEPT !.p = t] : t \in EditText(a.p)} \cup {[a EXCEPT !.v = w] : w \in Other(a.v)}
               \cup {[a EXCEPT !.c = c] : c \in EditList(a.c)}
EditArgs(as) == ListEdits(as, ArgEdits) \cup {Append(as, Arg(None, "{", None))}
ChunkEdits(x) ==
    {[x EXCEPT !.l = @ + 1]} \cup
    CASE x.k \in {"T", "P"} -> {[x EXCEPT !.s = t] : t \in EditText(x.s)}
                                \cup (IF F.g = 3 THEN {[x EXCEPT !.k = IF x.k = "T" THEN "P" ELSE "T"]} ELSE {})
      [] x.k = "C" -> {[x EXCEPT !.n = t] : t \in EditText(x.n)} \cup {[x EXCEPT !.a = as] : as \in EditArgs(x.a)}
      [] x.k = "S" -> {[x EXCEPT !.v = w] : w \in Other(x.v)} \cup {[x EXCEPT !.c = c] : c \in EditList(x.c)}
      [] x.k = "M" -> {[x EXCEPT !.v = IF @ = "D" THEN "B" ELSE "D"], [x EXCEPT !.t = IF @ = "I" THEN "O" ELSE "I"]}
                      \cup {[x EXCEPT !.c = c] : c \in EditList(x.c)}
      [] x.k = "E" -> {[x EXCEPT !.n = t] : t \in EditText(x.n)} \cup {[x EXCEPT !.a = as] : as \in EditArgs(x.a)}
                      \cup {[x EXCEPT !.c = c] : c \in EditList(x.c)}
                      \cup {[x EXCEPT !.p = t] : t \in EditText(x.p)} \cup {[x EXCEPT !.q = t] : t \in EditText(x.q)}
OptionEdits(o) == {[o EXCEPT !.p = t] : t \in EditText(o.p)} \cup {[o EXCEPT !.k = t] : t \in EditText(o.k)}
                  \cup {[o EXCEPT !.q = t] : t \in EditText(o.q)}
                  \cup (IF o.e = None THEN {[o EXCEPT !.e = <<[p |-> None, q |-> None, v |-> None]>>]}
                         ELSE {[o EXCEPT !.e = None]} \cup {[o EXCEPT !.e[1].p = t] : t \in EditText(o.e[1].p)}
                              \cup {[o EXCEPT !.e[1].q = t] : t \in EditText(o.e[1].q)}
                              \cup {[o EXCEPT !.e[1].v = t] : t \in EditText(o.e[1].v)})
DocumentEdits(d) ==
    {[d EXCEPT !.cls = None]} \cup {[d EXCEPT !.cls[1] = t] : t \in EditText(d.cls[1])}
    \cup {[d EXCEPT !.opts = os] : os \in ListEdits(d.opts, OptionEdits)}
    \cup {[d EXCEPT !.pre = c] : c \in EditList(d.pre)} \cup {[d EXCEPT !.body = c] : c \in EditList(d.body)}
    \cup {[d EXCEPT !.tr = c] : c \in EditList(d.tr)} \cup {[d EXCEPT !.args = as] : as \in EditArgs(d.args)}
    \cup {[d EXCEPT !.p = t] : t \in EditText(d.p)} \cup {[d EXCEPT !.q = t] : t \in EditText(d.q)}
    \cup (IF d.pre = d.body THEN {} ELSE {[d EXCEPT !.pre = d.body, !.body = d.pre]})
EditsOf(t) == IF F.g < 3 THEN EditList(t) ELSE DocumentEdits(t)
Comparisons == {"eq1", "eq2", "eq3", "eqruns1", "eqruns2", "eqruns3", "eqwide2", "eqwide3"}
ToldApart ==
    LET t == Tree
        es == EditsOf(t)
    IN n > 0 => /\ t \notin es
                /\ Emit => PrintT(ToJson([g |-> F.g, d |-> t, edits |-> SetToSeq(es)]))

Line == LET t == Tree
            ns == Nodes
        IN ToJson([g |-> F.g, d |-> t, text |-> TextOf(t), n |-> LinesOfTree(t), v |-> Verdict(t),
                   ns |-> [i \in 1..Len(ns) |-> [t |-> R(ns[i]), n |-> Lines(ns[i]), v |-> V(F.g, ns[i])]]])
Printed == (Emit /\ n > 0) => PrintT(Line)
=============================================================================
