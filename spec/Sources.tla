------------------------------- MODULE Sources -----------------------------
(* The families of sources that are explored exhaustively: the tokens they *)
(* are made of, how many (max, by depth) and what is put around them.      *)
EXTENDS Chars

----------------------------------------------------------------------------
(* Wrappings *)
W(a, b) == <<S(a), S(b)>>
Bare == {W("", "")}
Groups == {W("{", "}"), W("a(", ")"), W("~[", "]"), W("/c{", "}"), W("/c~{~}_[", "]"),
           W("{/c{", "}~}"), W("/c{", "}{a}")}
Envs == {W("/begin{e}", "/end{e}"), W("~/begin_{e}[", "]~/end{e}"), W("/begin{e}{~}~{", "}/end~{e}"),
         W("{/begin{e}~", "/end{e}}"), W("/begin{e}/begin{e}[~]~", "/end{e}/end{e}"),
         W("a/begin{e~}[", "~{]}]{~}/end{e~}")}
Mathss == {W("$", "$"), W("~$$", "$$"), W("/(", "/)"), W("a/[~", "/]"), W("$a{~", "}$"), W("$$~$", "$$$"),
           W("/(~$", "$/)"), W("/[/(", "/)~/]"), W("$x~/begin{e}~", "/end{e}$")}
Docs == {W("/begin{document}", "/end{document}"), W("~/begin~{document}~", "~/end{document}"),
         W("p~/begin{document}[~", "]x/end~{document}~"), W("/begin{document}~/end{document}", ""),
         W("a~/begin{document}~b/end_{document}~c", ""), W("", "/begin{document}/end{document}"),
         W("/documentclass{k}~", "~/begin{document}~/end{document}~/begin{document}/end{document}")}
Options == {W("/documentclass[", "]{k}"), W("/documentclass_{k}[", "]~[x]/begin{document}/end{document}"),
            W("/documentclass[x](", ")")}
Deep == {W("{(~[/c{~}{", "}]~)}"), W("/begin{e}[~{/begin{f}~", "/end{f}~}]~/end{e}"),
         W("$~{$$~/begin{e}{~", "}~/end{e}$$}$"),
         W("p~/begin{document}~{/begin{e}[~]~$~", "$/end{e}}~/end{document}"),
         W("/begin{document}~/end{document}~{~/c{~}{~", "}}"),
         W("/begin{e}~x{/begin{f}{y~}~/c[", "]~/end{f}}/end{e}"),
         W("/begin{document}~/(~/c{$~", "$}/)/end{document}")}


\* Big ones: long, tall, deep, many
Times(str, k) == LET s == S(str) IN [i \in 1..(k * Len(s)) |-> s[((i - 1) % Len(s)) + 1]]
TallWraps == {<<Times("~", 300), <<>>>>, <<S("{") \o Times("~", 300), S("}~")>>,
              <<S("/c") \o Times("~", 300), <<>>>>, <<S("/c{") \o Times("x~", 300), S("}")>>,
              <<S("/begin{e}") \o Times("~x", 300), S("~/end{e}~")>>,
              <<S("/begin{e") \o Times("~", 130) \o S("}"), S("/end{e") \o Times("~", 130) \o S("}")>>,
              <<S("/begin") \o Times("~", 260) \o S("{e}{~}"), S("/end{e}")>>,
              <<S("/begin{document}") \o Times("x~", 300), S("/end{document}~")>>,
              <<S("/begin{document}~/end") \o Times("~", 260) \o S("{document}~"), <<>>>>,
              <<S("$") \o Times("x~", 300), S("$~")>>, <<S("/(") \o Times("x~", 300), S("/)~")>>,
              <<Times("x~~", 150), S("~x")>>, <<Times("%~", 300), <<>>>>, <<Times("/~", 260), <<>>>>,
              <<S("/documentclass[a=") \o Times("~", 260) \o S("b]{k}"), S("/begin{document}/end{document}")>>}
LongWraps == {<<Times("x", 300), <<>>>>, <<S("/") \o Times("x", 300), S("{a}")>>, <<Times("!", 130), <<>>>>,
              <<S("/c") \o Times("_", 260), S("{x}")>>, <<S("{") \o Times("x_", 130), S("}")>>,
              <<S("/begin{") \o Times("e", 260) \o S("}"), S("/end{") \o Times("e", 260) \o S("}")>>,
              <<S("/begin{") \o Times("e", 40) \o S("}"), S("/end{") \o Times("e", 39) \o S("f}")>>,
              <<S("/documentclass[") \o Times("x", 260) \o S("_=_") \o Times("y", 260) \o S("]{k}"), <<>>>>,
              <<S("/documentclass{") \o Times("k", 260) \o S("}"), <<>>>>,
              <<S("%") \o Times("x{", 130) \o S("~"), <<>>>>, <<S("$") \o Times("x", 260), S("$")>>}
ManyWraps == {<<S("/c") \o Times("{x}", 40), <<>>>>, <<S("/c") \o Times("~[x]", 40), S("{~}")>>,
              <<S("/begin{e}") \o Times("{x}", 40), S("/end{e}")>>, <<Times("/c", 140), <<>>>>,
              <<S("/begin{e}") \o Times("~(x~)", 20), S("/end{e}")>>, <<Times("{x}", 140), <<>>>>,
              <<Times("$x$~", 70), <<>>>>, <<Times("/[x/]", 70), <<>>>>, <<Times("$$x$$", 40), <<>>>>,
              <<Times("/begin{e}~/end{e}", 40), <<>>>>, <<Times("~~x", 140), <<>>>>, <<Times("a%x~", 70), <<>>>>,
              <<S("/documentclass[") \o Times("a=b,~", 40), S("c]{k}")>>, <<Times("/%", 140), <<>>>>,
              <<S("/documentclass") \o Times("[a]", 20) \o S("{k}"), <<>>>>, <<Times("/%x{}~", 40), <<>>>>,
              <<Times("/begin{document}~/end{document}~", 20), <<>>>>,
              <<S("{") \o Times("x/c{}~", 40), S("}")>>, <<S("/(") \o Times("x/c{}~", 40), S("/)")>>,
              <<S("$") \o Times("x/c{}~", 40), S("$")>>, <<S("/begin{e}") \o Times("x/c{}~", 40), S("/end{e}")>>}
Around(a, b, k) == <<Times(a, k), Times(b, k)>>
NestWraps == {Around("{", "}", 40), Around("{(", ")}", 20), Around("/c[~", "]", 40), Around("/c{}~{", "}", 40),
              Around("/begin{e}~", "/end{e}", 40), Around("/begin{e}[~", "]/end{e}", 20), Around("/(", "/)", 40),
              Around("/[~", "/]", 40), Around("$a{", "}$", 20), Around("$$~/c{", "}$$", 20),
              Around("/begin{e}/begin{f}", "/end{f}/end{e}", 20), Around("{/begin{e}", "/end{e}}", 20),
              Around("/begin{e}x{", "~}/end{e}", 20), Around("/[/(", "/)/]", 20), Around("/({", "}~/)", 20),
              Around("/begin{e}", "~/end{e}", 70), Around("/[", "/]~", 70), Around("~/c{}(", ")", 70)}
DeepWraps == {<<Times("{", 260), S("~") \o Times("}", 260)>>, <<Times("/c{", 259) \o S("~"), Times("}", 259)>>,
              <<Times("/(", 258), S("~") \o Times("/)", 258)>>}

\* Runs: more of a character than 16 bits count, at every place that holds text
RunWraps == {W("x@", ""), W("", "x@"), W("x@", "y@"), W("{a@}", "x"), W("(a@", ")"), W("/c@{", "}"), W("/c:{}@[", "]"),
             W("/c{x@}:{", "}"), W("/c[", "x@]"), W("/c:", ""), W("/c@", ""), W("/.{", "}"), W("/c.", "{x}"), W(".", "."),
             W(".:", ":."), W("%.{x@", ""), W("{.", "}"), W("{:", "}x@"), W("/begin{e}x@", "/end{e}"),
             W("/begin@{e}[", "]/end:{e}x"), W("/begin{e:.}", "/end@{e:.}"), W("/begin{x@}{", "}/end{x@}"),
             W("/begin{e}[x@](", ")/end{e}"), W("/begin{e}{}", "x@/end{e}"), W("{/begin{e}{@}", "/end{e}}"),
             W("$x@", "$"), W("$$@", "$$"), W("$$", "x.$$"), W("/(x@", "/)"), W("/[", "/c@{}/]"), W("x@$", "$"),
             W("x@/(", "/)"), W("/documentclass[", "=@.]{k}"), W("/documentclass[a:=:.,", "]@{.}"), W("/documentclass{@k}[", "]"),
             W("x@/begin{document}", "x@/end{document}@"), W("/begin@{document}[x@]", "/end@{document}"),
             W("/begin{document}/end{document}x@", ""), W("/begin{document}@", "x@/end{document}.@{"),
             W("/begin{e}/begin{f}x@", "/end{f}@/end{e}"), W("{[(x@", ")x@]@}"), W("/c{/c{@", "}@}"), W("$x{@", "}x@$")}

\* Counts: as many of something as a small counter, or a guard, might stop at
CountsOf == {16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257}
Counted(k) ==
    {<<S("/c") \o Times("{x}", k), <<>>>>, <<S("/begin{e}") \o Times("[~]", k), S("/end{e}")>>,
     <<S("/documentclass[a=b") \o Times(",c", k - 1), S("]{k}")>>, <<S("/documentclass") \o Times("[a]", k) \o S("{k}"), <<>>>>,
     <<Times("{}", k), <<>>>>, <<Times("/c", k), <<>>>>, <<S("x") \o Times("~", k) \o S("y"), <<>>>>, <<S("/c") \o Times("_", k), S("{}")>>,
     <<S("/c{") \o Times("~", k), S("}")>>, <<Times("x", k), <<>>>>, <<S("/") \o Times("x", k), <<>>>>, <<Times("$x$", k), <<>>>>,
     <<S("$") \o Times("x", k), S("$")>>, <<S("/(") \o Times("/(/)", k), S("/)")>>, <<S("{") \o Times("{}", k), S("}")>>,
     <<S("/begin{e}") \o Times("/begin{e}/end{e}", k), S("/end{e}")>>, <<S("/begin{") \o Times("e", k) \o S("}"), S("/end{") \o Times("e", k) \o S("}")>>,
     <<S("/begin{document}") \o Times("x~~", k), S("/end{document}")>>, <<S("%") \o Times("x", k) \o S("~"), <<>>>>,
     <<Times("!", k), S("{}")>>, <<S("a_") \o Times("^", k), S("~~x")>>, <<S("/[") \o Times("~", k), S("/]")>>}
CountWraps == UNION {Counted(k) : k \in CountsOf}
\* and many more, for which the properties are not checked once more
Thousand(k) ==
    Counted(k)
    \cup {<<Times("/begin{e}x/end{e}", k), <<>>>>, <<Times("x/c{a}$y$~~", k), <<>>>>, <<S("{") \o Times("x{}~", k), S("}")>>, <<Times("/(x/)/[y/]$$z$$", k), <<>>>>,
          <<S("/begin{e}") \o Times("x/c{}[~]~~$x$", k), S("/end{e}")>>, <<S("/begin{document}") \o Times("/c~{}$x$~~{}", k), S("/end{document}")>>,
          <<S("/begin{document}~/end{document}") \o Times("x/c{}~", k), S("~")>>, <<Times("x{}$y$~~", k) \o S("/begin{document}"), S("/end{document}")>>,
          <<S("/[") \o Times("x{~}/c/d_", k), S("/]")>>, <<S("$") \o Times("x{~}/c/d_", k), S("$")>>, <<Times("%x~", k) \o S("{"), S("}")>>, <<Times("~%", k), S("~x")>>,
          <<S("/c") \o Times("~", k) \o S("{a}"), S("{x}")>>, <<S("/begin{e}") \o Times("_~[x]", k), S("/end{e}")>>, <<S("/c") \o Times("_{/d~{}}~", k), <<>>>>}

\* Twins: next to something as long that starts as it does
Alike == {Times("x", 20), Times("xy_", 25), Times("w~", 150), Times("x{}", 12), Times("/c~{x}", 14)}
Twins == UNION {{<<S("{") \o p \o S("a}{") \o p, S("}")>>, <<S("/c{") \o p \o S("a}{") \o p, S("}")>>,
                 <<S("/c{") \o p \o S("a}/c{") \o p, S("}")>>, <<S("/begin{e}{") \o p \o S("a}{") \o p, S("}/end{e}")>>,
                 <<S("/begin{e}") \o p \o S("a/end{e}/begin{e}") \o p, S("/end{e}")>>,
                 <<S("$") \o p \o S("a$/($") \o p, S("$/)")>>, <<S("$") \o p \o S("a$$") \o p, S("$")>>,
                 <<p \o S("a~~") \o p, S("~~")>>, <<S("/documentclass[") \o p \o S("a,") \o p, S("]{k}")>>,
                 <<S("/begin{document}{") \o p \o S("a}/end{document}{") \o p, S("}")>>} : p \in Alike}
         \cup UNION {{<<S("/begin{") \o p \o S("a}/end{") \o p \o S("a}/begin{") \o p \o S("y}/end{") \o p, S("}")>>,
                     <<S("/") \o p \o S("a/") \o p, S("")>>} : p \in {Times("x", 20), Times("xy", 40)}}

\* A construct in every combination of where it stands, how it is written and
\* what is in it
Pairs(befores, openings, closings, afters) ==
    {<<S(b) \o S(o), S(c) \o S(a)>> : b \in befores, o \in openings, c \in closings, a \in afters}
EnvShapes == Pairs({"", "x~"}, {"/begin{e}", "/begin~{e}"}, {"/end{e}", "/end~{e}"}, {"", "~x"})
             \cup Pairs({"", "x~"}, {"/begin{e~}", "/begin~{e~}"}, {"/end{e~}", "/end~{e~}"}, {"", "~x"})
DocShapes == Pairs({"", "x~", "/documentclass{k}", "/documentclass~[a~=b,c]~{k}~"}, {"/begin{document}", "/begin~{document}[~]"},
                   {"/end{document}", "/end~{document}"}, {"", "~x", "{$~$}"})
MathsShapes == UNION {Pairs({"", "x~", "~~"}, {m[1]}, {m[2]}, {"", "~x", "~~"}) : m \in {<<"$", "$">>, <<"$$", "$$">>, <<"/(", "/)">>, <<"/[", "/]">>}}

\* Names that mean something in LaTeX: no other than any other
EnvNames == {"verbatim", "verbatim*", "lstlisting", "comment", "equation", "equation*", "align", "align*",
             "math", "displaymath", "array", "tabular", "itemize", "figure", "thebibliography",
             "document*", "documents", "Document", "abstract", "filecontents", "minted",
             "_document", "document_", "~document~", "^document", "doc", "documentx", "document1", "DOCUMENT"}
NameWraps == {<<S("/begin{") \o S(e) \o S("}"), S("/end{") \o S(e) \o S("}")>> : e \in EnvNames}
             \cup {W("/begin{align*}", "/end{align}"), W("/begin{align}", "/end{align*}"),
                   W("/begin{Document}", "/end{document}"), W("/begin{a}", "/end{A}"),
                   W("/begin{document}", "/end{document_}"), W("/begin{_a}", "/end{a}")}
CommandNames == {"verb", "verb*", "item", "par", "section*", "newcommand", "def", "let", "left", "right", "text",
                 "mbox", "usepackage", "documentstyle", "documentclass", "makeatletter", "begingroup", "endgroup",
                 "input", "label", "cite", "frac", "sqrt", "newline", "iffalse", "fi", "else", "lstinline", "url",
                 "endinput", "relax", "begins", "ending", "Begin", "End", "DocumentClass", "documentclass*",
                 "ensuremath", "footnote", "begin*", "end*", "documentclass1", "document", "class", "begin1", "endx", "END"}
NameTokens == {S("/") \o S(c) : c \in CommandNames}
Placings == {W("", ""), W("{", "}"), W("$", "$x"), W("~~", "~~x"), W("", "{x}[~y]"), W("", "~x"), W("", "{x"),
             W("/begin{e}", "~/end{e}"), W("", "(x)~"), W("", "|%|x"), W("", "_{$}"), W("/(", "/)"), W("", "$x$"),
             W("/begin{document}", "{a}~/end{document}"), W("/c", "{x}"), W("x", "+/verb+x~~")}
OptionNames == {"a4paper", "12pt", "twocolumn", "draft=true", "draft=false", "draft", "lang=en", ",", "_", "x={}"}

----------------------------------------------------------------------------
Def == [
  \* every character that means something to stage 1
  raw |-> [tok |-> Ss({"a", "/", "_", "~", "%", "{", "}", "(", ")", "$"}),
           max |-> <<4, 5, 6>>, wraps |-> Bare],
  brackets |-> [tok |-> Ss({"a", "/", "~", "{", "}", "(", ")", "[", "]"}),
           max |-> <<4, 5, 6>>, wraps |-> Bare],
  comments |-> [tok |-> Ss({"%", "/", "~", "a", "{", "}"}),
           max |-> <<5, 6, 7>>, wraps |-> {W("", ""), W("/c{", "~}"), W("/c_", "~")}],
  classes |-> [tok |-> Ss({"a", "!", "|", "1", "#", "Z", "^", "`", "'", ">", "/", "{", "}", "~"}),
           max |-> <<3, 4, 5>>, wraps |-> {W("", ""), W("/", ""), W("/c{}", ""), W("/c[~]'", "{}")}],
  \* commands and their arguments
  commands |-> [tok |-> Ss({"/c", "{", "}", "[", "]", "_", "~", "x", "/%", "%"}),
           max |-> <<4, 5, 6>>, wraps |-> Bare],
  spacing |-> [tok |-> Ss({"/c", "~", "_", "^'", "{a}", "[~]", "/1", "/#", "/Z", "/{", "/~", "b", "%~"}),
           max |-> <<4, 5, 6>>, wraps |-> Bare],
  groups |-> [tok |-> Ss({"a", "~", "/c", "{", "}", "(", ")", "[", "]", "/{", "/]"}),
           max |-> <<2, 3, 4>>, wraps |-> Groups],
  \* environments
  envs |-> [tok |-> Ss({"/begin{a}", "/end{a}", "/begin{b}", "/end{b}", "x", "~", "{", "}", "/begin~{a}["  , "]"}),
           max |-> <<4, 5, 6>>, wraps |-> Bare],
  envlabels |-> [tok |-> Ss({"/begin", "/end", "{a}", "{a~}", "{", "}", "[a]", "_", "~", "x"}),
           max |-> <<4, 5, 6>>, wraps |-> Bare],
  envodd |-> [tok |-> Ss({"/begin{a/c{x}}", "/end{a/c{x}}", "/begin{}", "/end{}", "/end{a}{b}", "/begin(a)",
                          "/begin{a}[~](y)", "/end_~{a}", "~", "/begins{a}", "/end{a/c}", "/begin{a}"}),
           max |-> <<3, 4, 5>>, wraps |-> {W("", ""), W("{", "}")}],
  envdeep |-> [tok |-> Ss({"/begin{a}", "/end{a}", "x", "~", "/c{", "}", "/begin{a}[", "]", "/end~{a}"}),
           max |-> <<2, 3, 4>>, wraps |-> Envs],
  \* maths
  dollars |-> [tok |-> Ss({"$", "x", "~", "{", "}", "/c", "_"}),
           max |-> <<5, 6, 7>>, wraps |-> Bare],
  maths |-> [tok |-> Ss({"$", "x", "~", "/(", "/)", "/[", "/]", "{", "}", "/c{"}),
           max |-> <<4, 5, 6>>, wraps |-> Bare],
  mathsbig |-> [tok |-> Ss({"$", "$$", "/(", "/)", "/[", "/]", "{$", "$}", "~", "/begin{a}", "/end{a}", "/c{x}"}),
           max |-> <<3, 4, 5>>, wraps |-> Bare],
  mathsdeep |-> [tok |-> Ss({"$", "x", "~", "/(", "/)", "/[", "/]", "{", "}"}),
           max |-> <<2, 3, 4>>, wraps |-> Mathss],
  \* paragraphs
  paragraphs |-> [tok |-> Ss({"x", "~", "_", "$", "{", "}"}),
           max |-> <<5, 6, 7>>, wraps |-> Bare],
  parabig |-> [tok |-> Ss({"x", "~", "~~", "~_~", "`", "^", "'", "$", "/c", "%"}),
           max |-> <<3, 4, 5>>, wraps |-> {W("", ""), W("{", "}"), W("a~", "~b")}],
  paradeep |-> [tok |-> Ss({"x", "~", "_", "$", "/c"}),
           max |-> <<3, 4, 5>>, wraps |-> Groups \cup Envs \cup Mathss \cup Docs],
  \* sections
  docs |-> [tok |-> Ss({"/begin{document}", "/end{document}", "x", "~", "$", "{", "}", "/documentclass{k}", "/begin_{document}[y]"}),
           max |-> <<4, 5, 6>>, wraps |-> Bare],
  classcmd |-> [tok |-> Ss({"/documentclass", "{k}", "[a,b=c]", "(d)", "~", "{", "}", "_", "/begin{document}/end{document}", "$"}),
           max |-> <<4, 5, 6>>, wraps |-> Bare],
  options |-> [tok |-> Ss({"a", "=", ",", "_", "~", "b"}),
           max |-> <<4, 5, 6>>, wraps |-> Options],
  optionsodd |-> [tok |-> Ss({"a", "==", ",", "_", "{b,c}", "/c", "^", "%~", "!"}),
           max |-> <<3, 4, 5>>, wraps |-> Options],
  docdeep |-> [tok |-> Ss({"x", "~", "$", "/begin{a}", "/end{a}", "/c{~}", "{", "}", "~~", "/)", "/(", "/begin{document}", "/end{document}"}),
           max |-> <<2, 3, 4>>, wraps |-> Docs],
  \* everything, inside deep nesting
  deep |-> [tok |-> Ss({"x", "~", "$", "/begin{a}", "/end{a}", "/c{", "{", "}", "(", ")", "[", "]", "/(", "/)", "/["}),
           max |-> <<2, 3, 4>>, wraps |-> Deep],
  \* errors behind several newlines
  errors |-> [tok |-> Ss({"~", "{", "}", "/c{", "/c[]", ")", "/begin{a}", "/end{a}", "/begin", "$", "/(", "/)", "{~}"}),
           max |-> <<3, 4, 5>>, wraps |-> Bare],
  errordeep |-> [tok |-> Ss({"~", "/c)", "$", "/)", "/end{a}", "/begin{a}", "/begin", "{", "/c{", "/end{a}{b}", "/documentclass{k}"}),
           max |-> <<2, 3, 4>>, wraps |-> Bare \cup Groups \cup Envs \cup Mathss \cup Docs \cup Deep],
  \* names
  envnames |-> [tok |-> Ss({"x", "~", "~~", "$", "%", "/c{", "{", "}", "/begin{a}", "/end{a}", "[x]", "/)",
                          "/begin{a}~x/end{a}", "$x$", "{~}", "/(x/)~", "x~~y", "%}~", "/end{b}"}),
           max |-> <<1, 2, 2>>, wraps |-> NameWraps],
  cmdnames |-> [tok |-> NameTokens, max |-> <<1, 1, 2>>, wraps |-> Placings],
  optionnames |-> [tok |-> Ss(OptionNames), max |-> <<2, 3, 4>>,
           wraps |-> {W("/documentclass[", "]{article}"), W("/documentclass{book}", "~/begin{document}/end{document}"),
                      W("/documentclass[a4paper,", ",11pt]{beamer}")}],
  \* big sources
  tall |-> [tok |-> Ss({"x", "~", "/c{", "$", "{", "/end{e}"}), max |-> <<1, 2, 3>>, wraps |-> TallWraps],
  long |-> [tok |-> Ss({"x", "~", "/c{", "$", "{a}", "/end{e}"}), max |-> <<1, 2, 3>>, wraps |-> LongWraps],
  many |-> [tok |-> Ss({"x", "~", "/c{", "$", "{~}", "/end{e}"}), max |-> <<1, 2, 3>>, wraps |-> ManyWraps],
  nest |-> [tok |-> Ss({"x", "~", "/c{", "$", "}", "/end{e}", "/)"}), max |-> <<1, 2, 3>>, wraps |-> NestWraps],
  runs |-> [tok |-> Ss({"x", "~", "^", "/c", "{", "}", "$", "/end{e}", "{~}"}), max |-> <<2, 3, 3>>, wraps |-> RunWraps],
  counts |-> [tok |-> Ss({"x", "~", "/c{", "{x}", "{)}", "/end{e}"}), max |-> <<1, 1, 2>>, wraps |-> CountWraps],
  thousands |-> [tok |-> Ss({"x", "~", "/c{", "{x}", "{)}", "/end{e}"}), max |-> <<1, 2, 2>>, wraps |-> UNION {Thousand(k) : k \in {513, 1025}}],
  fivethousand |-> [tok |-> Ss({"x", "{~}"}), max |-> <<1, 2, 2>>, wraps |-> Thousand(5001)],
  longlines |-> [tok |-> Ss({"~^", "^~", "{", "}", "x", "/c", "/begin{e}", "/end{e}"}), max |-> <<3, 4, 5>>,
           wraps |-> {W(".", ""), W("", "."), W("{.", "}")}],
  \* spacing before the arguments of commands and environments that have many
  argspacing |-> [tok |-> Ss({">{}", ">>_[x]", "_>_{~}", "~(x)", "'^`{}", "{x}", "^^^[~]", "%~{}", ">~{x}"}), max |-> <<3, 4, 5>>,
           wraps |-> {W("/c", ""), W("/c{a}[b](c){d}", ""), W("/c{}[~]{}_(){}[]{~}", "~x"), W("/begin{e}", "~/end{e}"),
                      W("/begin{e}[][](){}", "/end{e}"), W("/begin{document}", "~/end{document}~{x}"), W("/documentclass", "")}],
  envshape |-> [tok |-> Ss({"{}", "{~}", "~[x]", "~", "x", "$~$", "/c{~}"}), max |-> <<3, 4, 5>>, wraps |-> EnvShapes],
  docshape |-> [tok |-> Ss({"{}", "~[~]", "~", "~~", "x", "$~$"}), max |-> <<2, 3, 4>>, wraps |-> DocShapes],
  mathsshape |-> [tok |-> Ss({"x", "~", "{~}", "/c~{x}", "~~", "/begin{e}~/end{e}", "_"}), max |-> <<2, 3, 4>>, wraps |-> MathsShapes],
  twins |-> [tok |-> Ss({"a", "b", "~", "$", "{x}", "y"}), max |-> <<1, 2, 3>>, wraps |-> Twins],
  deepest |-> [tok |-> Ss({"x", "~", "/c", "$"}), max |-> <<0, 1, 2>>, wraps |-> DeepWraps]
]
BigFamilies == {"tall", "long", "many", "nest", "deepest", "counts", "thousands", "fivethousand", "argspacing", "envshape", "twins"}
=============================================================================
