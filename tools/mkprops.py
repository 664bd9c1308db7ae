#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements stay readable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],
                   observe_at=list(observe),hook_needed=None)))
S1=["src/ast1/document.rs"]
p("C01","Stage 1 parse then render reproduces the source",
  "Stage 1 accepts every well-formed source text, and for every accepted one rendering the parsed document gives back the source character for character, except that every comment (an unescaped percent sign and what follows it up to, but not including, the end of that line) is gone. Nothing else is dropped, added, reordered or changed, whatever characters, escapes, bracket kinds or nesting the source uses.",
  ["inputs"],"all source texts accepted by stage 1",
  "The tests render one document; loss shows only for particular mixes of escapes, comments, bracket kinds, nesting and end-of-input positions, an infinite input space.",
  ["src/ast1/document.rs","src/ast1/scope.rs","src/ast1/command.rs","src/ast1/chunkvariant.rs","src/ast1/scopevariant.rs"],
  [("character loop with Text/Scope/Command buffers","src/ast1/document.rs FromStr"),("Display of document, chunk, scope, command","src/ast1/*.rs")],
  [("buffer","the text, command or scope being read","src/ast1/document.rs Buffer"),("escaped, comment","whether the next character is escaped / ignored","src/ast1/document.rs from_str")],
  ["ast1::Document::from_str","ast1::Document::to_string"])
p("C02","Stage 2 parse then render reproduces the source",
  "Stage 2 accepts every well-formed source text, and for every accepted one rendering the stage 2 document gives back the source character for character apart from removed comments. This includes environment labels, the whitespace before each label and argument, arguments and nested content.",
  ["inputs"],"all source texts accepted by stage 2",
  "One document is rendered by the tests; the loss-freedom claim of the documentation ranges over all documents, nestings and spacings.",
  ["src/ast2/document.rs","src/ast2/environment.rs","src/ast2/command.rs","src/ast2/scope.rs","src/ast2/chunkvariant.rs"],
  [("folding of begin/end into environments","src/ast2/document.rs TryFrom<ast1::Document>"),("Display of environments","src/ast2/environment.rs")],
  [("buffer_stack, buffer, env_args, prec_begin","environments being collected","src/ast2/document.rs")],
  ["ast2::Document::from_str","to_string"])
p("C03","Stage 3 parse then render reproduces the source",
  "Stage 3 accepts every well-formed source text, and for every accepted one rendering the stage 3 document gives back the source character for character apart from removed comments, in the original order. This includes maths in every delimiter style, paragraph breaks, the preamble, the text after the document environment, and sources with no or several document environments.",
  ["inputs"],"all source texts accepted by stage 3",
  "One document is rendered by the tests; text around commands inside maths, further document environments or spacing of the end command are never tried.",
  ["src/ast3/document.rs","src/ast3/mathsblock.rs","src/ast3/paragraph.rs","src/ast3/environment.rs","src/ast3/scope.rs","src/ast3/command.rs"],
  [("splitting into preamble, body, trailing","src/ast3/document.rs TryFrom"),("maths and paragraph splitting","src/ast3/mathsblock.rs, src/ast3/paragraph.rs"),("Display","src/ast3/*.rs")],
  [("mode, depth, buffer, text_buffer","maths block being collected","src/ast3/mathsblock.rs from_chunks")],
  ["ast3::Document::from_str","to_string"])
p("C04","Stage 1 trees follow the source's brackets, escapes and commands",
  "Every well-formed source has a stage 1 tree, which consists, in order and at every depth, of exactly its maximal text runs, commands and scopes: a command name is the single non-letter character after a backslash, or else runs up to the next whitespace, bracket or backslash; the bracketed groups after it, with only whitespace before each (kept with it), are its arguments; any other group opened outside a command is a scope of its own bracket kind. A group ends at the closing bracket balancing its own kind, and an escaped character never opens, closes or starts anything. Single-character commands take no arguments unless the character is an ASCII letter.",
  ["inputs"],"all source texts accepted by stage 1, at every nesting depth",
  "Tests compare two hand-built trees; the attribution rules must hold for every combination of escapes, spacing, comments, nested and mixed brackets.",
  ["src/ast1/document.rs","src/ast1/scopevariant.rs"],
  [("buffer transitions on each character","src/ast1/document.rs FromStr"),("bracket classification","src/ast1/scopevariant.rs")],
  [("depth","open brackets of the group's kind","src/ast1/document.rs Buffer"),("trailing","whitespace after a command not yet attributed","src/ast1/document.rs Buffer::Command")],
  ["ast1::Document::chunks"])
p("C05","Stage 2 folds each begin with the end that balances it",
  "Every well-formed source has a stage 2 tree, in which every begin command and the end command that balances it, among the chunks of the same group, form one environment carrying the label, the further arguments, the content, and the whitespace before the two labels, and everything else stays as in stage 1. Nested environments, of equal or different names, and environments inside scopes, arguments and environment arguments are folded likewise at every depth.",
  ["inputs"],"all source texts accepted by stage 2, at every nesting depth",
  "Tests fold one document with one nested environment; same-name nesting, arguments, spacing and depth are unexplored.",
  ["src/ast2/document.rs","src/ast2/environment.rs","src/ast2/command.rs","src/ast2/scope.rs"],
  [("label stack and content buffer","src/ast2/document.rs TryFrom<ast1::Document>")],
  [("buffer_stack","labels of the open environments","src/ast2/document.rs")],
  ["ast2::Document::chunks","ast2::Environment::decompose"])
p("C06","Stage 3 turns each delimited maths span into one maths block",
  "Every well-formed source has a stage 3 tree, in which every span between matching maths delimiters ($, $$, \\( \\), \\[ \\]) among the chunks of one group is one maths block of the right style and inline or outline type, holding exactly the chunks between the delimiters, themselves processed in the same way. No maths delimiter of the source remains outside its block, and what lies outside the spans stays outside, in order, at every depth.",
  ["inputs"],"all source texts accepted by stage 3, at every nesting depth",
  "Tests contain one $$ block holding text only; commands, scopes and nested maths in each delimiter style are never exercised.",
  ["src/ast3/mathsblock.rs"],
  [("maths mode machine over chunks and characters","src/ast3/mathsblock.rs from_chunks")],
  [("mode","open maths delimiter","src/ast3/mathsblock.rs"),("depth","nesting of the same bracket delimiter","src/ast3/mathsblock.rs")],
  ["ast3::Document::chunks_body/preamable/trailing","Display of ast3::MathsBlock"])
p("C07","Stage 3 separates paragraph breaks exactly",
  "Every well-formed source has a stage 3 tree, in which every paragraph break chunk is whitespace that starts with a newline and contains at least two, no text chunk contains two newlines with only whitespace between them, and every such stretch of the source outside maths delimiters becomes one break reaching up to the next non-whitespace character or the end of its text run. Text before and after a break keeps its characters.",
  ["inputs"],"all source texts accepted by stage 3, in every group at every depth",
  "Tests contain three exact double newlines; mixed whitespace, three or more newlines, and run boundaries are not covered.",
  ["src/ast3/paragraph.rs","src/ast3/chunkvariant.rs"],
  [("newline-counting split of text chunks","src/ast3/paragraph.rs from_chunks")],
  [("consec_newlines","newlines seen since the last non-whitespace","src/ast3/paragraph.rs")],
  ["ast3 chunks of kind Text and ParagraphBreak"])
p("C08","Stage 3 splits sections and document class as written",
  "For every well-formed source stage 3 gives a document whose body is the first top-level document environment (with its arguments and the whitespace before its begin and end labels), whose preamble is what precedes it and whose trailing part is what follows, or which is all preamble when there is none. The document class is the curly argument of the preamble's class command, and each comma-separated option in its other arguments is recorded as leading space, key, optionally space, equals sign, space and value, and trailing space, whose concatenation is the option's source text.",
  ["inputs"],"all source texts accepted by stage 3",
  "The single test has a class without options and an empty trailing part.",
  ["src/ast3/document.rs"],
  [("section cursor and class/option parsing","src/ast3/document.rs TryFrom<ast2::Document>")],
  [("cursor","before or after the document environment","src/ast3/document.rs"),("documentclass, documentoptions","class and options","src/ast3/document.rs")],
  ["ast3::Document::decompose"])
p("C09","Every chunk records the line it starts on",
  "In every tree produced by parsing, at each of the three stages and at every depth, a chunk's line number is one plus the number of newlines that precede its first character within its container (whole document, preamble, body or trailing part, scope, argument, environment content after the begin command, or maths block content). Comments, escaped newlines, and newlines inside labels, arguments and spacing all count.",
  ["inputs"],"all accepted source texts, all chunks at all depths, all stages",
  "Tests pin line numbers of three documents; newlines in arguments, escapes, spacing and end of input are not among them.",
  ["src/ast1/document.rs","src/ast2/document.rs","src/ast3/mathsblock.rs","src/ast3/paragraph.rs","src/ast3/document.rs"],
  [("line counters carried by each pass","src/ast1/document.rs line_no, buffer_line_no; src/ast2/document.rs buffer_start; src/ast3/mathsblock.rs buffer_line; src/ast3/paragraph.rs buffer_line")],
  [("line_no, buffer_line_no","current line and first line of the open buffer","src/ast1/document.rs")],
  ["Chunk::line_no at all stages"])
p("C10","Line counts agree with rendered text",
  "For every text run, command, scope, environment, maths block, chunk and document, parsed or built by hand at any stage, the reported number of lines is one plus the number of newline characters in its rendered text.",
  ["inputs","programs"],"all parsed documents and all trees built through the public constructors",
  "Three tests compare the line count of one document each.",
  ["src/ast1/command.rs","src/ast1/scope.rs","src/ast1/document.rs","src/ast2/environment.rs","src/ast2/command.rs","src/ast2/document.rs","src/ast3/document.rs","src/ast3/mathsblock.rs","src/ast3/environment.rs","src/ast3/command.rs"],
  [("Lines implementations","src/ast{1,2,3}/*.rs impl Lines")],
  [], ["traits::Lines::lines","to_string"])
p("C11","Exactly the malformed sources are rejected, with the right kind",
  "A stage accepts a source unless some group contains an unclosed scope or argument, a closing bracket directly after a command or argument, (stage 2 on) a begin or end without a curly label first, an end not naming the innermost open environment or having several arguments, an unclosed environment, or (stage 3) a second document class before the body, a second curly class argument, a closing maths command with no maths open, or unclosed maths. The error names the kind of problem and its bracket kind or environment label.",
  ["inputs"],"all source texts, at every stage and depth",
  "Seven malformed documents are tested; acceptance must be decided right for every input at every depth.",
  ["src/ast1/document.rs","src/ast2/document.rs","src/ast3/document.rs","src/ast3/mathsblock.rs","src/error.rs"],
  [("error returns of each pass","src/ast1/document.rs, src/ast2/document.rs, src/ast3/document.rs, src/ast3/mathsblock.rs")],
  [], ["Document::from_str error type at all stages"])
p("C12","Error lines point at the offending construct",
  "When a source is rejected, the error's line is the line, counted in the whole source, on which the offending construct starts: the unclosed bracket, the command whose argument is unclosed, the stray closing bracket, the begin or end command, the outermost unclosed begin, the class command, or the maths delimiter. This holds at every stage and however deeply the construct is nested in scopes, arguments, environments, maths or document sections.",
  ["inputs"],"all rejected source texts, at every stage and depth",
  "Six malformed documents are tested; none has an error in a later argument, inside maths, or below two levels of a higher stage.",
  ["src/ast1/document.rs","src/ast2/document.rs","src/ast2/command.rs","src/ast2/scope.rs","src/ast3/document.rs","src/ast3/mathsblock.rs","src/ast3/environment.rs","src/ast3/command.rs"],
  [("relative lines mapped to absolute ones on the way up","map_err in src/ast1/document.rs; map_e/map_env_e in src/ast2/document.rs; src/ast3/*.rs")],
  [], ["Error::line at all stages"])
p("C13","Parsing, rendering and converting never crash",
  "For every source text whose nesting fits the call stack, parsing at each stage terminates with a document or an error, and rendering, counting lines of, validating and converting a parsed document to a lower stage terminates without panic.",
  ["inputs"],"all source texts with bounded nesting depth, all operations on their trees",
  "Tests exercise a dozen sources; arithmetic underflow and unwraps depend on rare line and delimiter layouts.",
  ["src/ast1/document.rs","src/ast2/document.rs","src/ast2/chunk.rs","src/ast3/document.rs","src/ast3/mathsblock.rs"],
  [("unsigned line arithmetic, unwraps, unreachable arms","src/ast1/document.rs, src/ast2/document.rs, src/ast2/chunk.rs, src/ast3/mathsblock.rs")],
  [], ["from_str, to_string, lines, validate, From conversions"])
p("C14","Lowering stage 2 to stage 1 restores the stage 1 tree",
  "For every source text accepted by stage 2, converting the stage 2 document down to stage 1 yields exactly the tree, line numbers included, that stage 1 parsing of the same source yields.",
  ["inputs"],"all source texts accepted by stage 2",
  "One test lowers one document with argument-free environments.",
  ["src/ast2/chunk.rs","src/ast2/scope.rs","src/ast1/document.rs","src/ast1/command.rs","src/ast1/scope.rs"],
  [("expansion of environments into begin, content, end","src/ast2/chunk.rs IntoChunks"),("From<ast2::*>","src/ast1/*.rs")],
  [], ["ast1::Document::from(ast2::Document)"])
p("C15","Lowering stage 3 to stage 2 restores the stage 2 tree",
  "For every source text accepted by stage 3, converting the stage 3 document down to stage 2 yields exactly the tree, line numbers included, that stage 2 parsing of the same source yields.",
  ["inputs"],"all source texts accepted by stage 3",
  "No test lowers a stage 3 document.",
  ["src/ast2/document.rs","src/ast3/chunk.rs","src/ast3/mathsblock.rs","src/ast2/environment.rs","src/ast2/scope.rs","src/ast2/command.rs"],
  [("From<ast3::Document>","src/ast2/document.rs"),("IntoChunks for maths blocks and chunks","src/ast3/mathsblock.rs, src/ast3/chunk.rs")],
  [], ["ast2::Document::from(ast3::Document)"])
p("C16","Push histories keep documents consistent",
  "Starting from any valid document, empty, parsed or built by hand, of any stage (and any section of a stage 3 document), after any sequence of accepted checked pushes the document validates, each pushed chunk carries its true line, adjacent text is merged, and the rendered text is what there was followed by what was pushed. A checked push is refused exactly when the part is invalid, its text would complete a paragraph break in the stage 3 text it merges into, or a pushed chunk's line is not the next line (reported with expected and given line), and then leaves the document unchanged; unchecked pushes merge and number in the same way but never refuse.",
  ["histories"],"all sequences of push operations on documents of all stages and all sections",
  "Tests push at most four parts to stage 1 and 2 documents and none to stage 3.",
  ["src/ast1/document.rs","src/ast2/document.rs","src/ast3/document.rs"],
  [("push, push_chunk and unchecked variants","src/ast1/document.rs, src/ast2/document.rs, src/ast3/document.rs")],
  [("chunks","chunks pushed so far","Document")],
  ["push*, chunks, validate, to_string, lines"])
p("C17","Validation rejects exactly the invalid trees",
  "Validation, and every checking constructor, rejects a tree exactly when at any depth it holds text with a backslash, percent sign or bracket, a command name other than a single byte with such a character, an environment label with such a character, from stage 2 a command named begin or end, at stage 3 text containing a paragraph break or a paragraph break with a non-whitespace character or fewer than two newlines, or when a document's chunk is not on its true line. The error tells the first such problem in document order, and parsed documents are rejected only for an unmatched closing bracket in a text or a reserved character in an environment label.",
  ["programs","inputs"],"all trees built through the public constructors, and all parsed documents",
  "Tests check seven single violations at the top level.",
  ["src/ast1/chunkvariant.rs","src/ast1/command.rs","src/ast1/scope.rs","src/ast1/document.rs","src/ast2/chunkvariant.rs","src/ast2/command.rs","src/ast2/environment.rs","src/ast2/scope.rs","src/ast2/document.rs","src/ast3/chunkvariant.rs","src/ast3/command.rs","src/ast3/environment.rs","src/ast3/mathsblock.rs","src/ast3/scope.rs","src/ast3/document.rs"],
  [("Validate implementations and new constructors","src/ast{1,2,3}/*.rs")],
  [], ["validate, new at all stages"])
p("C18","Rendered documents parse back to the same tree",
  "For every source accepted by a stage, parsing the rendered document again at that stage succeeds and yields an equal document, line numbers, class and options included.",
  ["inputs"],"all source texts accepted by each stage",
  "No test parses a rendered document.",
  ["src/ast1/document.rs","src/ast2/document.rs","src/ast3/document.rs"],
  [("Display and FromStr of each stage","src/ast{1,2,3}/document.rs")],
  [], ["from_str(to_string())"])
p("C19","Hand-built trees render and lower part by part",
  "Any tree built through the public constructors renders as the plain concatenation of its parts in order: texts and breaks verbatim, a backslash and the name for a command, each argument after its preceding string, brackets of the scope's kind, begin and end with label and spacing for environments, and the delimiters of the maths block's style and type. Converting it to the lower stage keeps the rendered text, and accessors and decomposition return the parts it was built from.",
  ["programs"],"all trees built through the public constructors at all stages (environment labels being plain text and lines counted from 1 when lowering)",
  "Tests render parsed documents only and never lower a built one.",
  ["src/ast1/command.rs","src/ast1/scope.rs","src/ast2/chunk.rs","src/ast2/environment.rs","src/ast3/mathsblock.rs","src/ast3/chunk.rs","src/ast3/document.rs","src/ast2/document.rs"],
  [("Display implementations","src/ast{1,2,3}/*.rs"),("IntoChunks and From conversions","src/ast2/chunk.rs, src/ast3/chunk.rs, src/ast3/mathsblock.rs")],
  [], ["to_string, From conversions, decompose"])
p("C20","Hand-built documents convert between stages like parsed ones",
  "Raising a valid hand-built document by a stage turns its balanced begin and end commands (to stage 2), or its maths delimiters, paragraph breaks, class command and document environment (to stage 3), into the same parts as parsing does for a source, or refuses it with the same kind of error and line. Lowering turns these parts back into commands and text. Everything else and the rendered text stay the same, every chunk of the result is on its true line, and lowering a raised document gives back the original, at every depth and however often documents are converted.",
  ["programs","histories"],"all valid documents built through the public constructors, with true lines at every depth, no empty or neighbouring texts and plain text as environment labels, and all sequences of conversions between the stages",
  "Tests convert only what they parsed, one document per direction, and none from stage 3 down.",
  ["src/ast2/document.rs","src/ast2/scope.rs","src/ast2/command.rs","src/ast3/document.rs","src/ast3/mathsblock.rs","src/ast3/paragraph.rs","src/ast2/chunk.rs","src/ast3/chunk.rs","src/ast1/document.rs"],
  [("TryFrom conversions upwards","src/ast2/document.rs, src/ast3/document.rs, src/ast3/mathsblock.rs"),("From conversions downwards","src/ast1/document.rs, src/ast2/document.rs")],
  [], ["ast2::Document::try_from, ast3::Document::try_from, ast1::Document::from, ast2::Document::from"])
p("C21","Parts convert on their own as they do in documents",
  "Every conversion offered for a part gives alone what it gives inside a document. A valid scope, command or environment raised a stage alone becomes the same part, or is refused with the same kind of error, its line counted from the part's first line. A chunk of stage 2 or 3, or its scope, command, environment or maths block, lowered alone becomes the same chunks on the same lines. Finding the maths blocks of a list of chunks, or splitting its texts into paragraphs, gives what that list becomes inside a document. The text is kept each time.",
  ["programs"],"all valid parts and lists built through the public constructors, with true lines, no empty or neighbouring texts and plain text as environment labels (commands that delimit environments or maths have no meaning alone)",
  "No test converts a part except within a document.",
  ["src/ast2/scope.rs","src/ast2/command.rs","src/ast3/scope.rs","src/ast3/command.rs","src/ast3/environment.rs","src/ast3/mathsblock.rs","src/ast3/paragraph.rs","src/ast1/scope.rs","src/ast1/command.rs","src/ast2/environment.rs","src/ast2/chunk.rs","src/ast3/chunk.rs"],
  [("TryFrom of scopes, commands and environments","src/ast2/scope.rs, src/ast2/command.rs, src/ast3/scope.rs, src/ast3/command.rs, src/ast3/environment.rs"),("From and IntoChunks of parts","src/ast1/*.rs, src/ast2/*.rs"),("from_chunks","src/ast3/mathsblock.rs, src/ast3/paragraph.rs")],
  [], ["TryFrom, From, IntoChunks, MathsBlock::from_chunks, Paragraph::from_chunks"])
p("C22","Equality and clones are structural",
  "Two documents, lists, scopes or chunks of a stage compare equal exactly when their structure, texts, spacing, kinds of brackets and delimiters, class, options and line numbers are all the same, at any depth and in whichever order they are compared; != is the opposite of ==. A clone has the same parts, equals its original, and changing the clone leaves the original as it was.",
  ["programs"],"all trees built through the public constructors at all stages",
  "Tests compare documents with the expected one only where they are equal.",
  ["src/ast1/document.rs","src/ast1/chunk.rs","src/ast1/command.rs","src/ast1/scope.rs","src/ast2/document.rs","src/ast2/environment.rs","src/ast2/chunk.rs","src/ast3/document.rs","src/ast3/chunk.rs","src/ast3/mathsblock.rs","src/ast3/environment.rs"],
  [("PartialEq and Clone of every type","src/ast{1,2,3}/*.rs")],
  [], ["==, !=, clone"])
p("C23","Mixed histories of pushes, conversions and reparses stay consistent",
  "However pushes, raising, lowering, and rendering and parsing again are mixed, refused attempts included, starting from any document of any stage, each operation acts on the document exactly as it then is. A push adds its part at the end of its section and changes nothing else. A conversion keeps the rendered text and gives the tree that stage describes; a reparse gives the tree of that text, without comments. A refused attempt tells a reason there is and leaves the document as it was. Afterwards every chunk is on its true line, and documents that were valid still are unless unchecked pushes or reparses intervened.",
  ["histories"],"all sequences of these operations on documents of all stages, parsed or built",
  "Tests apply at most one conversion to a document, and push only to new ones.",
  ["src/ast1/document.rs","src/ast2/document.rs","src/ast3/document.rs","src/ast2/scope.rs","src/ast2/chunk.rs","src/ast3/chunk.rs","src/ast3/mathsblock.rs","src/ast3/paragraph.rs"],
  [("push, push_chunk and unchecked variants","src/ast1/document.rs, src/ast2/document.rs, src/ast3/document.rs"),("TryFrom and From between documents","src/ast1/document.rs, src/ast2/document.rs, src/ast3/document.rs"),("Display and FromStr","src/ast{1,2,3}/document.rs")],
  [("chunks","parts of the document","Document")],
  ["push*, try_from, from, to_string, from_str, validate, chunks"])
p("C24","Edited parts count as they then are",
  "After chunks of a document are edited in place (a variant replaced, text appended to it, the chunk given another line or taken out) and the document is put together again, at any point among pushes, conversions and reparses, everything told of the document follows from the parts it then has. Its rendered text, line count, verdict, pushes and their line numbers, equality and clones are as for a document built afresh from those parts, and nothing else of it has changed. So is raising and lowering it, where its chunks are on their true lines and no texts are empty or next to each other.",
  ["histories"],"all sequences of edits, pushes, conversions and reparses on documents of all stages, parsed or built",
  "No test changes a chunk of a document once it is built.",
  ["src/ast1/chunk.rs","src/ast2/chunk.rs","src/ast3/chunk.rs","src/ast1/document.rs","src/ast2/document.rs","src/ast3/document.rs"],
  [("variant_mut, line_no_mut","src/ast1/chunk.rs, src/ast2/chunk.rs, src/ast3/chunk.rs"),("chunks_owned, decompose, new_unchecked","src/ast{1,2,3}/document.rs"),("Validate, Lines, Display","src/ast{1,2,3}/document.rs")],
  [("chunks","parts of the document","Document")],
  ["variant_mut, line_no_mut, chunks_owned, decompose, lines, validate, ==, to_string"])
p("C25","Results depend on the arguments alone",
  "Whatever else a process has done or is doing, on whichever thread, each call gives what the same call gives when it is made alone in a new process. Parsing a source gives the same document or refusal however many sources were accepted or refused before, however alike they are, and whatever other threads parse or change meanwhile. Documents share nothing: pushing to, editing, converting, replacing or dropping one leaves every other, its clones and what it was cloned from included, as it was. Documents may be handed from thread to thread and looked at by several at once, and calls on different documents made at once give what they give in any order.",
  ["histories","schedules"],"all sequences of parses, clones, pushes, conversions and edits on several documents, from several threads, one after another or at once",
  "Each test makes a few calls on its own documents; none depends on what was called before.",
  ["src/ast1/document.rs","src/ast2/document.rs","src/ast3/document.rs","src/ast3/mathsblock.rs","src/ast3/paragraph.rs","src/ast2/scope.rs","src/ast2/command.rs"],
  [("FromStr, TryFrom and From","src/ast{1,2,3}/document.rs"),("push, chunks_owned, Clone","src/ast{1,2,3}/document.rs")],
  [("chunks","parts of a document","Document")],
  ["from_str, try_from, from, push*, clone, to_string, lines, validate"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x)+"\n")
