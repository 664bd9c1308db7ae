#!/usr/bin/env python3
"""Writes known-findings.txt from the fix commits of /repo."""
import subprocess
PROP = {  # start of the commit subject: property, what failed
 "keep the bracket kind of a round": ("C01", "(a) and [a] were read as {a}: the bracket kind of a scope was lost and the text changed"),
 "keep brackets nested in an argument": ("C01", "\\c{{a}} lost the brackets nested in an argument of the same kind"),
 "an escaped bracket or space after a command": ("C04", "\\c\\{ and \\c\\ a: an escaped bracket or space after a command was taken as argument or trailing space"),
 "a backslash in a comment": ("C01", "a backslash in a comment escaped the character after the comment"),
 "an escaped newline is a command": ("C09", "a backslash-newline command was given the following line"),
 "line number of whitespace between": ("C09", "whitespace between a command and the end of input had the line of its end"),
 "line of an error in a later argument": ("C12", "an error in a later argument was reported on a line of the first"),
 "keep a lone backslash": ("C01", "a backslash at the end of the source was dropped"),
 "an environment is on the line": ("C09", "an environment whose begin command spans lines was given the last of them"),
 "lines of stage 2 errors": ("C12", "stage 2 errors inside scopes, arguments and environments were reported relative to them or off by some lines"),
 "text beside a command inside dollar": ("C03", "$a\\b c$: text beside a command inside dollar maths left the block or was lost"),
 "keep a single dollar inside": ("C03", "$$a$b$$ lost the single dollar"),
 "keep bracket maths delimiters": ("C06", "\\(\\(x\\)\\) lost the inner delimiters"),
 "lines in bracket maths": ("C09", "chunks in bracket maths were numbered from the container, not the block"),
 "line of a paragraph break": ("C09", "a paragraph break of more than two newlines was put on a later line"),
 "render the spacing of the document": ("C03", "the whitespace before the label of \\end {document} was lost"),
 "a second document environment": ("C08", "a second document environment replaced the first as the body"),
 "first character and value": ("C08", "class options lost their first character or value"),
 "count the lines in the arguments": ("C10", "lines of a stage 3 document ignored the arguments and spacing of its document environment"),
 "validate the arguments": ("C17", "invalid arguments of the document environment were not refused"),
 "lines after the document environment": ("C09", "chunks after the document environment were numbered from the whole document"),
 "lines of stage 3 errors": ("C12", "stage 3 errors inside containers were reported relative to them"),
 "line numbers when a stage 3": ("C15", "lowering a stage 3 document gave other line numbers than stage 2 parsing"),
 "lowering stage 3 merges": ("C15", "lowering left the text around breaks and dollar maths in pieces"),
 "do not add a document environment": ("C03", "a source without document environment was rendered with one added"),
 "lower an environment whose label": ("C19", "lowering an environment built with a label that does not parse (e.g. \"{\") panicked, and one with a comment lost it"),
 "commands with arguments do not delimit": ("C20", "the arguments of a command \\(, \\[, \\) or \\] built by hand were lost when raised to stage 3"),
 "refuse to push text": ("C16", "checked pushes of \"a\\n\" and \"\\n\" left stage 3 text that does not validate"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out = ["# Findings of the checks on latex-ast.  Lines:",
       "#   finding: property=<id> source=<JSON string of the failing source> <what fails>   (reported as KNOWN-FINDING)",
       "#   fixed: property=<id> <commit> <what failed>                                      (suppresses nothing)"]
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        k = [k for k in PROP if s[5:].startswith(k)]
        assert len(k) == 1, s
        out.append("fixed: property=%s %s %s" % (PROP[k[0]][0], h, PROP[k[0]][1]))
open("/verif/known-findings.txt", "w").write("\n".join(out) + "\n")
