------------------------------- MODULE Chars -------------------------------
(* The alphabet.  A source text is a sequence of one-character strings.    *)
(* Characters that are awkward in TLA+ or JSON strings have printable      *)
(* stand-ins; the Rust driver (harness/src/chars.rs) holds the same table: *)
(*    "/"  backslash          "~"  newline            "_"  space           *)
(*    "`"  tab                "^"  U+3000 (3-byte whitespace)              *)
(*    "'"  U+000B (a whitespace that is not ASCII whitespace in Rust)      *)
(*    ">"  carriage return    "!"  U+00E9 (2-byte letter)                  *)
(*    "|"  U+1F600 (4-byte symbol)                                         *)
(* These, and "#" (an ASCII symbol without meaning), "Z" (a letter) and    *)
(* "1" (a digit), are classes: the driver puts several members for them.   *)
(* Every other character stands for itself.                                *)
(* Three symbols stand for runs, so that texts too long for any counter of *)
(* 16 bits can be explored: the driver writes a run out, and reads one     *)
(* back.  They behave as their members do one after the other.             *)
(*    "@"  RunLen newlines    ":"  RunLen spaces    "."  RunLen letters    *)
EXTENDS Naturals, Sequences, SequencesExt

\* A string literal as a sequence of characters
S(str) == [i \in 1..Len(str) |-> SubSeq(str, i, i)]
Ss(strs) == {S(x) : x \in strs}

BS == "/"
NLc == "~"

RunLen == 65536

Space == {"_", "~", "`", "^", "'", ">", "@", ":"}
Opening == {"{", "(", "["}
Closing == {"}", ")", "]"}
Bracket == Opening \cup Closing
Reserved == Bracket \cup {"/", "%"}
Letter == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p",
           "q","r","s","t","u","v","w","x","y","z",
           "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P",
           "Q","R","S","T","U","V","W","X","Y","Z", "."}
\* characters whose UTF-8 form is longer than one byte
Wide == {"^", "!", "|"}

IsSpace(c) == c \in Space
IsOpening(c) == c \in Opening
IsClosing(c) == c \in Closing
IsLetter(c) == c \in Letter
IsReserved(c) == c \in Reserved

CloseOf(v) == CASE v = "{" -> "}" [] v = "(" -> ")" [] v = "[" -> "]"
OpenOf(v) == CASE v = "}" -> "{" [] v = ")" -> "(" [] v = "]" -> "["

Newline == {"~", "@"}
IsNL(c) == c \in Newline
IsManyNL(c) == c = "@"
\* newlines in one character, and in a text
Weight(c) == IF c = "~" THEN 1 ELSE IF c = "@" THEN RunLen ELSE 0
NL(s) == LET nls == SelectSeq(s, IsNL)
         IN Len(nls) + (RunLen - 1) * Len(SelectSeq(nls, IsManyNL))

\* Index of the first character of s satisfying Test, 0 if there is none
FirstIdx(s, Test(_)) == SelectInSeq(s, Test)
LastIdx(s, Test(_)) == SelectLastInSeq(s, Test)
HasChar(s, Test(_)) == FirstIdx(s, Test) # 0

\* Concatenation of the images of a sequence
CatMap(Op(_), seq) == FoldLeft(LAMBDA acc, x : acc \o Op(x), <<>>, seq)
SumMap(Op(_), seq) == FoldLeft(LAMBDA acc, x : acc + Op(x), 0, seq)
=============================================================================
