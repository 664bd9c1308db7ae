--------------------------------- MODULE MC --------------------------------
(* Explore on the families of Sources.                                     *)
EXTENDS Explore, Sources

CONSTANT Depth      \* 0 quick, 1 or 2 deeper

FamTok(f) == Def[f].tok
FamMax(f) == Def[f].max[Depth + 1]
FamWrap(f) == Def[f].wraps
AllFamilies == DOMAIN Def

AllChecks == {"Restart", "RoundTrip1", "RoundTrip2", "RoundTrip3", "Shape1", "Folded", "Delimited",
              "BreaksWhole", "Sections", "TrueLines", "CountedLines", "Cumulative", "ErrorPlace",
              "Lowered1", "Lowered2", "ValidParsed", "Reparsed1", "Reparsed2", "Reparsed3"}
=============================================================================
