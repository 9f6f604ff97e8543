------------------------------ MODULE FeatureSyntax ------------------------------
(* The items a feature may consist of, as documented by cargo: another feature, `dep:name`, `name/feature` and  *)
(* `name?/feature`.                                                                                             *)
EXTENDS Text

Kinds == {"simple", "dep", "weak", "strong"}
WriteItem(x) == CASE x.k = "simple" -> x.a
                  [] x.k = "dep"    -> "dep:" \o x.a
                  [] x.k = "weak"   -> x.a \o "?/" \o x.b
                  [] x.k = "strong" -> x.a \o "/" \o x.b

\* the reader
ReadItem(t) == IF StartsWith(t, "dep:") THEN [k |-> "dep", a |-> From(t, 5), b |-> ""]
               ELSE IF ~Contains(t, "/") THEN [k |-> "simple", a |-> t, b |-> ""]
               ELSE LET i == First(t, "/")
                        weak == i > 1 /\ Ch(t, i - 1) = "?"
                    IN [k |-> IF weak THEN "weak" ELSE "strong",
                        a |-> SubSeq(t, 1, IF weak THEN i - 2 ELSE i - 1), b |-> From(t, i + 1)]

\* crate names: letters (of any script), digits, - and _; feature names also + and .
CrateChars == CharsOf(Lower) \cup CharsOf(Upper) \cup CharsOf(Beyond) \cup CharsOf(Digits) \cup {"-", "_"}
FeatChars == CrateChars \cup {"+", "."}
ValidItem(x) == /\ x.a # "" /\ AllIn(x.a, IF x.k = "simple" THEN FeatChars ELSE CrateChars)
                /\ IF x.k \in {"weak", "strong"} THEN x.b # "" /\ AllIn(x.b, FeatChars) ELSE x.b = ""
=============================================================================
