------------------------------ MODULE GenFeature ------------------------------
EXTENDS FeatureSyntax, Json, TLC
A == {"a", "dep", "de", "depx", "A9", "a-b", "a_b", "0", "-", "c++", "x.y", "+", "é", "ß-d", "λ日"}
VARIABLES x, ph
Init == x \in {y \in [k : Kinds, a : A, b : A \cup {""}] : ValidItem(y)} /\ ph = 0
Emit == ph = 0 /\ ph' = 1 /\ UNCHANGED x /\ PrintT("@CASE@" \o ToJson([x |-> x, text |-> WriteItem(x)]))
Spec == Init /\ [][Emit]_<<x, ph>>
\* every item is read as what it was written as
Reads == ReadItem(WriteItem(x)) = x
=============================================================================
