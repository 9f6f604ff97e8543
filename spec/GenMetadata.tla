----------------------------- MODULE GenMetadata -----------------------------
(* Every way in which up to two fields of a kind of object can be left out or null (where cargo does that), the   *)
(* others being given.                                                                                            *)
EXTENDS Metadata, Json, TLC
VARIABLES c, ph
Ways(kind) == {<<k, "absent">> : k \in Nullable[kind] \cup Optional[kind] \cup Required[kind]} \cup {<<k, "null">> : k \in Nullable[kind] \cup (IF kind = "Resolve" THEN {"root"} ELSE {})}
Cases == UNION {{[kind |-> kind, a |-> a, b |-> b] : a \in Ways(kind), b \in Ways(kind)} : kind \in Kinds}
Init == c \in {x \in Cases : x.a[1] # x.b[1] => Lexi(x.a[1], x.b[1]) < 0} /\ ph = 0
Emit == ph = 0 /\ ph' = 1 /\ UNCHANGED c /\ PrintT("@CASE@" \o ToJson(c))
Spec == Init /\ [][Emit]_<<c, ph>>
\* the three classes do not overlap
Classes == \A k \in Kinds : Required[k] \cap Nullable[k] = {} /\ Required[k] \cap Optional[k] = {} /\ Nullable[k] \cap Optional[k] = {}
=============================================================================
