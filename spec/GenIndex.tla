------------------------------- MODULE GenIndex -------------------------------
(* Every pair of small feature maps (document, index).  Checked: merging is stable, keeps what the document states,  *)
(* leaves no item that names nothing, and gives back a map from which features were dropped.                          *)
EXTENDS IndexMerge, Json, TLC

ItemLists == {<<>>, <<"a">>, <<"b">>, <<"dep:a">>, <<"d/a">>, <<"d?/b", "a">>, <<"c", "b">>}
Maps == {<<>>} \cup {<<[f |-> x, items |-> i]>> : x \in {"a", "b"}, i \in ItemLists}
        \cup {<<[f |-> "a", items |-> i], [f |-> "b", items |-> j]>> : i \in ItemLists, j \in ItemLists}
        \cup {<<[f |-> "c", items |-> i]>> : i \in ItemLists}
VARIABLES doc, ix, ph
Init == doc \in Maps /\ ix \in Maps /\ ph = 0
Emit == ph = 0 /\ ph' = 1 /\ UNCHANGED <<doc, ix>> /\ PrintT("@CASE@" \o ToJson([doc |-> doc, ix |-> ix]))
Spec == Init /\ [][Emit]_<<doc, ix, ph>>

AsSeq(fun) == LET RECURSIVE S(_)
                  S(D) == IF D = {} THEN <<>> ELSE LET f == CHOOSE f \in D : TRUE IN <<[f |-> f, items |-> fun[f]]>> \o S(D \ {f})
              IN S(DOMAIN fun)
Stable == Merge(AsSeq(Merge(doc, ix)), ix) = Merge(doc, ix)
Keeps == \A f \in Names(doc) : Merge(doc, ix)[f] = ItemsOf(doc, f)
Closed == Mentioned(Merge(doc, ix)) \subseteq DOMAIN Merge(doc, ix)
\* if the index has everything, whatever part of it the document has does not matter
Restores == \A D \in SUBSET Names(ix) : Merge(SelectSeq(ix, LAMBDA e : e.f \in D), ix) = Merge(<<>>, ix)
=============================================================================
