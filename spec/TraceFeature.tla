----------------------------- MODULE TraceFeature -----------------------------
EXTENDS FeatureSyntax, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, ph
Init == tid \in DOMAIN Trace /\ ph = 0
R == Trace[tid]
O == R.o
Fail(lab, ok, d) == IF ok THEN {} ELSE {<<lab, d>>}
Bad == Fail("render", R.text = WriteItem(R.x) /\ ValidItem(R.x), R.text)
       \cup (IF O.status # "ok" THEN {<<"panic", O.msg>>}
             ELSE Fail("item", [k |-> O.k, a |-> O.a, b |-> O.b] = ReadItem(R.text), <<R.text, O>>))
Judge == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED tid
         /\ \A b \in Bad : PrintT("@FAIL@" \o ToJson([id |-> R.id, label |-> b[1], detail |-> ToString(b[2])]))
         /\ PrintT("@DONE@" \o ToJson([id |-> R.id, bad |-> Cardinality(Bad)]))
Spec == Init /\ [][Judge]_<<tid, ph>>
=============================================================================
