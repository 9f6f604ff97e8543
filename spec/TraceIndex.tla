------------------------------ MODULE TraceIndex ------------------------------
(* Records: the packages ps of a document, an index, and what came out: for each package its features, and which *)
(* names the index was asked for.                                                                                *)
EXTENDS IndexMerge, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, ph
Init == tid \in DOMAIN Trace /\ ph = 0
R == Trace[tid]
O == R.o
Fail(lab, ok, d) == IF ok THEN {} ELSE {<<lab, d>>}
SetOf(s) == {s[i] : i \in DOMAIN s}
Bad == IF O.status # "ok" THEN {<<"panic", O.msg>>}
       ELSE Fail("request", Len(O.req) = Cardinality(SetOf(O.req)) /\ SetOf(O.req) = {R.ps[i].name : i \in DOMAIN R.ps}, O.req)
            \cup UNION {Fail("merge", AsFun(O.feats[i]) = Fixed(R.ps[i], R.index), [p |-> R.ps[i], got |-> O.feats[i]]) : i \in DOMAIN R.ps}
            \cup Fail("twice", O.times = [i \in DOMAIN R.ps |-> 1], O.times)
Judge == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED tid
         /\ \A b \in Bad : PrintT("@FAIL@" \o ToJson([id |-> R.id, label |-> b[1], detail |-> ToString(b[2])]))
         /\ PrintT("@DONE@" \o ToJson([id |-> R.id, bad |-> Cardinality(Bad)]))
Spec == Init /\ [][Judge]_<<tid, ph>>
=============================================================================
