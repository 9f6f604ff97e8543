---------------------------- MODULE TraceMetadata ----------------------------
EXTENDS Metadata, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, ph
Init == tid \in DOMAIN Trace /\ ph = 0
R == Trace[tid]
O == R.o
Fail(lab, ok, d) == IF ok THEN {} ELSE {<<lab, d>>}
\* which fields differ
Diffs(lab, got, want) == {<<lab, <<f, got[f], want[f]>>>> : f \in {f \in DOMAIN want : f \notin DOMAIN got \/ got[f] # want[f]}}
Deep(lab, got, want) ==
  IF got = want THEN {}
  ELSE IF Len(got.packages) = Len(want.packages)
  THEN Diffs(lab, [got EXCEPT !.packages = <<>>], [want EXCEPT !.packages = <<>>])
       \cup UNION {Diffs(lab, got.packages[i], want.packages[i]) : i \in DOMAIN want.packages}
  ELSE {<<lab, "packages">>}

Bad ==
  IF O.status = "panic" THEN {<<"panic", O.msg>>}
  ELSE (* however it is written and read *) Fail("ways", O.ways = <<>>, O.ways) \cup
  IF Lacks("Metadata", R.doc) THEN Fail("refuse", O.status = "err", "accepted")
  ELSE IF O.status # "ok" THEN {<<"accept", O.msg>>}
  ELSE LET want == View(R.doc) IN
       Deep("view", O.fields, want)
       \cup Fail("again", O.again.ok, O.again.msg)
       \cup Fail("same", O.again.ok => O.again.same, O.again.msg)
       \cup (IF Lacks("Metadata", R.ser) THEN {<<"ser", "incomplete">>} ELSE Deep("ser", View(R.ser), want))
Judge == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED tid
         /\ \A b \in Bad : PrintT("@FAIL@" \o ToJson([id |-> R.id, label |-> b[1], detail |-> ToString(b[2])]))
         /\ PrintT("@DONE@" \o ToJson([id |-> R.id, bad |-> Cardinality(Bad)]))
Spec == Init /\ [][Judge]_<<tid, ph>>
=============================================================================
