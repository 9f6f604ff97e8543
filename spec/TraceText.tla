------------------------------- MODULE TraceText -------------------------------
EXTENDS TextForms, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, ph
Init == tid \in DOMAIN Trace /\ ph = 0
R == Trace[tid]
X == R.x
O == R.o
Fail(lab, ok, d) == IF ok THEN {} ELSE {<<lab, d>>}
Bad ==
  IF O.status # "ok" THEN {<<"panic", O.msg>>}
  ELSE IF X.sort = "error"
  THEN \* an error about what X.about says
       Fail("about", EndsWith(O.display, O.about) /\ O.display # "", O.display)
       \cup Fail("cause", O.cause = Causes[X.v], O.cause)
       \cup Fail("wrapped", X.v \in OfMetadata => O.wrapped.display = O.display /\ O.wrapped.cause, O.wrapped)
  ELSE (IF X.sort \in Reads THEN Fail("read", O.read = Known(X), O.read) ELSE {})
       \cup (IF X.sort \in {"targetkind", "cratetype"} THEN {}
             ELSE IF X.sort = "edition" /\ ~Known(X) THEN {}
             ELSE Fail("display", O.display = Display(X), [got |-> O.display, want |-> Display(X)]))
       \cup (IF HasDebug(X) THEN Fail("debug", O.debug = Debug(X), [got |-> O.debug, want |-> Debug(X)]) ELSE {})
       \cup (IF X.sort \in {"targetkind", "cratetype", "edition"} /\ Known(X) THEN Fail("written", O.written = X.v, O.written) ELSE {})
Judge == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED tid
         /\ \A b \in Bad : PrintT("@FAIL@" \o ToJson([id |-> R.id, label |-> b[1], detail |-> ToString(b[2])]))
         /\ PrintT("@DONE@" \o ToJson([id |-> R.id, bad |-> Cardinality(Bad)]))
Spec == Init /\ [][Judge]_<<tid, ph>>
=============================================================================
