------------------------------ MODULE TracePkgId ------------------------------
(***************************************************************************)
(* Ids: every package of a small universe in both forms, the id is what    *)
(* PkgId renders; the real reader has to give back the parts.  Groups of   *)
(* packages: the order the real code puts their ids in.                    *)
(***************************************************************************)
EXTENDS PkgId, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, ph
Init == tid \in DOMAIN Trace /\ ph = 0
R == Trace[tid]
O == R.o

Fail(lab, ok, d) == IF ok THEN {} ELSE {<<lab, d>>}

Parse ==
  LET p == R.p IN
  Fail("render", R.repr = Render(p, R.form), [got |-> R.repr, want |-> Render(p, R.form)])
  \cup (IF O.status # "ok" THEN {<<"panic", O.msg>>}
        ELSE Fail("name", O.name = p.name, O.name)
             \cup Fail("version", O.version = p.ver, O.version)
             \cup Fail("source", O.source = Source(p), O.source)
             \cup (IF p.ref = "" \/ R.form = "opaque" THEN Fail("display", O.display = R.repr, O.display) ELSE {}))

Order ==
  IF O.status # "ok" THEN {<<"panic", O.msg>>}
  ELSE UNION {Fail("order", O.cmp[i][j] = Cmp(R.ps[i], R.ps[j]),
                   <<R.reprs[i], R.reprs[j], O.cmp[i][j], Cmp(R.ps[i], R.ps[j])>>)
              : i \in DOMAIN R.ps, j \in DOMAIN R.ps}
       \cup Fail("hash", O.consistent, R.reprs)

Judge == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED tid
         /\ LET bad == IF R.what = "parse" THEN Parse ELSE Order
            IN /\ \A b \in bad : PrintT("@FAIL@" \o ToJson([id |-> R.id, label |-> b[1], detail |-> ToString(b[2])]))
               /\ PrintT("@DONE@" \o ToJson([id |-> R.id, bad |-> Cardinality(bad)]))
Spec == Init /\ [][Judge]_<<tid, ph>>
=============================================================================
