-------------------------------- MODULE TraceBig -------------------------------
(***************************************************************************)
(* Each line is a workspace of BigWorlds: a small one in full, on which    *)
(* the closed form is compared with the closure, or a large one with what  *)
(* the real builder made of it, in numbers.                                *)
(***************************************************************************)
EXTENDS BigWorlds, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, st, ph
vars == <<tid, st, ph>>
Init == tid \in DOMAIN Trace /\ st = [K |-> {}, F |-> {}, L |-> {}, Q |-> {}] /\ ph = "begin"
R == Trace[tid]
C == [ign |-> <<>>, ws |-> FALSE, excl |-> <<>>, incl |-> <<>>, tg |-> <<>>]
O == R.o
Want == Big(R.shape, R.n)

Close == /\ ph = "begin" /\ R.small
         /\ st' = Closure(R.w, Usable(R.w, C), Start(R.w, C), TRUE)
         /\ ph' = "judge"
         /\ UNCHANGED tid
Pass == /\ ph = "begin" /\ ~R.small /\ ph' = "judge" /\ UNCHANGED <<tid, st>>

Fail(lab, ok, detail) == IF ok THEN {} ELSE {<<lab, detail>>}
Once(l, x, want) == Fail(l, x[1] = want /\ x[2] = want, [got |-> x, want |-> want])
Compare ==
  IF O.status # "ok" THEN {<<"status", [got |-> O.status, msg |-> O.msg]>>}
  ELSE Once("krates", O.k, Want.k)
       \cup Fail("report", O.filtered = 0, O.filtered)
       \cup Once("fnodes", O.f, Want.f)
       \cup Fail("features", O.feats = Want.f, [got |-> O.feats, want |-> Want.f])
       \cup Once("edges", O.dep, Want.dep)
       \cup Once("edges.feature", O.q, Want.q)
       \cup Fail("links.extra", O.ff[1] <= Want.hi, [got |-> O.ff, want |-> Want.hi])
       \cup Fail("links.missing", O.ff[2] >= Want.lo, [got |-> O.ff, want |-> Want.lo])
       \cup Fail("mapping", O.map = MapSize(R.shape, R.n), [got |-> O.map, want |-> MapSize(R.shape, R.n)])
       \* known finding direct-chain: more than that where there are features
       \cup Fail("ddeps", O.dd[1] = O.dd[2] /\ (O.dd[2] = Want.dd \/ (Want.f > 0 /\ O.dd[2] > Want.dd)), [got |-> O.dd, want |-> Want.dd])
       \cup Once("ddependents", O.dt, Want.dd)
       \cup UNION {Fail("kfilter", O.kf[kd] = Want.kf[kd], [kind |-> kd, got |-> O.kf[kd], want |-> Want.kf[kd]]) : kd \in {"normal", "build", "dev"}}

Judge == /\ ph = "judge"
         /\ LET bad == IF R.small THEN Fail("closed form", SizeOf(R.w, C, st) = Want, [counted |-> SizeOf(R.w, C, st), stated |-> Want]) ELSE Compare
            IN /\ \A b \in bad : PrintT("@FAIL@" \o ToJson([id |-> R.id, label |-> b[1], detail |-> ToString(b[2])]))
               /\ PrintT("@DONE@" \o ToJson([id |-> R.id]))
         /\ ph' = "done"
         /\ UNCHANGED <<tid, st>>
Next == Close \/ Pass \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
