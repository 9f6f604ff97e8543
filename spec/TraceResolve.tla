----------------------------- MODULE TraceResolve -----------------------------
(***************************************************************************)
(* The generator's workspaces are what the specification of cargo makes of *)
(* their manifests: the packages, the resolved dependencies and the listed *)
(* features of each record are compared with CargoResolve.                 *)
(***************************************************************************)
EXTENDS CargoResolve, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, s, ph
Rec == Trace[tid]
M == Rec.m
Init == tid \in DOMAIN Trace /\ s = [A |-> {}, F |-> {}, L |-> {}] /\ ph = "start"
Begin == ph = "start" /\ s' = CStart(M) /\ ph' = "resolve" /\ UNCHANGED tid
Resolve == /\ ph = "resolve"
           /\ s' = CRound(M, s)
           /\ ph' = IF s' = s THEN "judge" ELSE ph
           /\ UNCHANGED tid
Chk(lab, ok, d) == IF ok THEN {} ELSE {<<lab, d>>}
Bad == Chk("live", Range(Rec.live) = CLive(s), Rec.live)
       \cup UNION {Chk("features", Range(Rec.rf[p]) = CFeatures(s, p), <<p, Rec.rf[p], CFeatures(s, p)>>) : p \in CLive(s)}
       \cup UNION {Chk("linked", \A i \in DOMAIN M.pk[p].deps : Rec.linked[p][i] = CLinked(s, p, i), <<p, Rec.linked[p]>>) : p \in CLive(s)}
Judge == /\ ph = "judge" /\ ph' = "done" /\ UNCHANGED <<tid, s>>
         /\ \A b \in Bad : PrintT("@FAIL@" \o ToJson([id |-> Rec.id, label |-> b[1], detail |-> ToString(b[2])]))
         /\ PrintT("@DONE@" \o ToJson([id |-> Rec.id, bad |-> Cardinality(Bad)]))
Spec == Init /\ [][Begin \/ Resolve \/ Judge]_<<tid, s, ph>>
=============================================================================
