------------------------------- MODULE TraceRun -------------------------------
(***************************************************************************)
(* Recorded runs of the real code against a stand-in for cargo that        *)
(* behaves as r says and records how it was started.  The reader takes     *)
(* one step at a time.                                                     *)
(***************************************************************************)
EXTENDS CargoRun, CargoCmd, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, s, done
Rec == Trace[tid]
O == Rec.o
Init == tid \in DOMAIN Trace /\ s = Start /\ done = FALSE
Step == s.stage # "end" /\ s' = Advance(s, Rec.r) /\ UNCHANGED <<tid, done>>
Chk(lab, ok, d) == IF ok THEN {} ELSE {<<lab, d>>}
RECURSIVE Calls(_, _)
Calls(st, cs) == IF cs = <<>> THEN st ELSE Calls(Call(st, cs[1]), Tail(cs))
Bad == IF O.status # "ok" THEN {<<"panic", O.msg>>}
       ELSE Chk("outcome", (IF O.err = "" THEN O.wsroot ELSE O.err) = s.res, [got |-> <<O.err, O.wsroot>>, want |-> s.res])
            \cup (IF s.res = "CargoMetadata"
                  THEN Chk("stderr", O.stderr = (IF Rec.r.verbose \/ Rec.r.err = "empty" THEN "" ELSE Rec.errtext), O.stderr) ELSE {})
            \cup (IF O.build = "" THEN {} ELSE Chk("build", O.build = (IF O.err = "" THEN IF O.hasresolve THEN "ok" ELSE "NoResolveGraph" ELSE "Metadata"), O.build))
            \cup (IF Rec.r.start # "ok" \/ ~Rec.seen.ran THEN Chk("ran", Rec.seen.ran = (Rec.r.start = "ok"), Rec.seen)
                  ELSE LET st == Calls(Fresh, Rec.calls)
                       IN Chk("argv", Means(Rec.seen.argv, st.other) = Means(Argv(st), st.other), Rec.seen.argv)
                          \cup Chk("cwd", Rec.seen.cwd = (IF ~HasCwd(st) \/ Cwd(st) = "." THEN Rec.base ELSE Cwd(st)), Rec.seen.cwd))
Judge == /\ s.stage = "end" /\ ~done /\ done' = TRUE /\ UNCHANGED <<tid, s>>
         /\ \A b \in Bad : PrintT("@FAIL@" \o ToJson([id |-> Rec.id, label |-> b[1], detail |-> ToString(b[2])]))
         /\ PrintT("@DONE@" \o ToJson([id |-> Rec.id, bad |-> Cardinality(Bad)]))
Spec == Init /\ [][Step \/ Judge]_<<tid, s, done>>
=============================================================================
