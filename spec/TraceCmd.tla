------------------------------- MODULE TraceCmd -------------------------------
(* Recorded runs of the real builders: the calls, one step each, and the command that came out. *)
EXTENDS CargoCmd, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, st
R == Trace[tid]
O == R.o
Init == tid \in DOMAIN Trace /\ l = 1 /\ st = Fresh
Step == /\ l <= Len(R.calls) /\ l' = l + 1 /\ UNCHANGED tid
        /\ st' = IF R.api = "cmd" THEN Call(st, R.calls[l]) ELSE CallM(st, R.calls[l])
Fail(lab, ok, d) == IF ok THEN {} ELSE {<<lab, d>>}
Want == IF R.api = "cmd" THEN Argv(st) ELSE ArgvM(st)
WantCwd == IF R.api = "cmd" THEN <<HasCwd(st), Cwd(st)>> ELSE <<st.hasdir, CwdM(st)>>
Bad == IF O.status # "ok" THEN {<<"panic", O.msg>>}
       ELSE Fail("argv", Means(O.args, st.other) = Means(Want, st.other), [got |-> O.args, want |-> Want])
            \cup Fail("program", O.program = Program(st, R.env), O.program)
            \cup Fail("cwd", <<O.hascwd, O.cwd>> = WantCwd, [got |-> <<O.hascwd, O.cwd>>, want |-> WantCwd])
            \cup Fail("env", Range(O.envs) = st.env /\ Len(O.envs) = Cardinality(st.env), O.envs)
Judge == /\ l = Len(R.calls) + 1 /\ l' = l + 1 /\ UNCHANGED <<tid, st>>
         /\ \A b \in Bad : PrintT("@FAIL@" \o ToJson([id |-> R.id, label |-> b[1], detail |-> ToString(b[2])]))
         /\ PrintT("@DONE@" \o ToJson([id |-> R.id, bad |-> Cardinality(Bad)]))
Spec == Init /\ [][Step \/ Judge]_<<tid, l, st>>
=============================================================================
