-------------------------------- MODULE GenRun --------------------------------
EXTENDS CargoRun, Json, TLC
CONSTANT MaxLines
VARIABLES r, s, out
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Runs == [start : {"ok"}, exit : {0, 1, 101, 137}, out : Seqs(LineKinds, 1), err : {"empty", "text", "binary"}, verbose : BOOLEAN]
        \cup [start : {"ok"}, exit : {0}, out : Seqs(LineKinds, MaxLines), err : {"text"}, verbose : {FALSE}]
        \cup [start : {"missing"}, exit : {0}, out : {<<>>}, err : {"empty"}, verbose : BOOLEAN]
Init == r \in Runs /\ s = Start /\ out = FALSE
Step == s.stage # "end" /\ s' = Advance(s, r) /\ UNCHANGED <<r, out>>
Emit == s.stage = "end" /\ ~out /\ out' = TRUE /\ UNCHANGED <<r, s>> /\ PrintT("@CASE@" \o ToJson([r |-> r]))
Spec == Init /\ [][Step \/ Emit]_<<r, s, out>> /\ WF_<<r, s, out>>(Step)

Ends == <>(s.stage = "end")
\* metadata is only ever returned from a run that succeeded, and it is the first line that looks like json
Honest == s.stage = "end" /\ s.res \in {"md1", "md2"} =>
            /\ r.start = "ok" /\ r.exit = 0
            /\ \A i \in 1..(s.pos - 1) : r.out[i] \notin Jsonish
\* an unsuccessful run is an error about the run, whatever was printed
Unsuccessful == s.stage = "end" /\ (r.start = "missing" \/ r.exit # 0) => s.res \in {"Io", "CargoMetadata", "ErrUtf8"}
=============================================================================
