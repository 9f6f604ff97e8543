----------------------------- MODULE TracePkgSpec -----------------------------
(* Records: what = "parse": one spec; what = "match": specs ss against packages ps. *)
EXTENDS PkgSpec, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, ph
Init == tid \in DOMAIN Trace /\ ph = 0
R == Trace[tid]
O == R.o
Fail(lab, ok, d) == IF ok THEN {} ELSE {<<lab, d>>}

Parse ==
  LET x == Parsed(R.s) IN
  Fail("render", R.text = Write(R.s) /\ Meant(R.s), R.text)
  \cup (IF O.status = "panic" THEN {<<"panic", O.msg>>}
        ELSE IF ~x.ok THEN Fail("refuse", O.status = "err" /\ ~StartsWith(O.msg, "other"), <<R.text, O.status>>)
        ELSE IF O.status # "ok" THEN {<<"accept", <<R.text, O.msg>>>>}
        ELSE Fail("name", O.name = x.name, O.name)
             \cup Fail("version", O.hasver = x.hasver /\ O.ver = x.ver, O.ver)
             \cup Fail("url", O.hasurl = x.hasurl /\ O.url = x.url, O.url))

Match ==
  Fail("render", /\ \A i \in DOMAIN R.ss : R.texts[i] = Write(R.ss[i]) /\ Meant(R.ss[i])
                 /\ \A j \in DOMAIN R.ps : R.sources[j] = IF R.ps[j].scheme = "" THEN "" ELSE SourceText(R.ps[j]), R.id)
  \cup (IF O.status # "ok" THEN {<<"panic", O.msg>>}
        ELSE UNION {IF Refused(R.ss[i]) THEN {}
                    ELSE Fail("accept", O.got[i].ok, R.texts[i])
                         \cup UNION {Fail("match", O.got[i].m[j] = Matches(R.ss[i], R.ps[j]), <<R.texts[i], R.ps[j]>>) : j \in DOMAIN R.ps}
                    : i \in DOMAIN R.ss})

Judge == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED tid
         /\ LET bad == IF R.what = "parse" THEN Parse ELSE Match
            IN /\ \A b \in bad : PrintT("@FAIL@" \o ToJson([id |-> R.id, label |-> b[1], detail |-> ToString(b[2])]))
               /\ PrintT("@DONE@" \o ToJson([id |-> R.id, bad |-> Cardinality(bad)]))
Spec == Init /\ [][Judge]_<<tid, ph>>
=============================================================================
