------------------------------- MODULE CargoRun -------------------------------
(***************************************************************************)
(* Running cargo and reading what it prints.  A run r of the program:      *)
(*   start   "ok" or "missing" (it cannot be started)                      *)
(*   exit    its status (128 + n: ended by signal n)                       *)
(*   out     the kinds of the lines on stdout, in order                    *)
(*   err     the kind of its stderr: "empty", "text", "binary"             *)
(* The reader is a machine that goes through stages; the result is an      *)
(* error or the metadata (which of the lines it is from).                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

LineKinds == {"md1", "md2", "noise", "blank", "brace", "badjson", "otherjson", "binary"}
Jsonish == {"md1", "md2", "badjson", "otherjson", "binaryjson"}

Start == [stage |-> "spawn", pos |-> 0, res |-> ""]
Fail(e) == [stage |-> "end", pos |-> 0, res |-> e]

\* one step of the reader
Advance(s, r) ==
  CASE s.stage = "spawn" -> IF r.start = "missing" THEN Fail("Io") ELSE [s EXCEPT !.stage = "status"]
    [] s.stage = "status" -> IF r.exit = 0 THEN [s EXCEPT !.stage = "decode"]
                             ELSE IF r.err = "binary" /\ ~r.verbose THEN Fail("ErrUtf8") ELSE Fail("CargoMetadata")
    [] s.stage = "decode" -> IF \E i \in DOMAIN r.out : r.out[i] = "binary" THEN Fail("Utf8") ELSE [s EXCEPT !.stage = "scan", !.pos = 1]
    [] s.stage = "scan"   -> IF s.pos > Len(r.out) THEN Fail("NoJson")
                             ELSE IF r.out[s.pos] \in Jsonish THEN [s EXCEPT !.stage = "parse"]
                             ELSE [s EXCEPT !.pos = s.pos + 1]
    [] s.stage = "parse"  -> [stage |-> "end", pos |-> s.pos,
                              res |-> IF r.out[s.pos] \in {"md1", "md2"} THEN r.out[s.pos] ELSE "Json"]

RECURSIVE Run(_, _)
Run(s, r) == IF s.stage = "end" THEN s.res ELSE Run(Advance(s, r), r)
=============================================================================
