------------------------------- MODULE GenCmd -------------------------------
(***************************************************************************)
(* The state machine of the command builders, explored exhaustively: every *)
(* sequence of up to Depth calls.  Each state prints the calls that led to *)
(* it; the real builder is taken through the same calls.                   *)
(***************************************************************************)
EXTENDS CargoCmd, Json, TLC
CONSTANT Depth

C0(n) == [c |-> n]
CV(n, v) == [c |-> n, v |-> v]
CL(n, l) == [c |-> n, l |-> l]
Lock(f, l, o) == [c |-> "lock_opts", frozen |-> f, locked |-> l, offline |-> o]
Calls == {CV("cargo_path", "/x/cargo"), CV("manifest_path", "/w/my dir/Cargo.toml"), CV("manifest_path", "Cargo.toml"),
          CV("current_dir", "/elsewhere"), CV("current_dir", ""), C0("no_default_features"), C0("all_features"),
          CL("features", <<"b", "a">>), CL("features", <<"x/y">>), CL("features", <<>>),
          Lock(TRUE, FALSE, FALSE), Lock(FALSE, TRUE, TRUE), Lock(FALSE, FALSE, FALSE), Lock(FALSE, FALSE, TRUE),
          CL("other_options", <<"--filter-platform", "x">>), CL("other_options", <<"-q", "--frozen">>)}
CallsM == {CV("cargo_path", "/x/cargo"), CV("manifest_path", "/w/my dir/Cargo.toml"), CV("manifest_path", "Cargo.toml"), CV("current_dir", "/elsewhere"),
           C0("no_deps"), CL("other_options", <<"--locked">>), CL("other_options", <<"-q", "--no-deps">>), CL("other_options", <<>>),
           [c |-> "env", k |-> "A", v |-> "1"], [c |-> "env", k |-> "A", v |-> "2"], [c |-> "env", k |-> "B", v |-> ""]}

VARIABLES api, calls, st, out
Init == api \in {"cmd", "mdc"} /\ calls = <<>> /\ st = Fresh /\ out = FALSE
Do(c) == /\ ~out /\ Len(calls) < Depth
         /\ calls' = Append(calls, c)
         /\ st' = IF api = "cmd" THEN Call(st, c) ELSE CallM(st, c)
         /\ UNCHANGED <<api, out>>
Emit == ~out /\ out' = TRUE /\ UNCHANGED <<api, calls, st>>
        /\ PrintT("@CASE@" \o ToJson([api |-> api, calls |-> calls]))
Next == Emit \/ \E c \in IF api = "cmd" THEN Calls ELSE CallsM : Do(c)
Spec == Init /\ [][Next]_<<api, calls, st, out>>

Line == IF api = "cmd" THEN Argv(st) ELSE ArgvM(st)
\* the machine itself
Verb == Line[1] = "metadata"
OwnLast == SubSeq(Line, Len(Line) - Len(st.other) + 1, Len(Line)) = st.other
\* an option is on the command line exactly if the calls asked for it
Has(o) == \E i \in 1..(Len(Line) - Len(st.other)) : Line[i] = o
Called(n) == \E i \in DOMAIN calls : calls[i].c = n
LastLock == LET l == SelectSeq(calls, LAMBDA c : c.c = "lock_opts") IN IF l = <<>> THEN Lock(FALSE, FALSE, FALSE) ELSE l[Len(l)]
Asked == /\ Has("--no-default-features") = Called("no_default_features")
         /\ Has("--all-features") = Called("all_features")
         /\ Has("--frozen") = LastLock.frozen /\ Has("--locked") = LastLock.locked /\ Has("--offline") = LastLock.offline
         /\ Has("--no-deps") = Called("no_deps")
         /\ Has("--manifest-path") = Called("manifest_path")
         /\ Has("--features") = \E i \in DOMAIN calls : calls[i].c = "features" /\ calls[i].l # <<>>
\* where cargo runs does not depend on the order of manifest_path and current_dir
ManifestWins == api = "cmd" /\ Called("manifest_path") => Cwd(st) = Here(DirOf(st.manifest))
=============================================================================
