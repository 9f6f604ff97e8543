------------------------------- MODULE CargoCmd -------------------------------
(***************************************************************************)
(* How the `cargo metadata` command line is put together.  There are two   *)
(* interfaces: Cmd ("cmd") and the plain MetadataCommand ("mdc"); each is  *)
(* a state that calls change, one call at a time, and a command line that  *)
(* follows from the state.                                                 *)
(***************************************************************************)
EXTENDS Text

Range(s) == {s[i] : i \in DOMAIN s}

Fresh == [cargo |-> "", manifest |-> "", hasdir |-> FALSE, dir |-> "", nodef |-> FALSE, all |-> FALSE, feats |-> <<>>,
          frozen |-> FALSE, locked |-> FALSE, offline |-> FALSE, nodeps |-> FALSE, other |-> <<>>, env |-> {}]

\* calls of Cmd
Call(s, c) ==
  CASE c.c = "cargo_path"          -> [s EXCEPT !.cargo = c.v]
    [] c.c = "manifest_path"       -> [s EXCEPT !.manifest = c.v]
    [] c.c = "current_dir"         -> [s EXCEPT !.dir = c.v, !.hasdir = TRUE]
    [] c.c = "no_default_features" -> [s EXCEPT !.nodef = TRUE]
    [] c.c = "all_features"        -> [s EXCEPT !.all = TRUE]
    [] c.c = "features"            -> [s EXCEPT !.feats = s.feats \o c.l]
    [] c.c = "lock_opts"           -> [s EXCEPT !.frozen = c.frozen, !.locked = c.locked, !.offline = c.offline]
    [] c.c = "other_options"       -> [s EXCEPT !.other = s.other \o c.l]

\* calls of MetadataCommand: other_options replaces
CallM(s, c) ==
  CASE c.c = "no_deps"       -> [s EXCEPT !.nodeps = TRUE]
    [] c.c = "other_options" -> [s EXCEPT !.other = c.l]
    [] c.c = "env"           -> [s EXCEPT !.env = {e \in s.env : e[1] # c.k} \cup {<<c.k, c.v>>}]
    [] OTHER                 -> Call(s, c)

Smallest(S) == CHOOSE x \in S : \A y \in S : Lexi(x, y) <= 0
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == Smallest(S) IN <<m>> \o SortSet(S \ {m})

If(b, s) == IF b THEN s ELSE <<>>
Base == <<"metadata", "--format-version", "1">>

\* the directory of a path: what is before the last /, nothing for a bare file name, / for a file in it
DirOf(p) == IF ~Contains(p, "/") THEN "" ELSE IF Last(p, "/") = 1 THEN "/" ELSE SubSeq(p, 1, Last(p, "/") - 1)
Here(d) == IF d = "" THEN "." ELSE d

Program(s, env) == IF s.cargo # "" THEN s.cargo ELSE IF env # "" THEN env ELSE "cargo"

(* Cmd: cargo is run in the directory of the manifest, whatever current_dir says, so that the configuration found
   there applies *)
Argv(s) ==
  Base
  \o If(s.manifest # "", <<"--manifest-path", "Cargo.toml">>)
  \o If(s.nodef, <<"--no-default-features">>)
  \o If(s.all, <<"--all-features">>)
  \o If(s.feats # <<>>, <<"--features", Join(SortSet(Range(s.feats)), " ")>>)
  \o If(s.frozen, <<"--frozen">>) \o If(s.locked, <<"--locked">>) \o If(s.offline, <<"--offline">>)
  \o s.other
HasCwd(s) == s.manifest # "" \/ s.hasdir
Cwd(s) == IF s.manifest # "" THEN Here(DirOf(s.manifest)) ELSE IF s.hasdir THEN Here(s.dir) ELSE ""

ArgvM(s) ==
  Base \o If(s.nodeps, <<"--no-deps">>)
  \o If(s.manifest # "", <<"--manifest-path", s.manifest>>)
  \o s.other
CwdM(s) == IF s.hasdir THEN s.dir ELSE ""

(***************************************************************************)
(* What a command line means: the order of the options does not matter,    *)
(* except that the caller's own come last, and in their order.             *)
(***************************************************************************)
Valued == {"--format-version", "--features", "--manifest-path"}
RECURSIVE Words(_)
Words(t) == LET seps == {i \in 1..Len(t) : Ch(t, i) \in {" ", ","}}
            IN IF seps = {} THEN {t} ELSE LET i == CHOOSE i \in seps : \A j \in seps : i <= j
                                         IN {SubSeq(t, 1, i - 1)} \cup Words(From(t, i + 1))
Value(o, v) == IF o = "--features" THEN Words(v) ELSE {v}
\* the options as a set of <<name, values>> with the position of each (so that one given twice counts twice)
RECURSIVE Options(_)
Options(a) == IF a = <<>> THEN <<>>
              ELSE IF a[1] \in Valued /\ Len(a) > 1 THEN <<<<a[1], Value(a[1], a[2])>>>> \o Options(Tail(Tail(a)))
              ELSE <<<<a[1], {}>>>> \o Options(Tail(a))
Means(argv, own) ==
  LET n == Len(argv) - Len(own)
  IN IF n < 1 THEN [verb |-> "", opts |-> {}, count |-> 0, own |-> argv]
     ELSE LET o == Options(SubSeq(argv, 2, n))
          IN [verb |-> argv[1], opts |-> Range(o), count |-> Len(o), own |-> SubSeq(argv, n + 1, Len(argv))]
=============================================================================
