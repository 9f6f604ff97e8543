------------------------------- MODULE MCBuild --------------------------------
(***************************************************************************)
(* All small workspaces of a family (FAMILY), built up one declaration at  *)
(* a time, resolved as cargo would (CargoResolve), configured in all ways  *)
(* of the family, and turned into a graph in all orders (KratesBuild).     *)
(* With EMIT=1, every complete workspace and configuration is printed, to be *)
(* replayed into the real builder.                                         *)
(***************************************************************************)
EXTENDS KratesBuild, CargoResolve, Json, IOUtils

Family == IOEnv.FAMILY
Emitting == IOEnv.EMIT = "1"
Exploring == IOEnv.EXPLORE = "1"
\* how much of the family: "small", "mid" or "big"
Mid == IOEnv.SIZE # "small"
Big == IOEnv.SIZE = "big"

----------------------------------------------------------------------------
(* Pieces *)
NoCfg == [t |-> "none", f |-> "", c |-> <<>>]
Pred(f) == [t |-> "p", f |-> f, c |-> <<>>]
TF(f) == [t |-> "tf", f |-> f, c |-> <<>>]
Other == [t |-> "o", f |-> "", c |-> <<>>]
Set == [t |-> "d", f |-> "", c |-> <<>>]
Op(t, c) == [t |-> t, f |-> "", c |-> c]
Triple(f) == [t |-> "triple", f |-> f, c |-> <<>>]

Pkg(name, ver, member) ==
  [name |-> name, ver |-> ver, member |-> member, hassrc |-> ~member,
   url |-> IF member THEN "" ELSE "https://github.com/rust-lang/crates.io-index",
   dir |-> IF member THEN "/w/" \o name ELSE "/reg/" \o name, deps |-> <<>>, feats |-> <<>>, req |-> <<>>]

Dep(toml, to, kind) ==
  [toml |-> toml, ren |-> FALSE, to |-> to, kind |-> kind, opt |-> FALSE, deff |-> TRUE, feats |-> <<>>, cfg |-> NoCfg, linked |-> FALSE, cfgs |-> ""]

DepItem(d) == [k |-> "dep", d |-> d, g |-> ""]
Strong(d, g) == [k |-> "strong", d |-> d, g |-> g]
Weak(d, g) == [k |-> "weak", d |-> d, g |-> g]
Simple(g) == [k |-> "simple", d |-> "", g |-> g]
Feat(f, items) == [f |-> f, items |-> items]

NoConf == [ign |-> <<>>, ws |-> FALSE, excl |-> <<>>, incl |-> <<>>, tg |-> <<>>]
Ign(k, s) == [kind |-> k, scope |-> s]
KindNames == {"normal", "build", "dev"}
Scopes == {"ws", "nonws", "all"}
SpecOf(n) == [name |-> n, hasver |-> FALSE, ver |-> "", hasurl |-> FALSE, url |-> ""]


\* one declaration for each kind in ks
RECURSIVE ByKind(_, _, _)
ByKind(toml, to, ks) ==
  IF ks = <<>> THEN <<>> ELSE <<Dep(toml, to, ks[1])>> \o ByKind(toml, to, Tail(ks))
SomeKinds == {<<>>, <<"normal">>, <<"build">>, <<"dev">>, <<"normal", "build">>, <<"normal", "dev">>, <<"build", "dev">>, <<"normal", "build", "dev">>}
FewKinds == {<<>>, <<"normal">>, <<"dev">>, <<"normal", "build">>}

Deps(p, opts) == [k |-> "deps", p |-> p, opts |-> opts]
Feats(p, opts) == [k |-> "feats", p |-> p, opts |-> opts]
Request(p, opts) == [k |-> "req", p |-> p, opts |-> opts]
RootOf(opts) == [k |-> "root", p |-> 0, opts |-> opts]

----------------------------------------------------------------------------
(* Kinds: declarations of every set of kinds, a cycle over a development dependency, two members and two others *)
KindsPk == <<Pkg("a", "1.0.0", TRUE), Pkg("b", "1.0.0", TRUE), Pkg("c", "1.0.0", FALSE), Pkg("d", "1.0.0", FALSE)>>
KindsSlots ==
  <<Deps(1, {ByKind("b", 2, ks) : ks \in IF Big THEN SomeKinds ELSE FewKinds}),
    Deps(1, {ByKind("c", 3, ks) : ks \in SomeKinds}),
    Deps(2, {ByKind("c", 3, ks) : ks \in IF Big THEN SomeKinds ELSE {<<>>, <<"build">>}}),
    Deps(3, {ByKind("d", 4, ks) : ks \in {<<>>, <<"normal">>, <<"build">>, <<"normal", "build">>, <<"dev">>}}),
    Deps(2, {<<>>, ByKind("a", 1, <<"dev">>)})>>
KindsConfs ==
  {NoConf} \cup {[NoConf EXCEPT !.ign = <<Ign(k, s)>>] : k \in KindNames, s \in Scopes}
  \cup {[NoConf EXCEPT !.ign = <<Ign(k, "ws"), Ign(l, "nonws")>>] : k \in KindNames, l \in KindNames}
  \cup {[NoConf EXCEPT !.ign = <<Ign("dev", "all"), Ign("build", s)>>] : s \in Scopes}

----------------------------------------------------------------------------
(* Features: optional dependencies and every way to activate them, over two levels *)
Opt(d, o, df, fs) == [d EXCEPT !.opt = o, !.deff = df, !.feats = fs]
FeaturesPk == <<Pkg("a", "1.0.0", TRUE), Pkg("b", "1.0.0", FALSE), Pkg("c", "1.0.0", FALSE)>>
FeaturesSlots ==
  <<Deps(1, {<<Opt(Dep("b", 2, "normal"), o, df, fs)>> : o \in BOOLEAN, df \in BOOLEAN, fs \in {<<>>, <<"x">>}}),
    Deps(1, {<<>>, <<Opt(Dep("c", 3, "normal"), TRUE, FALSE, <<>>)>>}
            \cup IF Mid THEN {<<Opt(Dep("c", 3, "dev"), FALSE, FALSE, <<"x">>)>>} ELSE {}
            \cup IF Big THEN {<<Opt(Dep("c", 3, "build"), TRUE, FALSE, <<>>), Opt(Dep("c", 3, "dev"), FALSE, FALSE, <<"y">>)>>} ELSE {}),
    Deps(2, {<<Opt(Dep("c", 3, "normal"), TRUE, FALSE, <<>>)>>, <<Opt(Dep("c", 3, "build"), TRUE, FALSE, <<"y">>)>>}
            \cup IF Mid THEN {<<>>, <<Opt(Dep("c", 3, "normal"), FALSE, FALSE, <<>>)>>} ELSE {}),
    Feats(1, {<<Feat("x", i)>> : i \in {<<DepItem("b")>>, <<Strong("b", "x")>>, <<Weak("b", "x")>>, <<Weak("b", "x"), Weak("c", "x")>>}
                                       \cup IF Mid THEN {<<>>, <<Strong("c", "x")>>, <<Weak("c", "y"), DepItem("c")>>} ELSE {}}),
    Feats(1, {<<Feat("default", <<Simple("x")>>)>>} \cup IF Mid THEN {<<>>} ELSE {}),
    Feats(2, {<<Feat("x", i)>> : i \in {<<>>, <<DepItem("c")>>, <<Strong("c", "x")>>, <<Weak("c", "x")>>, <<Simple("y")>>}}),
    Feats(2, {<<Feat("y", i)>> : i \in {<<>>, <<Weak("c", "y")>>} \cup IF Mid THEN {<<Simple("x")>>} ELSE {} \cup IF Big THEN {<<Strong("c", "y")>>} ELSE {}}),
    Feats(2, {<<Feat("default", <<Simple("y")>>)>>} \cup IF Mid THEN {<<>>} ELSE {}),
    Feats(3, {<<Feat("x", <<>>), Feat("y", i)>> : i \in {<<Simple("x")>>, <<>>}}),
    Request(1, {<<"x">>, <<>>} \cup IF Mid THEN {<<"default">>} ELSE {})>>
FeaturesConfs ==
  {NoConf, [NoConf EXCEPT !.ign = <<Ign("build", "nonws")>>]} \cup IF Mid THEN {[NoConf EXCEPT !.ign = <<Ign("dev", "all")>>]} ELSE {}
  \cup IF Big THEN {[NoConf EXCEPT !.ign = <<Ign("normal", "nonws")>>], [NoConf EXCEPT !.excl = <<SpecOf("c")>>]} ELSE {}

----------------------------------------------------------------------------
(* Targets: dependencies declared for one or two expressions, with every small set of included targets *)
Linux == "x86_64-unknown-linux-gnu"
Windows == "x86_64-pc-windows-msvc"
Wasm == "wasm32-unknown-unknown"
Facts == JsonDeserialize(IOEnv.TARGETS)
Tgt(t, fs) == [triple |-> t, facts |-> Facts[t], feats |-> fs]
Exprs ==
  {NoCfg, Triple(Linux), Triple(Wasm), Pred("unix"), Pred("target_arch=wasm32"), Op("not", <<Pred("unix")>>),
   Op("any", <<Pred("windows"), Pred("target_arch=wasm32")>>), Op("all", <<Pred("unix"), Op("not", <<Pred("target_os=linux")>>)>>), Op("any", <<>>), Op("not", <<Op("any", <<>>)>>),
   TF("avx2"), Op("not", <<TF("avx2")>>), Op("all", <<TF("avx2"), Pred("windows")>>), Other, Op("any", <<Other, Pred("unix")>>), Op("not", <<Other>>), Set, Op("not", <<Set>>)}
For(d, e) == [d EXCEPT !.cfg = e]
TargetsPk == <<Pkg("a", "1.0.0", TRUE), Pkg("b", "1.0.0", FALSE), Pkg("c", "1.0.0", FALSE)>>
TargetsSlots ==
  <<Deps(1, {<<For(Dep("b", 2, "normal"), e)>> : e \in Exprs}),
    Deps(1, {<<>>} \cup {<<For(Dep("b", 2, "build"), e)>> : e \in IF Big THEN Exprs ELSE {Pred("windows"), TF("avx2")}}),
    Deps(2, {<<>>} \cup {<<For(Dep("c", 3, "normal"), e)>> : e \in IF Big THEN Exprs ELSE {NoCfg, Pred("windows"), Op("not", <<TF("avx2")>>)}})>>
TargetsConfs ==
  {NoConf} \cup {[NoConf EXCEPT !.tg = t] : t \in {<<Tgt(Linux, <<>>)>>, <<Tgt(Windows, <<>>)>>, <<Tgt(Wasm, <<>>)>>, <<Tgt(Linux, <<"avx2">>)>>,
     <<Tgt(Linux, <<>>), Tgt(Windows, <<>>)>>, <<Tgt(Linux, <<"avx2">>), Tgt(Windows, <<>>)>>, <<Tgt(Wasm, <<>>), Tgt(Windows, <<"avx2">>)>>}}

----------------------------------------------------------------------------
(* Roots: three members, every root of the resolve, sets included and excluded *)
RootsPk == <<Pkg("a", "1.0.0", TRUE), Pkg("b", "1.0.0", TRUE), Pkg("c", "1.0.0", TRUE), Pkg("d", "1.0.0", FALSE)>>
Plain(toml, to) == {<<>>, <<Dep(toml, to, "normal")>>}
RootsSlots ==
  <<Deps(1, Plain("b", 2) \cup {<<Dep("b", 2, "dev")>>}), Deps(2, Plain("c", 3)), Deps(3, {<<>>, <<Dep("a", 1, "dev")>>}), Deps(1, Plain("d", 4)),
    Deps(2, Plain("d", 4)), Deps(3, Plain("d", 4)), RootOf({0, 1, 2})>>
RootsConfs ==
  {[NoConf EXCEPT !.ws = v, !.incl = i, !.excl = e] :
     v \in BOOLEAN, i \in {<<>>, <<"/w/a">>, <<"/w/b", "/w/c">>, <<"/w">>, <<"/w", "/w/c">>, <<"/nowhere">>, <<"/reg/d">>},
     e \in {<<>>, <<SpecOf("a")>>, <<SpecOf("b")>>, <<SpecOf("d")>>, <<SpecOf("a"), SpecOf("c")>>}}

----------------------------------------------------------------------------
(* Names: several versions of one crate under its own and other names *)
Ren(toml, to, k) == [Dep(toml, to, k) EXCEPT !.ren = TRUE]
NamesPk == <<Pkg("a", "1.0.0", TRUE), Pkg("b", "1.0.0", FALSE), Pkg("b", "2.0.0", FALSE), Pkg("c-d", "1.0.0", FALSE)>>
\* a pair of declarations of a on the two versions
Pairs ==
  {<<>>, <<Dep("b", 2, "normal")>>, <<Dep("b", 3, "normal")>>, <<Dep("b", 2, "normal"), Dep("b", 3, "build")>>, <<Dep("b", 2, "build"), Dep("b", 3, "dev")>>,
   <<Dep("b", 2, "normal"), Ren("r", 3, "normal")>>, <<Ren("r", 2, "normal"), Dep("b", 3, "normal")>>, <<Ren("r", 2, "normal"), Ren("s", 3, "build")>>,
   <<Dep("b", 2, "dev"), Ren("r-s", 3, "normal")>>, <<Ren("r", 2, "build"), Ren("r", 2, "normal"), Dep("b", 3, "dev")>>}
NamesSlots ==
  <<Deps(1, Pairs \cup {[x EXCEPT ![1].opt = TRUE] : x \in {x \in Pairs : x # <<>> /\ x[1].kind # "dev"}}
                  \cup {[x EXCEPT ![2].opt = TRUE] : x \in {x \in Pairs : Len(x) = 2 /\ x[2].kind # "dev"}}),
    Deps(1, {<<>>, <<Dep("c-d", 4, "normal")>>, <<Opt(Dep("c-d", 4, "normal"), TRUE, TRUE, <<>>)>>, <<Ren("cd", 4, "normal")>>}),
    Deps(4, {<<>>, <<Dep("b", 2, "normal")>>, <<Dep("b", 3, "normal")>>, <<Dep("b", 2, "normal"), Ren("r", 3, "normal")>>}),
    Feats(1, {<<>>} \cup {<<Feat("x", i)>> : i \in {<<Strong("b", "y")>>, <<Strong("r", "y")>>, <<DepItem("b")>>, <<DepItem("r")>>, <<Weak("b", "y"), DepItem("b")>>,
                                                   <<DepItem("c-d")>>, <<Strong("c-d", "y")>>}}),
    Feats(2, {<<Feat("y", <<>>)>>}), Feats(3, {<<Feat("y", <<>>)>>}), Feats(4, {<<Feat("y", <<>>)>>}),
    Request(1, {<<"x">>, <<>>})>>
NamesConfs == {NoConf, [NoConf EXCEPT !.ign = <<Ign("build", "all")>>], [NoConf EXCEPT !.ign = <<Ign("normal", "ws")>>],
               [NoConf EXCEPT !.excl = <<[SpecOf("b") EXCEPT !.hasver = TRUE, !.ver = "1.0.0"]>>]}

----------------------------------------------------------------------------
(* Members: two of them ask different things of the crates they share, and only some of them are selected *)
MembersPk == <<Pkg("a", "1.0.0", TRUE), Pkg("b", "1.0.0", TRUE), Pkg("c", "1.0.0", FALSE), Pkg("d", "1.0.0", FALSE)>>
With(toml, to, k, fs) == Opt(Dep(toml, to, k), FALSE, FALSE, fs)
MembersSlots ==
  <<Deps(1, {<<>>, <<With("c", 3, "normal", <<"x">>)>>, <<With("c", 3, "dev", <<"x">>)>>} \cup IF Mid THEN {<<With("c", 3, "normal", <<>>), With("c", 3, "build", <<"y">>)>>} ELSE {}),
    Deps(2, {<<With("c", 3, "normal", <<>>)>>, <<With("c", 3, "normal", <<"y">>)>>} \cup IF Mid THEN {<<>>, <<Opt(Dep("c", 3, "normal"), TRUE, FALSE, <<"y">>)>>} ELSE {}),
    Deps(1, {<<>>, <<With("b", 2, "normal", <<"x">>)>>} \cup IF Mid THEN {<<With("b", 2, "dev", <<"x">>)>>} ELSE {}),
    Deps(3, {<<Opt(Dep("d", 4, "normal"), TRUE, FALSE, <<>>)>>}),
    Feats(1, {<<>>, <<Feat("x", <<Strong("c", "y")>>)>>}),
    Feats(2, {<<Feat("x", i)>> : i \in {<<>>, <<Strong("c", "x")>>} \cup IF Mid THEN {<<Weak("c", "y")>>, <<DepItem("c")>>} ELSE {}}),
    Feats(3, {<<Feat("x", <<DepItem("d")>>), Feat("y", i)>> : i \in {<<>>, <<Simple("x")>>} \cup IF Mid THEN {<<Strong("d", "z")>>} ELSE {}}),
    Feats(4, {<<Feat("z", <<>>)>>}),
    Request(1, {<<"x">>}), Request(2, {<<>>, <<"x">>}), RootOf({0, 1})>>
MembersConfs ==
  {NoConf, [NoConf EXCEPT !.ws = TRUE], [NoConf EXCEPT !.incl = <<"/w/b">>], [NoConf EXCEPT !.excl = <<SpecOf("b")>>], [NoConf EXCEPT !.excl = <<SpecOf("a")>>],
   [NoConf EXCEPT !.ign = <<Ign("normal", "ws")>>], [NoConf EXCEPT !.ign = <<Ign("dev", "all"), Ign("build", "ws")>>, !.ws = TRUE]}

----------------------------------------------------------------------------
(* Mixed: two declarations of the same crate that differ in kind, target and whether they are optional *)
MixedPk == <<Pkg("a", "1.0.0", TRUE), Pkg("b", "1.0.0", FALSE), Pkg("c", "1.0.0", FALSE)>>
Decls(toml, to, ks, es) == {For(Opt(Dep(toml, to, k), o, FALSE, fs), e) : k \in ks, o \in BOOLEAN, e \in es, fs \in {<<>>, <<"x">>}}
Real(S) == {d \in S : ~(d.kind = "dev" /\ d.opt)}
\* the second differs from the first in kind or target, and comes later
Rank(d) == (CASE d.kind = "normal" -> 0 [] d.kind = "build" -> 2 [] d.kind = "dev" -> 4) + (IF d.cfg = NoCfg THEN 0 ELSE 1)
MixedOne == Real(Decls("b", 2, KindNames, {NoCfg, Pred("windows")}))
MixedSlots ==
  <<Deps(1, {<<d>> : d \in MixedOne} \cup {<<d[1], d[2]>> : d \in {d \in MixedOne \X MixedOne : Rank(d[1]) < Rank(d[2]) /\ (Mid \/ d[1].feats # d[2].feats)}}),
    Deps(2, {<<For(Opt(Dep("c", 3, "normal"), TRUE, FALSE, <<>>), NoCfg)>>} \cup IF Mid THEN {<<For(Dep("c", 3, "normal"), Pred("windows"))>>, <<Dep("c", 3, "build")>>} ELSE {}),
    Feats(1, {<<>>} \cup {<<Feat("x", i)>> : i \in {<<Strong("b", "x")>>, <<Weak("b", "x")>>} \cup IF Mid THEN {<<DepItem("b")>>} ELSE {}}),
    Feats(2, {<<Feat("x", i)>> : i \in {<<DepItem("c")>>} \cup IF Mid THEN {<<>>, <<Strong("c", "x")>>} ELSE {}}),
    Feats(3, {<<Feat("x", <<>>)>>}),
    Request(1, {<<"x">>})>>
MixedConfs ==
  {[NoConf EXCEPT !.ign = i, !.tg = t] :
     i \in {<<>>, <<Ign("normal", "ws")>>, <<Ign("build", "all")>>} \cup IF Mid THEN {<<Ign("dev", "ws")>>, <<Ign("normal", "all"), Ign("dev", "nonws")>>} ELSE {},
     t \in {<<>>, <<Tgt(Linux, <<>>)>>} \cup IF Mid THEN {<<Tgt(Windows, <<>>)>>} ELSE {}}

----------------------------------------------------------------------------
(* Sources: crates of one name and version from the registry, a git repository and a directory, and all ways to exclude them *)
Git(name, ver) == [Pkg(name, ver, FALSE) EXCEPT !.url = "https://git.example/o/" \o name]
Dir(name, ver) == [Pkg(name, ver, FALSE) EXCEPT !.url = "", !.hassrc = FALSE, !.dir = "/w-ext/" \o name]
SourcesPk == <<Pkg("a", "1.0.0", TRUE), Pkg("b", "1.0.0", FALSE), Git("b", "1.0.0"), Dir("b", "1.0.0"), Git("b", "2.0.0"), Pkg("b", "2.0.0", FALSE)>>
One(toml, to) == {<<>>, <<Dep(toml, to, "normal")>>}
As(toml, to) == {<<>>, <<Ren(toml, to, "normal")>>}
SourcesSlots ==
  <<Deps(1, One("b", 2)), Deps(1, As("r", 3)), Deps(1, As("s", 4)), Deps(3, As("t", 2)), Deps(4, As("u", 5)), Deps(1, As("v", 6)), Deps(2, {<<>>} \cup IF Mid THEN As("w", 6) ELSE {})>>
Registry == "https://github.com/rust-lang/crates.io-index"
SourcesConfs ==
  {NoConf} \cup {[NoConf EXCEPT !.excl = <<[name |-> n, hasver |-> v # "", ver |-> v, hasurl |-> u # "", url |-> u]>>] :
                  n \in {"b"}, v \in {"", "1.0.0", "2.0.0"}, u \in {"", Registry, "https://git.example/o/b", "https://git.example/o/c"}}
  \cup {[NoConf EXCEPT !.excl = <<[SpecOf("b") EXCEPT !.hasver = TRUE, !.ver = "1.0.0", !.hasurl = TRUE, !.url = Registry],
                                  [SpecOf("b") EXCEPT !.hasurl = TRUE, !.url = "https://git.example/o/b", !.hasver = TRUE, !.ver = "2.0.0"]>>],
         [NoConf EXCEPT !.excl = <<SpecOf("a")>>], [NoConf EXCEPT !.excl = <<[SpecOf("a") EXCEPT !.hasurl = TRUE, !.url = Registry]>>]}

----------------------------------------------------------------------------
Fam ==
  CASE Family = "kinds"    -> [pk |-> KindsPk, slots |-> KindsSlots, confs |-> KindsConfs]
    [] Family = "features" -> [pk |-> FeaturesPk, slots |-> FeaturesSlots, confs |-> FeaturesConfs]
    [] Family = "targets"  -> [pk |-> TargetsPk, slots |-> TargetsSlots, confs |-> TargetsConfs]
    [] Family = "roots"    -> [pk |-> RootsPk, slots |-> RootsSlots, confs |-> RootsConfs]
    [] Family = "names"    -> [pk |-> NamesPk, slots |-> NamesSlots, confs |-> NamesConfs]
    [] Family = "members"  -> [pk |-> MembersPk, slots |-> MembersSlots, confs |-> MembersConfs]
    [] Family = "mixed"    -> [pk |-> MixedPk, slots |-> MixedSlots, confs |-> MixedConfs]
    [] Family = "sources"  -> [pk |-> SourcesPk, slots |-> SourcesSlots, confs |-> SourcesConfs]

VARIABLES ph, m, c, st, goal
vars == <<ph, m, c, st, goal>>

Init == ph = "declare" /\ m = [pk |-> Fam.pk, root |-> 0, k |-> 1] /\ c = NoConf /\ st = Nothing /\ goal = Nothing

Apply(slot, o) ==
  CASE slot.k = "deps"  -> [m EXCEPT !.pk[slot.p].deps = @ \o o, !.k = @ + 1]
    [] slot.k = "feats" -> [m EXCEPT !.pk[slot.p].feats = @ \o o, !.k = @ + 1]
    [] slot.k = "req"   -> [m EXCEPT !.pk[slot.p].req = o, !.k = @ + 1]
    [] slot.k = "root"  -> [m EXCEPT !.root = o, !.k = @ + 1]

Declare == /\ ph = "declare" /\ m.k <= Len(Fam.slots)
           /\ \E o \in Fam.slots[m.k].opts : m' = Apply(Fam.slots[m.k], o)
           /\ UNCHANGED <<ph, c, st, goal>>

----------------------------------------------------------------------------
(* What cargo makes of it *)
AllItems(p) == UNION {Range(m.pk[p].feats[k].items) : k \in DOMAIN m.pk[p].feats}
Tomls(p) == {m.pk[p].deps[i].toml : i \in DOMAIN m.pk[p].deps}
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
\* an optional dependency that no item mentions with `dep:` is also a feature
Implicit(p) == {t \in Tomls(p) : HasOptional(m, p, t) /\ DepItem(t) \notin AllItems(p)}
Full == [m EXCEPT !.pk = [p \in DOMAIN m.pk |-> [m.pk[p] EXCEPT !.feats = @ \o AsSeq({Feat(t, <<DepItem(t)>>) : t \in Implicit(p)})]]]

\* cargo refuses items that name nothing
ValidItem(M, p, x) ==
  CASE x.k = "simple" -> Declares(M, p, x.g)
    [] x.k = "dep"    -> HasOptional(M, p, x.d)
    [] OTHER          -> /\ x.d \in Tomls(p)
                         /\ x.k = "weak" => HasOptional(M, p, x.d)
                         /\ \A i \in DOMAIN M.pk[p].deps : M.pk[p].deps[i].toml = x.d => Declares(M, M.pk[p].deps[i].to, x.g)
Valid(M) == \A p \in DOMAIN M.pk : \A x \in UNION {Range(M.pk[p].feats[k].items) : k \in DOMAIN M.pk[p].feats} : ValidItem(M, p, x)

World(M, s) ==
  [n |-> Len(M.pk), root |-> M.root, wsroot |-> "/w", members |-> SelectSeq([p \in DOMAIN M.pk |-> p], LAMBDA p : M.pk[p].member),
   pk |-> [p \in DOMAIN M.pk |-> [M.pk[p] EXCEPT !.deps = [i \in DOMAIN @ |-> [@[i] EXCEPT !.linked = CLinked(s, p, i)]]]
                                  @@ [rf |-> AsSeq(CFeatures(s, p))]]]

Resolve == /\ ph = "declare" /\ m.k > Len(Fam.slots)
           /\ LET M == Full IN
              /\ Valid(M)
              /\ \E cc \in Fam.confs :
                   LET r == CClosure(M, CStart(M))
                       W == World(M, r)
                   IN /\ m' = [w |-> W, live |-> CLive(r)]
                      /\ c' = cc
                      /\ goal' = Closure(W, Usable(W, cc), Start(W, cc), TRUE)
           /\ ph' = "emit"
           /\ UNCHANGED st

Emit == /\ ph = "emit"
        /\ IF Emitting THEN PrintT("@CASE@" \o ToJson([w |-> m.w, c |-> c, live |-> AsSeq(m.live), k |-> AsSeq(goal.K)])) ELSE TRUE
        /\ ph' = "build"
        /\ UNCHANGED <<m, c, st, goal>>

Build == /\ Exploring /\ ph = "build"
         /\ st' \in Steps(m.w, c, Usable(m.w, c), st)
         /\ UNCHANGED <<ph, m, c, goal>>

Next == Declare \/ Resolve \/ Emit \/ Build
Spec == Init /\ [][Next]_vars

\* building ends: every step adds a fact, and (Sound) there is only so much to add
Grows == [][ph = "build" => Within(st, st') /\ st' # st]_vars

----------------------------------------------------------------------------
(* Properties *)
Built == ph = "build"
W == m.w
Final == Built /\ Steps(W, c, Usable(W, c), st) = {}

\* every order leads to the same graph, the closure
Sound == Built => Within(st, goal)
Confluent == Final => st = goal
\* nothing is in the graph without a reason, and nothing without a declaration that cargo resolved
Justified == Built => JustifiedKrates(W, c, st) /\ JustifiedDeps(W, c, st) /\ JustifiedFeatures(W, c, st)
OnlyResolved == Built => goal.K \subseteq m.live
\* no excluded crate, no ignored kind
Respected == Built => /\ \A p \in goal.K : ~Excluded(W, c, p)
                      /\ \A pi \in goal.L : ~KindIgnored(c, W.pk[pi[1]].deps[pi[2]].kind, W.pk[pi[1]].member)

AllOf(C) == Closure(W, Usable(W, C), Start(W, C), TRUE)
Start1 == Built /\ st = Nothing
\* asking for less gives less
Monotone == Start1 =>
  /\ Within(goal, AllOf([c EXCEPT !.ign = <<>>]))
  /\ Within(goal, AllOf([c EXCEPT !.excl = <<>>]))
  /\ Within(goal, AllOf([c EXCEPT !.ws = TRUE, !.incl = <<>>]))
  /\ \A k \in KindNames, s \in Scopes : Within(AllOf([c EXCEPT !.ign = Append(@, Ign(k, s))]), goal)
\* ignoring a kind everywhere is ignoring it in both scopes
Scoped == Start1 => \A k \in KindNames :
  AllOf([c EXCEPT !.ign = Append(@, Ign(k, "all"))]) = AllOf([c EXCEPT !.ign = @ \o <<Ign(k, "nonws"), Ign(k, "ws")>>])
\* more targets keep more, if there are any; none keep the most that does not depend on them
NoWeakItems == \A p \in DOMAIN W.pk : \A k \in DOMAIN W.pk[p].feats : \A x \in Range(W.pk[p].feats[k].items) : x.k # "weak"
MoreTargets == (Start1 /\ c.tg # <<>>) => \A t \in {Linux, Windows} : Within(goal, AllOf([c EXCEPT !.tg = Append(@, Tgt(t, <<>>))]))
\* a caller who wants everything gets everything cargo resolved (but for weak items, which cargo's lock file does not know)
Everything == (Start1 /\ NoWeakItems /\ \A p \in DOMAIN W.pk : \A i \in DOMAIN W.pk[p].deps : TargetKept(W.pk[p].deps[i].cfg, <<>>)) =>
  LET g == AllOf([NoConf EXCEPT !.ws = TRUE])
  IN /\ g.K = m.live
     /\ \A p \in g.K : EnabledOn(g, p) = Resolved(W, p)
     /\ \A p \in g.K : \A i \in DOMAIN W.pk[p].deps : W.pk[p].deps[i].linked = (<<p, i>> \in g.L)
\* filtering the finished graph never leaves less than building without the kind
FilterAfter == Start1 => \A k \in KindNames :
  LET C == [c EXCEPT !.ws = TRUE, !.incl = <<>>]
  IN AllOf([C EXCEPT !.ign = Append(@, Ign(k, "all"))]).K \subseteq ReachWithout(W, AllOf(C), k, Range(W.members) \cap AllOf(C).K)
=============================================================================
