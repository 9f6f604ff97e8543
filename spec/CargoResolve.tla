----------------------------- MODULE CargoResolve -----------------------------
(***************************************************************************)
(* The environment: which declared dependencies cargo resolves, and which  *)
(* features it lists, for a set of manifests M.                            *)
(*   M.pk[p]: member, req (the features the command line asks for), deps   *)
(*   [toml, to, kind, opt, deff, feats], feats [f, items [k, d, g]]        *)
(* A package is activated once for itself (members: with development       *)
(* dependencies) and once for its dependents (without); what is enabled on *)
(* one activation says nothing about the other's dependencies.  Features   *)
(* are unified over all targets and kinds, and a weak item counts as if it *)
(* were not weak, as cargo's lock file has it.                             *)
(*   A activations <<p, dev>>, F features <<p, dev, f>> of activations,    *)
(*   L resolved dependencies <<p, dev, i>>                                 *)
(***************************************************************************)
EXTENDS KratesCore

CStart(M) ==
  [A |-> {<<p, TRUE>> : p \in {p \in DOMAIN M.pk : M.pk[p].member}},
   F |-> UNION {{<<p, TRUE, f>> : f \in {f \in Range(M.pk[p].req) : Declares(M, p, f)}} : p \in {p \in DOMAIN M.pk : M.pk[p].member}},
   L |-> {}]

CRound(M, s) ==
  LET its == UNION {{<<f[1], f[2], x>> : x \in Items(M, f[1], f[3])} : f \in s.F}
      wanted == {<<e[1], e[2], e[3].d>> : e \in {e \in its : e[3].k # "simple"}}
      ready == UNION {{<<a[1], a[2], i>> : i \in {i \in DOMAIN M.pk[a[1]].deps :
                         /\ M.pk[a[1]].deps[i].kind = "dev" => a[2]
                         /\ M.pk[a[1]].deps[i].opt => <<a[1], a[2], M.pk[a[1]].deps[i].toml>> \in wanted}} : a \in s.A}
      L2 == s.L \cup ready
      To(l) == M.pk[l[1]].deps[l[3]].to
  IN [A |-> s.A \cup {<<To(l), FALSE>> : l \in L2},
      F |-> s.F
            \cup UNION {LET d == M.pk[l[1]].deps[l[3]]
                        IN {<<d.to, FALSE, g>> : g \in {g \in Range(d.feats) \cup (IF d.deff THEN {"default"} ELSE {}) : Declares(M, d.to, g)}} : l \in L2}
            \cup {<<e[1], e[2], e[3].g>> : e \in {e \in its : e[3].k = "simple" /\ Declares(M, e[1], e[3].g)}}
            \cup {<<e[1], e[2], e[3].d>> : e \in {e \in its : e[3].k = "strong" /\ HasOptional(M, e[1], e[3].d) /\ Declares(M, e[1], e[3].d)}}
            \cup UNION {{<<To(l), FALSE, e[3].g>> : l \in {l \in L2 : l[1] = e[1] /\ l[2] = e[2] /\ M.pk[l[1]].deps[l[3]].toml = e[3].d
                                                                      /\ Declares(M, To(l), e[3].g)}}
                        : e \in {e \in its : e[3].k \in {"strong", "weak"}}},
      L |-> L2]

RECURSIVE CClosure(_, _)
CClosure(M, s) == LET t == CRound(M, s) IN IF t = s THEN s ELSE CClosure(M, t)

CLive(s) == {a[1] : a \in s.A}
CLinked(s, p, i) == \E l \in s.L : l[1] = p /\ l[3] = i
CFeatures(s, p) == {f[3] : f \in {f \in s.F : f[1] = p}}
=============================================================================
