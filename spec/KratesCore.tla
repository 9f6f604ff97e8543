------------------------------ MODULE KratesCore ------------------------------
(***************************************************************************)
(* What it means to turn a resolved cargo workspace into a crate graph.    *)
(*                                                                         *)
(* A world W is what cargo states: packages 1..n in package-id order, with *)
(* their declared dependencies, their declared and their resolved          *)
(* features, the workspace members and (possibly) the root of the resolve. *)
(* A configuration C is what the caller asked of the builder.  The         *)
(* operators below are the rules of the state machine in KratesBuild: what *)
(* is live follows from what is already live.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}

(***************************************************************************)
(* cfg() expressions.  A target is a triple, the facts rustc states about  *)
(* it (none when the triple is not known) and the promised target          *)
(* features.                                                               *)
(***************************************************************************)
RECURSIVE CfgHolds(_, _)
CfgHolds(e, t) ==
  CASE e.t = "p"   -> e.f \in Range(t.facts)
    [] e.t = "tf"  -> e.f \in Range(t.feats)
    [] e.t = "o"   -> FALSE
    [] e.t = "d"   -> TRUE          \* debug_assertions: rustc states it for every target
    [] e.t = "true"  -> TRUE
    [] e.t = "false" -> FALSE
    [] e.t = "not" -> ~CfgHolds(e.c[1], t)
    [] e.t = "all" -> \A i \in DOMAIN e.c : CfgHolds(e.c[i], t)
    [] e.t = "any" -> \E i \in DOMAIN e.c : CfgHolds(e.c[i], t)

RECURSIVE Preds(_)
Preds(e) == IF e.t \in {"p", "tf", "o", "d"} THEN 1
            ELSE IF e.t \in {"true", "false"} THEN 0
            ELSE LET RECURSIVE Sum(_)
                     Sum(i) == IF i = 0 THEN 0 ELSE Preds(e.c[i]) + Sum(i - 1)
                 IN Sum(Len(e.c))

NoTarget == [triple |-> "", facts |-> <<>>, feats |-> <<>>]

\* Is a dependency declared for this target expression kept?
TargetKept(e, tgts) ==
  CASE e.t = "none"   -> TRUE
    [] e.t = "triple" -> tgts = <<>> \/ \E t \in Range(tgts) : t.triple = e.f
    [] OTHER          -> IF tgts = <<>>
                         THEN Preds(e) > 0 \/ CfgHolds(e, NoTarget)
                         ELSE \E t \in Range(tgts) : CfgHolds(e, t)

(***************************************************************************)
(* Kinds and scopes                                                        *)
(***************************************************************************)
InScope(scope, member) == scope = "all" \/ (scope = "ws") = member

KindIgnored(C, kind, member) ==
  \E x \in Range(C.ign) : x.kind = kind /\ InScope(x.scope, member)

(***************************************************************************)
(* Package specifications                                                  *)
(***************************************************************************)
SpecMatches(s, p) ==
  /\ s.name = p.name
  /\ s.hasver => s.ver = p.ver
  /\ (s.hasurl /\ p.hassrc) => s.url = p.url

Excluded(W, C, p) == \E s \in Range(C.excl) : SpecMatches(s, W.pk[p])

(***************************************************************************)
(* Roots                                                                   *)
(***************************************************************************)
RootSet(W, C) ==
  IF C.incl = <<>>
  THEN IF ~C.ws /\ W.root # 0 THEN {W.root} ELSE Range(W.members)
  ELSE IF Len(C.incl) = 1 /\ C.incl[1] = W.wsroot THEN Range(W.members)
  ELSE {m \in Range(W.members) : W.pk[m].dir \in Range(C.incl)}

LiveRoots(W, C) == {r \in RootSet(W, C) : ~Excluded(W, C, r)}

(***************************************************************************)
(* Declared dependencies that the configuration leaves in place            *)
(***************************************************************************)
UsableDep(W, C, p, i) ==
  LET d == W.pk[p].deps[i] IN
  /\ d.linked
  /\ ~KindIgnored(C, d.kind, W.pk[p].member)
  /\ TargetKept(d.cfg, C.tg)
  /\ ~Excluded(W, C, d.to)

Usable(W, C) ==
  {pi \in UNION {{<<p, i>> : i \in DOMAIN W.pk[p].deps} : p \in 1..W.n} : UsableDep(W, C, pi[1], pi[2])}

Resolved(W, p) == Range(W.pk[p].rf)

\* the items of feature f of p, as declared
Items(W, p, f) ==
  LET fs == W.pk[p].feats
  IN UNION {Range(fs[k].items) : k \in {k \in DOMAIN fs : fs[k].f = f}}

\* where they are written: <<k, j>> is item j of the k-th feature, which is f
ItemsAt(W, p, f) ==
  LET fs == W.pk[p].feats
  IN UNION {{<<k, j>> : j \in DOMAIN fs[k].items} : k \in {k \in DOMAIN fs : fs[k].f = f}}

Declares(W, p, f) == \E k \in DOMAIN W.pk[p].feats : W.pk[p].feats[k].f = f

HasOptional(W, p, d) == \E i \in DOMAIN W.pk[p].deps : W.pk[p].deps[i].toml = d /\ W.pk[p].deps[i].opt

\* The features a declared dependency asks of the crate it resolved to
Requests(W, p, i) ==
  LET d == W.pk[p].deps[i]
  IN (Range(d.feats) \cup (IF d.deff THEN {"default"} ELSE {})) \cap Resolved(W, d.to)

(***************************************************************************)
(* The rules.  K live crates, F live features <<p, f>>, L live declared    *)
(* dependencies <<p, i>>, Q features <<p, q, g>> of q toggled by features  *)
(* of p; U the usable dependencies.                                        *)
(***************************************************************************)
EnabledItems(W, F) == UNION {{<<pf[1], x>> : x \in Items(W, pf[1], pf[2])} : pf \in F}

Activated(W, F, p, d) ==
  \E f \in {pf[2] : pf \in {pf \in F : pf[1] = p}} :
     \E x \in Items(W, p, f) : x.k \in {"dep", "strong"} /\ x.d = d

\* declared dependencies whose time has come
ReadyDeps(W, U, K, F) ==
  LET act == {<<px[1], px[2].d>> : px \in {px \in EnabledItems(W, F) : px[2].k \in {"dep", "strong"}}}
  IN {pi \in U : /\ pi[1] \in K
                 /\ W.pk[pi[1]].deps[pi[2]].opt => <<pi[1], W.pk[pi[1]].deps[pi[2]].toml>> \in act}

DepTarget(W, pi) == W.pk[pi[1]].deps[pi[2]].to

\* features a live dependency asks for
DepFeatures(W, pi) == {<<DepTarget(W, pi), g>> : g \in Requests(W, pi[1], pi[2])}

(***************************************************************************)
(* Features of the same crate that item x of an enabled feature of p       *)
(* implies.  In cargo, `d/g` for an optional d also enables the feature d  *)
(* if there is one; krates does not do that for crates other than the      *)
(* roots (known finding strong-own), which is what imp = FALSE describes.  *)
(***************************************************************************)
OwnFeatures(W, p, x, imp) ==
  {pf \in (IF x.k = "simple" THEN {<<p, x.g>>}
           ELSE IF imp /\ x.k = "strong" /\ HasOptional(W, p, x.d) /\ Declares(W, p, x.d) THEN {<<p, x.d>>}
           ELSE {}) : pf[2] \in Resolved(W, p)}

\* features of dependencies that item x implies, given the live dependencies
ForeignFeatures(W, L, p, x) ==
  IF x.k \notin {"strong", "weak"} THEN {}
  ELSE {<<p, DepTarget(W, pi), x.g>> :
          pi \in {pi \in L : /\ pi[1] = p
                             /\ W.pk[p].deps[pi[2]].toml = x.d
                             /\ x.g \in Resolved(W, DepTarget(W, pi))}}

(***************************************************************************)
(* One round: everything that follows from K, F, L, Q in one step          *)
(***************************************************************************)
Round(W, U, s, imp) ==
  LET L2 == s.L \cup ReadyDeps(W, U, s.K, s.F)
      its == EnabledItems(W, s.F)
      Q2 == s.Q \cup UNION {ForeignFeatures(W, L2, px[1], px[2]) : px \in its}
  IN [K |-> s.K \cup {DepTarget(W, pi) : pi \in L2},
      F |-> s.F \cup UNION {DepFeatures(W, pi) : pi \in L2}
                \cup UNION {OwnFeatures(W, px[1], px[2], imp) : px \in its}
                \cup {<<q[2], q[3]>> : q \in Q2},
      L |-> L2,
      Q |-> Q2]

Start(W, C) ==
  LET R == LiveRoots(W, C)
  IN [K |-> R, F |-> UNION {{<<r, f>> : f \in Resolved(W, r)} : r \in R}, L |-> {}, Q |-> {}]

RECURSIVE Closure(_, _, _, _)
Closure(W, U, s, imp) == LET t == Round(W, U, s, imp) IN IF t = s THEN s ELSE Closure(W, U, t, imp)

(***************************************************************************)
(* What the graph has to show, given the closure s                         *)
(***************************************************************************)
EnabledOn(s, p) == {pf[2] : pf \in {pf \in s.F : pf[1] = p}}

GraphDeps(W, s) ==
  UNION {LET d == W.pk[pi[1]].deps[pi[2]]
             rq == Requests(W, pi[1], pi[2])
         IN {[p |-> pi[1], q |-> d.to, g |-> g, kind |-> d.kind, cfg |-> d.cfgs] :
                g \in IF rq = {} THEN {""} ELSE rq}
         : pi \in s.L}

FeatureNodes(s) == s.F

(***************************************************************************)
(* Links between features.  Every feature is linked to its crate; an item  *)
(* x of a feature f of p links f to what the item names, as far as that is *)
(* in the graph.                                                           *)
(***************************************************************************)
Link(p, f, r, h) == [q |-> p, g |-> f, r |-> r, h |-> h]

OwnLinks(s) == {Link(pf[1], pf[2], pf[1], "") : pf \in s.F}

\* the features of live crates and the items they consist of: <<p, f, x>>
FeatureItems(W, s) == UNION {{<<pf[1], pf[2], x>> : x \in Items(W, pf[1], pf[2])} : pf \in s.F}

InGraph(s, e) == e.r \in s.K /\ (e.h = "" \/ <<e.r, e.h>> \in s.F)

ItemLinks(W, s, deps, p, f, x) ==
  {e \in IF x.k = "simple" THEN {Link(p, f, p, x.g)}
         ELSE {Link(p, f, DepTarget(W, pi), x.g) : pi \in {pi \in deps : pi[1] = p /\ W.pk[p].deps[pi[2]].toml = x.d}}
   : InGraph(s, e)}

\* those that have to be there, and those that may: the item refers to a dependency that is not live itself,
\* but whose crate is in the graph for another reason
MustLinks(W, s, p, f, x) == ItemLinks(W, s, s.L, p, f, x)
LinkedDeps(W) == {pi \in UNION {{<<p, i>> : i \in DOMAIN W.pk[p].deps} : p \in 1..W.n} : W.pk[pi[1]].deps[pi[2]].linked}
MayLinks(W, s, p, f, x) == ItemLinks(W, s, LinkedDeps(W), p, f, x)

(***************************************************************************)
(* Known finding feature-placeholder: krates looks the crate an item names *)
(* up by the first linked dependency (in id order, x.fm) whose package or  *)
(* extern name reads like the name in the manifest, and the feature (for a *)
(* renamed `dep:` item, a feature with that name) of that crate among the  *)
(* feature nodes made so far.  If there is none it invents an unattached   *)
(* feature node on the crate that has the item.  Weak items are only       *)
(* looked at if the dependency's name is itself a feature.  Links is the   *)
(* set of links an item can get this way, Placeholder the invented nodes.  *)
(* An item is proper if none of this can be observed for it.               *)
(***************************************************************************)
LookedUp(W, s, p, x) ==
  x.k # "simple" /\ x.fm # 0 /\ x.fm \in s.K /\ (x.k = "weak" => x.d \in Resolved(W, p))

LookupName(W, x) == IF x.k = "dep" THEN IF W.pk[x.fm].name = x.d THEN "" ELSE x.d ELSE x.g

\* the item toggles the looked up feature itself, so that it is there in time
Proper(W, s, p, x) ==
  \/ x.k = "simple"
  \/ /\ LookedUp(W, s, p, x)
     /\ \/ LookupName(W, x) = ""
        \/ <<p, x.fm, x.g>> \in s.Q /\ x.k # "dep"

Placeholder(W, s, p, x) ==
  IF Proper(W, s, p, x) \/ ~LookedUp(W, s, p, x) THEN {} ELSE {<<p, LookupName(W, x)>>}

\* at least one of these is there if the item is looked up at all
CodeLinks(W, s, p, f, x) ==
  IF x.k = "simple" THEN MustLinks(W, s, p, f, x)
  ELSE IF ~LookedUp(W, s, p, x) THEN {}
  ELSE LET n == LookupName(W, x)
       IN {Link(p, f, x.fm, n)} \cup {Link(p, f, y[1], y[2]) : y \in Placeholder(W, s, p, x)}

DirectDeps(W, s, p) == {DepTarget(W, pi) : pi \in {pi \in s.L : pi[1] = p}}
DirectDependents(W, s, q) == {pi[1] : pi \in {pi \in s.L : DepTarget(W, pi) = q}}

\* which crate each declared dependency was resolved to (0: none in this graph)
Mapping(W, s, p) == [i \in DOMAIN W.pk[p].deps |-> IF <<p, i>> \in s.L THEN DepTarget(W, <<p, i>>) ELSE 0]

\* crates reached from the members without an edge of kind k
RECURSIVE ReachWithout(_, _, _, _)
ReachWithout(W, s, k, X) ==
  LET Y == X \cup {DepTarget(W, pi) : pi \in {pi \in s.L : pi[1] \in X /\ W.pk[pi[1]].deps[pi[2]].kind # k}}
  IN IF Y = X THEN X ELSE ReachWithout(W, s, k, Y)

Sorted(S) == LET RECURSIVE Ins(_)
                 Ins(X) == IF X = {} THEN <<>>
                           ELSE LET m == CHOOSE x \in X : \A y \in X : x <= y IN <<m>> \o Ins(X \ {m})
             IN Ins(S)
=============================================================================
