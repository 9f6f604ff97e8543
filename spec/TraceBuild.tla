------------------------------ MODULE TraceBuild ------------------------------
(***************************************************************************)
(* Trace validation: each line of the input is one recorded run of the     *)
(* real builder: the world it was given, the calls made on the builder and *)
(* everything that could be observed of the graph it returned.  The rules  *)
(* of KratesCore are run to their closure, one round per step, and the     *)
(* observation is compared with the graph the closure describes.  Each     *)
(* line is an initial state of its own, so that TLC's workers share them.  *)
(***************************************************************************)
EXTENDS KratesCore, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, st, ph
vars == <<tid, st, ph>>

Init == /\ tid \in DOMAIN Trace
        /\ st = [K |-> {}, F |-> {}, L |-> {}, Q |-> {}]
        /\ ph = "roots"

R == Trace[tid]
W == R.w
C == R.c
O == R.o

SelectRoots == /\ ph = "roots"
               /\ st' = Start(W, C)
               /\ ph' = "visit"
               /\ UNCHANGED tid

Visit == /\ ph = "visit"
         /\ st' = Closure(W, Usable(W, C), st, TRUE)
         /\ ph' = "compare"
         /\ UNCHANGED tid

(***************************************************************************)
(* The comparison: a set of <<label, detail>> of what does not agree       *)
(***************************************************************************)
Fail(lab, ok, detail) == IF ok THEN {} ELSE {<<lab, detail>>}
Diff(lab, got, want) ==
  Fail(lab, got = want, [missing |-> want \ got, extra |-> got \ want])

NoDup(seq) == Cardinality(Range(seq)) = Len(seq)

OwnNodes == {x \in Range(O.fnodes) : x.own}

\* does the way krates links this item differ from what the item says?
Deviates(s, i) == ~Proper(W, s, i[1], i[3]) \/ CodeLinks(W, s, i[1], i[2], i[3]) # MustLinks(W, s, i[1], i[2], i[3])

\* unattached feature nodes: no more of them than there are items that account for one
StrayOk(s) ==
  \A x \in {x \in Range(O.fnodes) : ~x.own} :
     Len(SelectSeq(O.fnodes, LAMBDA y : y = x))
       <= Cardinality(UNION {{<<f, kj>> : kj \in {kj \in ItemsAt(W, x.q, f) :
                                  <<x.q, x.g>> \in Placeholder(W, s, x.q, W.pk[x.q].feats[kj[1]].items[kj[2]])}}
                             : f \in EnabledOn(s, x.q)})

\* a link is there no more often than there are items, or the feature itself, to account for it
LinksOnce(s) ==
  NoDup(O.ff)
  \/ \A e \in Range(O.ff) :
       Len(SelectSeq(O.ff, LAMBDA x : x = e))
         <= (IF e \in OwnLinks(s) THEN 1 ELSE 0)
            + Cardinality({kj \in ItemsAt(W, e.q, e.g) :
                             LET x == W.pk[e.q].feats[kj[1]].items[kj[2]]
                             IN e \in MayLinks(W, s, e.q, e.g, x) \cup CodeLinks(W, s, e.q, e.g, x)})

(***************************************************************************)
(* Known finding direct-chain: direct_dependencies also walks from the     *)
(* features of a dependency to the features, and crates, of others.        *)
(***************************************************************************)
Step(j) == {e[2] : e \in {e \in Range(O.adj) : e[1] = j}}
RECURSIVE Walk(_)
Walk(N) == LET M == N \cup UNION {Step(n) : n \in {n \in N : n > Len(O.krates)}}
           IN IF M = N THEN N ELSE Walk(M)
\* j: the position of the crate
Through(j) == {O.krates[n] : n \in {n \in Walk(Step(j)) : n <= Len(O.krates)}}

(***************************************************************************)
(* Types of the caller's own: the same graph, each crate in it (and none   *)
(* of the others) converted once, each edge converted once.                *)
(***************************************************************************)
OwnTypes(s) ==
  IF "alt" \notin DOMAIN O THEN {}
  ELSE LET a == O.alt IN
       IF ~a.ok THEN {<<"types.status", a.msg>>}
       ELSE Fail("types.krates", a.krates = O.krates /\ a.len = O.len /\ Range(a.krates) = s.K, a.krates)
            \cup Fail("types.features", a.feats = O.feats, a.feats)
            \cup Fail("types.nodes", a.fnodes = [j \in DOMAIN O.fnodes |-> [q |-> O.fnodes[j].q, g |-> O.fnodes[j].g]], a.fnodes)
            \cup Fail("types.mapping", a.map = O.map, a.map)
            \cup Fail("types.edges", a.adj = O.adj /\ a.weights = O.weights, a.adj)
            \cup Fail("types.queries", a.dd = O.dd /\ a.dt = O.dt, <<a.dd, a.dt>>)
            \cup Fail("types.made", NoDup(a.made) /\ Range(a.made) = s.K, a.made)
            \cup Fail("types.links", a.links = Len(a.adj), a.links)
            \cup Fail("types.filtered", a.filtered = O.filtered, a.filtered)

(***************************************************************************)
(* The types krates provides itself (the package as the node), with nobody *)
(* told what was filtered: the same graph again, of unaltered packages.    *)
(***************************************************************************)
PlainTypes(s) ==
  IF "plain" \notin DOMAIN O THEN {}
  ELSE LET a == O.plain IN
       IF ~a.ok THEN {<<"plain.status", a.msg>>}
       ELSE Fail("plain.krates", a.krates = O.krates /\ a.len = O.len /\ a.adj = O.adj, a.krates)
            \cup Fail("plain.index", a.index = a.krates /\ a.nindex = a.krates, <<a.index, a.nindex>>)
            \cup Fail("plain.altered", a.altered = <<>>, a.altered)
            \cup Fail("plain.members", a.wm = O.wm, a.wm)
            \cup Fail("plain.byname", a.byname = [j \in DOMAIN O.byname |-> O.byname[j].got], a.byname)
            \cup Fail("plain.search", a.search = [j \in DOMAIN O.search |-> O.search[j].got], a.search)
            \cup Fail("plain.queries", a.dd = O.dd /\ a.dt = O.dt /\ a.map = O.map
                                        /\ a.kf = <<O.kf["normal"], O.kf["build"], O.kf["dev"]>>, <<a.dd, a.dt, a.map, a.kf>>)

Compare(s) ==
  IF s.K = {}
  THEN Fail("root.none", O.status = "err" /\ O.msg = "NoRootKrates", [got |-> O.status, msg |-> O.msg])
       \cup (IF O.status = "err" THEN Diff("report.none", Range(O.filtered), {}) ELSE {})
  ELSE IF O.status # "ok" THEN {<<"status", [got |-> O.status, msg |-> O.msg]>>}
  ELSE
  LET k == Len(O.krates)
      pos == [p \in Range(O.krates) |-> CHOOSE j \in 1..k : O.krates[j] = p]
      both == s.K \cap Range(O.krates)
      dep == Range(O.dep)
      ff == Range(O.ff)
  IN
  Diff("krates", Range(O.krates), s.K)
  \cup Fail("krates.once", NoDup(O.krates) /\ O.len = k, [krates |-> O.krates, len |-> O.len])
  \cup Diff("report", Range(O.filtered), (1..W.n) \ s.K)
  \cup Fail("report.once", NoDup(O.filtered), O.filtered)
  \cup Fail("report.partition", Range(O.filtered) \cap Range(O.krates) = {}, O.filtered)
  \cup Fail("report.unaltered", O.altered = <<>>, O.altered)
  \cup UNION {Diff("features", {<<p, f>> : f \in Range(O.feats[pos[p]])}, {<<p, f>> : f \in EnabledOn(s, p)}) : p \in both}
  \cup Diff("edges", dep, GraphDeps(W, s))
  \cup Fail("edges.once", NoDup(O.dep), {O.dep[j] : j \in {j \in DOMAIN O.dep : \E i \in DOMAIN O.dep : i < j /\ O.dep[i] = O.dep[j]}})
  \cup Fail("edges.feature.once", NoDup(O.pf), O.pf)
  \cup Fail("links.once", LinksOnce(s), O.ff)
  \cup Diff("edges.feature", Range(O.pf), {[p |-> q[1], q |-> q[2], g |-> q[3]] : q \in s.Q})
  \cup Diff("fnodes", {<<x.q, x.g>> : x \in OwnNodes}, FeatureNodes(s))
  \cup Fail("fnodes.once", Len(SelectSeq(O.fnodes, LAMBDA x : x.own)) = Cardinality(OwnNodes), O.fnodes)
  \cup Fail("fnodes.stray", StrayOk(s), SelectSeq(O.fnodes, LAMBDA x : ~x.own))
  \cup Fail("links.own", OwnLinks(s) \subseteq ff, OwnLinks(s) \ ff)
  \cup UNION {Fail("links.missing", MustLinks(W, s, i[1], i[2], i[3]) \subseteq ff
                                    \/ (/\ Deviates(s, i)
                                        /\ LookedUp(W, s, i[1], i[3]) => CodeLinks(W, s, i[1], i[2], i[3]) \cap ff # {}), i)
              : i \in FeatureItems(W, s)}
  \cup LET may == OwnLinks(s) \cup UNION {MayLinks(W, s, i[1], i[2], i[3]) \cup CodeLinks(W, s, i[1], i[2], i[3]) : i \in FeatureItems(W, s)}
      IN Fail("links.extra", ff \subseteq may, ff \ may)
  \cup UNION {Fail("mapping", O.map[pos[p]] = Mapping(W, s, p), [p |-> p, got |-> O.map[pos[p]], want |-> Mapping(W, s, p)]) : p \in both}
  \cup UNION {(IF Range(O.dd[pos[p]]) = Through(pos[p]) THEN {}
               ELSE Diff("ddeps", {<<p, q>> : q \in Range(O.dd[pos[p]])}, {<<p, q>> : q \in DirectDeps(W, s, p)}))
              \cup Fail("ddeps.once", NoDup(O.dd[pos[p]]), <<p, O.dd[pos[p]]>>)
              \cup Diff("ddependents", {<<p, q>> : q \in Range(O.dt[pos[p]])}, {<<p, q>> : q \in DirectDependents(W, s, p)})
              \cup Fail("ddependents.once", NoDup(O.dt[pos[p]]), <<p, O.dt[pos[p]]>>)
              : p \in both}
  \cup Fail("order", O.krates = Sorted(Range(O.krates)) /\ O.order = O.krates, O.order)
  \cup UNION {LET x == O.lookup[p]
                  want == IF p \in Range(O.krates) THEN p ELSE 0
              IN Fail("lookup", x.nid = want /\ x.node = want /\ x.get = want /\ x.has = (want # 0), <<p, x>>)
                 \cup (IF p \in both THEN Diff("lookup.features", Range(x.feats), EnabledOn(s, p)) ELSE {})
              : p \in 1..W.n}
  \cup UNION {LET x == O.getf[j]
                  want == IF <<x.p, x.f>> \in s.F THEN <<x.p, x.f>> ELSE <<0, "">>
              IN Fail("getnode", <<x.q, x.g>> = want, x)
              : j \in DOMAIN O.getf}
  \cup Fail("members", O.wm = Sorted(Range(W.members) \cap s.K), O.wm)
  \cup UNION {LET x == O.byname[j]
              IN Fail("byname", x.got = Sorted({p \in s.K : W.pk[p].name = x.name}), x) : j \in DOMAIN O.byname}
  \cup UNION {LET x == O.search[j]
              IN Fail("search", x.got = Sorted({p \in s.K : W.pk[p].name = x.name /\ p \in Range(x.sat)}), x)
              : j \in DOMAIN O.search}
  \cup UNION {LET want == ReachWithout(W, s, kd, Range(W.members) \cap s.K)
              IN Fail("kfilter", O.kf[kd] = Sorted(want), [kind |-> kd, got |-> O.kf[kd], want |-> Sorted(want)])
              : kd \in {"normal", "build", "dev"}}
  \cup Fail("wsroot", O.wsroot = W.wsroot, O.wsroot)
  \cup Fail("odd", O.odd = <<>>, O.odd)
  \cup OwnTypes(s)
  \cup PlainTypes(s)

\* what was accepted only because it is a known finding
Known(s) ==
  IF s.K = {} \/ O.status # "ok" THEN {}
  ELSE (IF \E x \in Range(O.fnodes) : ~x.own THEN {"feature-placeholder"} ELSE {})
       \cup (IF \E i \in FeatureItems(W, s) : i[3].k = "weak" /\ ~(MustLinks(W, s, i[1], i[2], i[3]) \subseteq Range(O.ff))
             THEN {"weak-link"} ELSE {})
       \cup (IF \E j \in DOMAIN O.krates : O.krates[j] \in s.K /\ Range(O.dd[j]) # DirectDeps(W, s, O.krates[j])
             THEN {"direct-chain"} ELSE {})

Judge == /\ ph = "compare"
         /\ LET bad1 == Compare(st)
                \* known finding strong-own
                st2 == Closure(W, Usable(W, C), Start(W, C), FALSE)
                bad2 == IF bad1 = {} \/ st2 = st THEN bad1 ELSE Compare(st2)
                dev == Cardinality(bad2) < Cardinality(bad1)
                bad == IF dev THEN bad2 ELSE bad1
                known == IF bad # {} THEN {} ELSE (IF dev THEN {"strong-own"} ELSE {}) \cup Known(IF dev THEN st2 ELSE st)
            IN /\ \A b \in bad : PrintT("@FAIL@" \o ToJson([id |-> R.id, label |-> b[1], detail |-> ToString(b[2])]))
               /\ PrintT("@DONE@" \o ToJson([id |-> R.id, k |-> Cardinality(st.K), f |-> Cardinality(st.F),
                                             l |-> Cardinality(st.L), q |-> Cardinality(st.Q), bad |-> Cardinality(bad),
                                             known |-> known]))
         /\ ph' = "done"
         /\ UNCHANGED <<tid, st>>

Next == SelectRoots \/ Visit \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
