------------------------------- MODULE BigWorlds -------------------------------
(***************************************************************************)
(* Workspaces of any size, in a few shapes (lib/shapes.py), and how large  *)
(* the graph of each is, as a function of the size.  TLC compares these    *)
(* functions with the closure of KratesCore on the small ones; on the      *)
(* large ones, where nothing that follows every path or nests as deep as   *)
(* the workspace does ends in time, they are what the builder is judged    *)
(* by.                                                                     *)
(***************************************************************************)
EXTENDS KratesCore

\* k crates, f feature nodes, q edges from crates to features they toggle, dep dependency edges, lo..hi links between
\* features, dd pairs of crates one of which depends directly on the other, dev: crates left without development dependencies
Size(k, f, q, dep, lo, hi, dd, normal) ==
  [k |-> k, f |-> f, q |-> q, dep |-> dep, lo |-> lo, hi |-> hi, dd |-> dd, kf |-> [normal |-> normal, build |-> k, dev |-> k]]

Triangle(n) == (n * (n - 1)) \div 2

Big(shape, n) ==
  CASE shape = "chain"  -> Size(n, 0, 0, n - 1, 0, 0, n - 1, 1)
    [] shape = "star"   -> Size(n, 0, 0, n - 1, 0, 0, n - 1, 1)
    [] shape = "ladder" -> LET m == n - (n % 2) IN Size(m, 0, 0, 2 * (m - 2), 0, 0, 2 * (m - 2), 2)
    [] shape = "dense"  -> Size(n, 0, 0, Triangle(n), 0, 0, Triangle(n), 1)
    [] shape = "ring"   -> Size(n, 0, 0, n, 0, 0, n, n)
    \* n features, each linked to its crate and to the next
    [] shape = "flist"  -> Size(2, n, 0, 1, 2 * n - 1, 2 * n - 1, 1, 1)
    \* n - 1 features, each but the last linked to that of the next crate
    [] shape = "fpass"  -> Size(n, n - 1, n - 2, n - 1, 2 * n - 3, 2 * n - 3, n - 1, 1)
    [] shape = "fopt"   -> Size(n, n - 1, n - 2, n - 1, 3 * n - 5, 3 * n - 5, n - 1, 1)
    \* the link of a weak item may be missing (known finding weak-link)
    [] shape = "fweak"  -> Size(n, n - 1, n - 2, n - 1, 2 * n - 3, 3 * n - 5, n - 1, 1)
    [] shape = "fcross" -> Size(n, 2 * (n - 1), 2 * (n - 2), n, 2 * (n - 1) + 4 * (n - 2), 2 * (n - 1) + 4 * (n - 2), n - 1, 1)
    [] shape = "fdense" -> Size(2, n, 0, 1, n + Triangle(n), n + Triangle(n), 1, 1)
    [] shape = "fan"    -> Size(n, 0, 0, n - 1, 0, 0, n - 1, n - 1)
    [] shape = "froot"  -> Size(n, 2 * (n - 1), n - 1, n - 1, 4 * (n - 1), 4 * (n - 1), n - 1, 1)
    \* n edges between the same two crates
    [] shape = "multi"  -> Size(2, n, 0, n, n, n, 1, 1)
    [] shape = "wwide"  -> Size(2, n + 1, n, 1, n + 2, 2 * n + 2, 1, 1)

\* declared dependencies that are mapped to a crate
MapSize(shape, n) == IF shape = "multi" THEN n ELSE Big(shape, n).dd

\* the same, counted
SizeOf(W, C, s) ==
  LET its == FeatureItems(W, s)
      sure == OwnLinks(s) \cup UNION {MustLinks(W, s, i[1], i[2], i[3]) : i \in {i \in its : i[3].k # "weak"}}
      all == OwnLinks(s) \cup UNION {MustLinks(W, s, i[1], i[2], i[3]) : i \in its}
      left(kd) == Cardinality(ReachWithout(W, s, kd, Range(W.members) \cap s.K))
  IN [k |-> Cardinality(s.K), f |-> Cardinality(FeatureNodes(s)), q |-> Cardinality(s.Q), dep |-> Cardinality(GraphDeps(W, s)),
      lo |-> Cardinality(sure), hi |-> Cardinality(all), dd |-> Cardinality({<<pi[1], DepTarget(W, pi)>> : pi \in s.L}),
      kf |-> [normal |-> left("normal"), build |-> left("build"), dev |-> left("dev")]]
=============================================================================
