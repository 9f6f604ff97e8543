------------------------------ MODULE IndexMerge ------------------------------
(***************************************************************************)
(* Features according to the crates.io index.  cargo's metadata may lack   *)
(* features of packages from crates.io; an index the caller provides       *)
(* supplies them, and never overrides what the document states.  The index *)
(* does not list the implicit features of optional dependencies of crates  *)
(* published by old versions of cargo; an item naming no feature is one.   *)
(* Feature maps are sequences of [f |-> name, items |-> texts].            *)
(***************************************************************************)
EXTENDS FeatureSyntax

CratesIo == "registry+https://github.com/rust-lang/crates.io-index"

Names(m) == {m[i].f : i \in DOMAIN m}
ItemsOf(m, f) == (m[CHOOSE i \in DOMAIN m : m[i].f = f]).items
AsFun(m) == [f \in Names(m) |-> ItemsOf(m, f)]

Both(doc, ix) == [f \in Names(doc) \cup Names(ix) |-> IF f \in Names(doc) THEN ItemsOf(doc, f) ELSE ItemsOf(ix, f)]
Mentioned(fun) == {x \in UNION {{fun[f][i] : i \in DOMAIN fun[f]} : f \in DOMAIN fun} : ReadItem(x).k = "simple"}
Implicit(fun) == LET miss == Mentioned(fun) \ DOMAIN fun
                 IN [f \in DOMAIN fun \cup miss |-> IF f \in DOMAIN fun THEN fun[f] ELSE <<"dep:" \o f>>]
Merge(doc, ix) == Implicit(Both(doc, ix))

\* p: a package [name, ver, source, feats]; index: entries [name, ver, feats]
Entry(p, index) == {i \in DOMAIN index : index[i].name = p.name /\ index[i].ver = p.ver}
Fixed(p, index) ==
  IF p.source # CratesIo \/ Entry(p, index) = {} THEN AsFun(p.feats)
  ELSE Merge(p.feats, index[CHOOSE i \in Entry(p, index) : TRUE].feats)
=============================================================================
