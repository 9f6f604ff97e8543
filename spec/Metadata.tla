------------------------------- MODULE Metadata -------------------------------
(***************************************************************************)
(* The output of `cargo metadata`, and what has to be read from it.        *)
(* A document is a value with a tag:  [t |-> "s", v |-> string], "b"       *)
(* (boolean), "n" (number, as text), "z" (null), "l" (list, v a sequence), *)
(* "o" (object, v a function from keys to values) and "any" (free form,    *)
(* v its canonical text).  View gives what a reader has to report of it,   *)
(* or says that the document is refused.                                   *)
(***************************************************************************)
EXTENDS Semver

Range(s) == {s[i] : i \in DOMAIN s}
None == <<"none">>
Some(x) == <<"some", x>>

Has(o, k) == k \in DOMAIN o.v
Null(o, k) == Has(o, k) /\ o.v[k].t = "z"
Given(o, k) == Has(o, k) /\ o.v[k].t # "z"

\* fields that have to be there (and may not be null), fields that may be missing, and fields that may be null
Required ==
  [Metadata   |-> {"packages", "workspace_members", "workspace_root", "target_directory"},
   Resolve    |-> {"nodes"},
   Node       |-> {"id", "dependencies"},
   NodeDep    |-> {"name", "pkg"},
   DepKind    |-> {},
   Package    |-> {"name", "version", "id", "dependencies", "targets", "features", "manifest_path"},
   Dependency |-> {"name", "req", "optional", "uses_default_features", "features"},
   Target     |-> {"name", "kind", "src_path"}]

Nullable ==
  [Metadata   |-> {"resolve", "metadata"},
   Resolve    |-> {},
   Node       |-> {},
   NodeDep    |-> {},
   DepKind    |-> {"kind", "target"},
   Package    |-> {"source", "description", "license", "license_file", "readme", "repository", "homepage", "documentation",
                   "metadata", "links", "publish", "default_run", "rust_version"},
   Dependency |-> {"source", "kind", "target", "rename", "registry", "path"},
   Target     |-> {}]

\* may be missing, are never null
Optional ==
  [Metadata   |-> {"version", "workspace_default_members"},
   Resolve    |-> {},
   Node       |-> {"deps", "features"},
   NodeDep    |-> {"dep_kinds"},
   DepKind    |-> {},
   Package    |-> {"authors", "categories", "keywords", "edition"},
   Dependency |-> {},
   Target     |-> {"crate_types", "required-features", "edition", "doctest", "test", "doc"}]

\* always there, may be null
Always == [Resolve |-> {"root"}]

Kinds == {"Metadata", "Resolve", "Node", "NodeDep", "DepKind", "Package", "Dependency", "Target"}

Missing(kind, o) == \E k \in Required[kind] : ~Has(o, k)

Strs(l) == [i \in DOMAIN l.v |-> l.v[i].v]
OptStr(o, k) == IF Given(o, k) THEN Some(o.v[k].v) ELSE None
StrList(o, k) == IF Given(o, k) THEN Strs(o.v[k]) ELSE <<>>
StrOr(o, k, d) == IF Given(o, k) THEN o.v[k].v ELSE d
BoolOr(o, k, d) == IF Given(o, k) THEN o.v[k].v ELSE d
Any(o, k) == IF Given(o, k) THEN o.v[k].v ELSE "null"
Objects(o, k, F(_)) == IF Given(o, k) THEN [i \in DOMAIN o.v[k].v |-> F(o.v[k].v[i])] ELSE <<>>

\* a bare version is completed
Dots(s) == Cardinality(Occurs(s, "."))
Completed(v) == CASE Dots(v) = 2 -> v [] Dots(v) = 1 -> v \o ".0" [] OTHER -> v \o ".0.0"

Dir(p) == SubSeq(p, 1, Last(p, "/") - 1)
Below(d, f) == IF StartsWith(f, "/") THEN f ELSE d \o "/" \o f

DepKindView(o) == [kind |-> StrOr(o, "kind", "normal"), target |-> OptStr(o, "target")]
NodeDepView(o) == [name |-> o.v["name"].v, pkg |-> o.v["pkg"].v, dep_kinds |-> Objects(o, "dep_kinds", DepKindView)]
NodeView(o) == [id |-> o.v["id"].v, features |-> StrList(o, "features"), dependencies |-> StrList(o, "dependencies"),
                deps |-> Objects(o, "deps", NodeDepView)]

DependencyView(o) ==
  [name |-> o.v["name"].v, source |-> OptStr(o, "source"), req |-> o.v["req"].v, kind |-> StrOr(o, "kind", "normal"),
   optional |-> o.v["optional"].v, uses_default_features |-> o.v["uses_default_features"].v, features |-> StrList(o, "features"),
   target |-> OptStr(o, "target"), rename |-> OptStr(o, "rename"), registry |-> OptStr(o, "registry"), path |-> OptStr(o, "path")]

TargetView(o) ==
  LET ks == StrList(o, "kind")
      is(k) == k \in Range(ks)
  IN [name |-> o.v["name"].v, kind |-> ks, crate_types |-> StrList(o, "crate_types"),
      required_features |-> StrList(o, "required-features"), src_path |-> o.v["src_path"].v,
      edition |-> StrOr(o, "edition", "2015"), doctest |-> BoolOr(o, "doctest", TRUE), test |-> BoolOr(o, "test", TRUE),
      doc |-> BoolOr(o, "doc", TRUE),
      is |-> <<is("lib"), is("bin"), is("example"), is("test"), is("bench"), is("custom-build"), is("proc-macro")>>]

RECURSIVE SortKeys(_)
SortKeys(S) == IF S = {} THEN <<>>
               ELSE LET m == CHOOSE x \in S : \A y \in S : Lexi(x, y) <= 0 IN <<m>> \o SortKeys(S \ {m})
MapView(o) == LET ks == SortKeys(DOMAIN o.v) IN [i \in DOMAIN ks |-> <<ks[i], Strs(o.v[ks[i]])>>]

CratesIo == "registry+https://github.com/rust-lang/crates.io-index"

PackageView(o) ==
  LET mp == o.v["manifest_path"].v IN
  [name |-> o.v["name"].v, version |-> o.v["version"].v, authors |-> StrList(o, "authors"), id |-> o.v["id"].v,
   source |-> OptStr(o, "source"), crates_io |-> Given(o, "source") /\ o.v["source"].v = CratesIo,
   description |-> OptStr(o, "description"),
   dependencies |-> Objects(o, "dependencies", DependencyView),
   license |-> OptStr(o, "license"), license_file |-> OptStr(o, "license_file"),
   targets |-> Objects(o, "targets", TargetView), features |-> MapView(o.v["features"]),
   manifest_path |-> mp, categories |-> StrList(o, "categories"), keywords |-> StrList(o, "keywords"),
   readme |-> OptStr(o, "readme"), repository |-> OptStr(o, "repository"), homepage |-> OptStr(o, "homepage"),
   documentation |-> OptStr(o, "documentation"), edition |-> StrOr(o, "edition", "2015"),
   metadata |-> Any(o, "metadata"), links |-> OptStr(o, "links"),
   publish |-> IF Given(o, "publish") THEN Some(StrList(o, "publish")) ELSE None,
   default_run |-> OptStr(o, "default_run"),
   rust_version |-> IF Given(o, "rust_version") THEN Some(Completed(o.v["rust_version"].v)) ELSE None,
   abs_license |-> IF Given(o, "license_file") THEN Some(Below(Dir(mp), o.v["license_file"].v)) ELSE None,
   abs_readme |-> IF Given(o, "readme") THEN Some(Below(Dir(mp), o.v["readme"].v)) ELSE None]

Ids(o) == [i \in DOMAIN o.v["packages"].v |-> o.v["packages"].v[i].v["id"].v]
Paths(o) == [i \in DOMAIN o.v["packages"].v |-> o.v["packages"].v[i].v["manifest_path"].v]
FirstAt(s, x) == CHOOSE i \in DOMAIN s : s[i] = x /\ \A j \in DOMAIN s : s[j] = x => i <= j

\* the root package: cargo's answer if there is one, otherwise the package whose manifest is in the workspace root
RootPackage(o) ==
  LET ids == Ids(o) mp == o.v["workspace_root"].v \o "/Cargo.toml" IN
  IF Given(o, "resolve")
  THEN LET r == OptStr(o.v["resolve"], "root") IN IF r # None /\ r[2] \in Range(ids) THEN r[2] ELSE ""
  ELSE IF mp \in Range(Paths(o)) THEN ids[FirstAt(Paths(o), mp)] ELSE ""

View(o) ==
  [packages |-> Objects(o, "packages", PackageView),
   workspace_members |-> StrList(o, "workspace_members"),
   workspace_default_members |-> IF Given(o, "workspace_default_members") THEN Some(StrList(o, "workspace_default_members")) ELSE None,
   resolve |-> IF Given(o, "resolve")
               THEN Some([root |-> OptStr(o.v["resolve"], "root"), nodes |-> Objects(o.v["resolve"], "nodes", NodeView)]) ELSE None,
   workspace_root |-> o.v["workspace_root"].v, target_directory |-> o.v["target_directory"].v,
   metadata |-> Any(o, "metadata"), version |-> StrOr(o, "version", "0"),
   root_package |-> RootPackage(o),
   indexed |-> [i \in DOMAIN Ids(o) |-> FirstAt(Ids(o), Ids(o)[i])],
   workspace_packages |-> SelectSeq(Ids(o), LAMBDA i : i \in Range(StrList(o, "workspace_members"))),
   default_packages |-> SelectSeq(Ids(o), LAMBDA i : i \in Range(StrList(o, "workspace_default_members")))]

\* the text of a field is not what the manifest format says
Malformed(kind, o) ==
  CASE kind = "Package" -> \/ Given(o, "version") /\ ~IsVersion(o.v["version"].v)
                           \/ Given(o, "rust_version") /\ ~IsBare(o.v["rust_version"].v)
    [] OTHER -> FALSE

\* the document is refused
RECURSIVE Lacks(_, _)
Lacks(kind, o) ==
  LET sub(k, kd) == Given(o, k) /\ \E i \in DOMAIN o.v[k].v : Lacks(kd, o.v[k].v[i])
  IN \/ Missing(kind, o)
     \/ Malformed(kind, o)
     \/ CASE kind = "Metadata" -> sub("packages", "Package") \/ (Given(o, "resolve") /\ Lacks("Resolve", o.v["resolve"]))
          [] kind = "Package"  -> sub("dependencies", "Dependency") \/ sub("targets", "Target")
          [] kind = "Resolve"  -> sub("nodes", "Node")
          [] kind = "Node"     -> sub("deps", "NodeDep")
          [] kind = "NodeDep"  -> sub("dep_kinds", "DepKind")
          [] OTHER             -> FALSE
=============================================================================
