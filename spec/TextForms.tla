------------------------------- MODULE TextForms -------------------------------
(***************************************************************************)
(* What is printed for the parts of a graph and of the metadata.  A thing  *)
(* x has a sort; Display and Debug give its texts, Source says whether an  *)
(* error names another one as its cause.                                   *)
(***************************************************************************)
EXTENDS PkgId

Kinds == {"normal", "build", "dev"}
Editions == {"2015", "2018", "2021", "2024"}
TargetKinds == {"example", "test", "bench", "custom-build", "bin", "lib", "rlib", "dylib", "cdylib", "staticlib", "proc-macro"}
CrateTypes == {"bin", "lib", "rlib", "dylib", "cdylib", "staticlib", "proc-macro"}
CratesIo == "registry+https://github.com/rust-lang/crates.io-index"

KindText(k) == IF k = "normal" THEN "" ELSE k
\* a kind in parentheses unless it is the normal one, then what the dependency is limited to, in quotes
EdgeText(e) ==
  IF e.variant = "feature" THEN ""
  ELSE (IF e.kind = "normal" THEN "" ELSE "(" \o e.kind \o ")") \o (IF e.cfg = "" THEN "" ELSE " '" \o e.cfg \o "'")

Display(x) ==
  CASE x.sort = "depkind"   -> KindText(x.v)
    [] x.sort = "mdkind"    -> x.v
    [] x.sort = "edge"      -> EdgeText(x)
    [] x.sort = "crate"     -> "crate " \o x.v
    [] x.sort = "feature"   -> "feature " \o x.v
    [] x.sort \in {"target", "packageid", "source", "kid"} -> x.v
    [] x.sort = "edition"   -> x.v
    [] OTHER                -> ""

\* the caller's type is printed as <v> by the harness
Debug(x) ==
  CASE x.sort = "crate"   -> "crate " \o x.id \o " <" \o x.v \o ">"
    [] x.sort = "feature" -> "feature " \o x.v
    [] x.sort = "kid"     -> "Kid { name: \"" \o x.p.name \o "\", version: \"" \o x.p.ver \o "\""
                             \o (IF Source(x.p) = CratesIo THEN "" ELSE ", source: \"" \o Source(x.p) \o "\"") \o " }"
    [] OTHER              -> ""
HasDebug(x) == x.sort \in {"crate", "feature", "kid"}

\* read back with from_str
Reads == {"edition", "targetkind", "cratetype"}
Known(x) == CASE x.sort = "edition" -> x.v \in Editions [] x.sort = "targetkind" -> x.v \in TargetKinds [] OTHER -> x.v \in CrateTypes

(***************************************************************************)
(* Errors end with what they are about; those caused by another error name *)
(* it, and the text of a graph error about metadata is that of its cause.  *)
(***************************************************************************)
Causes == [NoResolveGraph |-> FALSE, NoRootKrates |-> FALSE, InvalidPkgSpec |-> FALSE,
           CargoMetadata |-> FALSE, Io |-> TRUE, Utf8 |-> TRUE, ErrUtf8 |-> TRUE, Json |-> TRUE, NoJson |-> FALSE]
OfMetadata == {"CargoMetadata", "Io", "Utf8", "ErrUtf8", "Json", "NoJson"}
=============================================================================
