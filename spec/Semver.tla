-------------------------------- MODULE Semver --------------------------------
(* Semantic versions, and the bare ones of rust-version. *)
EXTENDS Text

IsNum(t) == t # "" /\ AllIn(t, CharsOf(Digits))
NoLead(t) == IsNum(t) /\ (Len(t) > 1 => Ch(t, 1) # "0")
IdentChars == CharsOf(Lower) \cup CharsOf(Upper) \cup CharsOf(Digits) \cup {"-"}
IsIdent(t) == t # "" /\ AllIn(t, IdentChars)
Idents(t, pre) == \A i \in DOMAIN Split(t, ".") :
                    LET x == Split(t, ".")[i] IN IsIdent(x) /\ (pre /\ IsNum(x) => NoLead(x))
IsCore(t) == LET c == Split(t, ".") IN Len(c) = 3 /\ \A i \in 1..3 : NoLead(c[i])
IsVersion(t) ==
  LET b == IF Contains(t, "+") THEN SubSeq(t, 1, First(t, "+") - 1) ELSE t
      c == IF Contains(b, "-") THEN SubSeq(b, 1, First(b, "-") - 1) ELSE b
  IN /\ IsCore(c)
     /\ Contains(b, "-") => Idents(From(b, First(b, "-") + 1), TRUE)
     /\ Contains(t, "+") => Idents(From(t, First(t, "+") + 1), FALSE)

\* one to three components, no operators, pre-release or build metadata
IsBare(t) == LET c == Split(t, ".") IN Len(c) \in 1..3 /\ \A i \in DOMAIN c : NoLead(c[i])
=============================================================================
