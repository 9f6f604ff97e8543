----------------------------- MODULE GenPkgSpec -----------------------------
(* All specs of a small universe, wellformed and malformed, in every style.  Checked: a spec that is written and  *)
(* accepted gives back what was written; different specs that mean the same are accepted alike.                    *)
EXTENDS PkgSpec, Json, TLC

Names == {"a", "ab", "a-b", "A_9", "a.b", "a b", "9a", "_x", "a+b", "a#b", "#", "é", "größe", "a日.b"}
Vers == {"1.0.0", "0.10.2", "1.0.0-rc.1", "1.0.0+b.01", "2.3.4-0a.x-y+b-1", "", "1.0", "1", "01.0.0", "1.0.0-01", "1.0.0-", "x.0.0", "1.0.0 "}
Urls == {"https://g.h/o/a", "https://g.h/o/a-b", "ssh://git@g.h:22/o/ab", "https://g.h/o/a.git", "g.h/o/a", "file:///w/a",
         "https://g.h/o/a/", "https://a", "https://a/", "g.h/", "https://g.h/o/a?branch", "http://g.h/x:y/a", "https://g.h/o#1/a", "https://g.h/a#b", "g.h/a#b", "https://g.h/a?x#y/a", "a#b/a", "https://g.h/o/größe", "g.h/é/ü"}
S(st, n, v, u) == [style |-> st, name |-> n, ver |-> v, url |-> u]
Specs ==
  {S("name", n, "", "") : n \in Names} \cup {S(st, n, v, "") : st \in {"name:ver", "name@ver"}, n \in Names, v \in Vers}
  \cup {S("url", "", "", u) : u \in Urls} \cup {S("url#ver", "", v, u) : v \in Vers, u \in Urls}
  \cup {S("url#name", n, "", u) : n \in Names, u \in Urls}
  \cup {S(st, n, v, u) : st \in {"url#name:ver", "url#name@ver"}, n \in {"a", "a-b", "a.b", "9a", "ß_b"}, v \in {"1.0.0", "1.0.0-rc.1", "", "1.0"}, u \in Urls}

\* an empty version after # is an empty fragment; it is refused either way
VARIABLES s, ph
Init == s \in {x \in Specs : Meant(x)} /\ ph = 0
Emit == ph = 0 /\ ph' = 1 /\ UNCHANGED s /\ PrintT("@CASE@" \o ToJson([what |-> "parse", s |-> s, text |-> Write(s)]))
Spec == Init /\ [][Emit]_<<s, ph>>

GivesBack == ph = 1 /\ Parsed(s).ok =>
  /\ Parsed(s).name = TheName(s) /\ Contains(Write(s), Parsed(s).name)
  /\ Parsed(s).hasver => EndsWith(Write(s), Parsed(s).ver)
  /\ Parsed(s).hasurl => EndsWith(Parsed(s).url, s.url)
=============================================================================
