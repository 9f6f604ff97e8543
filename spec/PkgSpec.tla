-------------------------------- MODULE PkgSpec --------------------------------
(***************************************************************************)
(* Package specifications, as `cargo pkgid` documents them, and what they  *)
(* match.  A spec s is a style, a name, a version and a url; Write gives   *)
(* its text.  The url of a schemeless style has no scheme.                 *)
(***************************************************************************)
EXTENDS Semver

Styles == {"name", "name:ver", "name@ver", "url", "url#ver", "url#name", "url#name:ver", "url#name@ver"}

Write(s) ==
  CASE s.style = "name"         -> s.name
    [] s.style = "name:ver"     -> s.name \o ":" \o s.ver
    [] s.style = "name@ver"     -> s.name \o "@" \o s.ver
    [] s.style = "url"          -> s.url
    [] s.style = "url#ver"      -> s.url \o "#" \o s.ver
    [] s.style = "url#name"     -> s.url \o "#" \o s.name
    [] s.style = "url#name:ver" -> s.url \o "#" \o s.name \o ":" \o s.ver
    [] s.style = "url#name@ver" -> s.url \o "#" \o s.name \o "@" \o s.ver

HasUrl(s) == s.style \in {"url", "url#ver", "url#name", "url#name:ver", "url#name@ver"}
HasVer(s) == s.style \in {"name:ver", "name@ver", "url#ver", "url#name:ver", "url#name@ver"}
NameFromUrl(s) == s.style \in {"url", "url#ver"}

LastSegment(u) == IF Contains(u, "/") THEN From(u, Last(u, "/") + 1) ELSE u
FullUrl(s) == IF Contains(s.url, "://") THEN s.url ELSE "cargo://" \o s.url
TheName(s) == IF NameFromUrl(s) THEN LastSegment(s.url) ELSE s.name

NameChars == CharsOf(Lower) \cup CharsOf(Upper) \cup CharsOf(Beyond) \cup CharsOf(Digits) \cup {"-", "_"}

\* why a spec is refused
UrlOk(s) == LET u == FullUrl(s)
                rest == From(u, First(u, "://") + 3)
            IN ~EndsWith(u, "/") /\ Contains(rest, "/")
Refused(s) ==
  \/ ~AllIn(TheName(s), NameChars)
  \/ HasVer(s) /\ ~IsVersion(s.ver)
  \/ HasUrl(s) /\ ~UrlOk(s)
  \/ s.style # "url" /\ Contains(s.url, "#") \* the rest after the first # is no name and no version

\* a style is only meant if it can be told apart from the others
Meant(s) ==
  /\ TheName(s) # "" \/ HasUrl(s)
  /\ HasUrl(s) = Contains(s.url, "/")
  /\ s.style = "url" => ~Contains(s.url, "#") \* otherwise it reads as url#name
  /\ ~NameFromUrl(s) => s.name # "" /\ ~Contains(s.name, "/") /\ ~Contains(s.name, ":") /\ ~Contains(s.name, "@")
  /\ s.style = "url#name" => IsAlpha(Ch(s.name, 1)) \* otherwise it reads as a version
  /\ s.style = "url#ver" => ~Contains(s.ver, ":") /\ ~Contains(s.ver, "@") /\ (s.ver # "" => ~IsAlpha(Ch(s.ver, 1)))
  /\ ~HasUrl(s) => ~Contains(s.ver, "/")

Parsed(s) ==
  IF Refused(s) THEN [ok |-> FALSE, name |-> "", hasver |-> FALSE, ver |-> "", hasurl |-> FALSE, url |-> ""]
  ELSE [ok |-> TRUE, name |-> TheName(s), hasver |-> HasVer(s), ver |-> IF HasVer(s) THEN s.ver ELSE "",
        hasurl |-> HasUrl(s), url |-> IF HasUrl(s) THEN FullUrl(s) ELSE ""]

(***************************************************************************)
(* Matching: p is a package, with the source as cargo prints it            *)
(* (scheme + url ? reference # commit; no source for path dependencies)    *)
(***************************************************************************)
SourceText(p) == p.scheme \o "+" \o p.url \o (IF p.query = "" THEN "" ELSE "?" \o p.query) \o (IF p.frag = "" THEN "" ELSE "#" \o p.frag)
Matches(s, p) ==
  /\ ~Refused(s)
  /\ TheName(s) = p.name
  /\ HasVer(s) => s.ver = p.ver
  /\ HasUrl(s) /\ p.scheme # "" => FullUrl(s) = p.url
=============================================================================
