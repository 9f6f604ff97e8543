--------------------------------- MODULE PkgId ---------------------------------
(***************************************************************************)
(* Package ids as cargo prints them.  A package p is a name, a version and *)
(* a source (kind of the source, its url, for git the reference asked for  *)
(* and the commit it was resolved to).  There are two forms of the id:     *)
(* the opaque one of cargo before 1.77 and the stable one, a url.          *)
(***************************************************************************)
EXTENDS Text, Integers

Scheme == [registry |-> "registry+", sparse |-> "sparse+", path |-> "path+", git |-> "git+"]

\* what the reader is told: no commit, nothing encoded
Source(p) == Scheme[p.kind] \o p.url \o (IF p.ref = "" THEN "" ELSE "?" \o p.ref \o "=" \o p.val)

Hex == "0123456789ABCDEF"
LowHex == "0123456789abcdef"
HexOf(h, n) == Ch(h, 1 + (n \div 16)) \o Ch(h, 1 + (n % 16))
\* url query encoding, as cargo does it for references in the stable form
Kept == CharsOf(Lower) \cup CharsOf(Upper) \cup CharsOf(Digits) \cup {"*", "-", ".", "_"}
\* the bytes of the UTF-8 encoding of a character
Bytes(c) == CASE c = "ß" -> <<195, 159>> [] c = "é" -> <<195, 169>> [] c = "ö" -> <<195, 182>> [] c = "ü" -> <<195, 188>>
              [] c = "λ" -> <<206, 187>> [] c = "日" -> <<230, 151, 165>> [] OTHER -> <<Code[c] + 31>>
RECURSIVE Escapes(_, _)
Escapes(h, bs) == IF bs = <<>> THEN "" ELSE "%" \o HexOf(h, bs[1]) \o Escapes(h, Tail(bs))
Enc(h, c) == IF c \in Kept THEN c ELSE Escapes(h, Bytes(c))
RECURSIVE Encode(_, _)
Encode(h, s) == IF s = "" THEN "" ELSE Enc(h, Ch(s, 1)) \o Encode(h, From(s, 2))

LastSegment(u) == From(u, Last(u, "/") + 1)

Stable(h, p) ==
  Scheme[p.kind] \o p.url
  \o (IF p.ref = "" THEN "" ELSE "?" \o p.ref \o "=" \o Encode(h, p.val))
  \o "#" \o (IF LastSegment(p.url) = p.name THEN p.ver ELSE p.name \o "@" \o p.ver)

Opaque(p) ==
  p.name \o " " \o p.ver \o " (" \o Source(p) \o (IF p.kind = "git" THEN "#" \o p.commit ELSE "") \o ")"

Forms == {"stable", "lower", "opaque"}
Render(p, form) == CASE form = "stable" -> Stable(Hex, p)
                     [] form = "lower"  -> Stable(LowHex, p)
                     [] form = "opaque" -> Opaque(p)

\* by name, then version, then source
Cmp(p, q) ==
  LET n == Lexi(p.name, q.name)
      v == Lexi(p.ver, q.ver)
  IN IF n # 0 THEN n ELSE IF v # 0 THEN v ELSE Lexi(Source(p), Source(q))
=============================================================================
