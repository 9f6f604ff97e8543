------------------------------ MODULE GenPkgId ------------------------------
(* Every package of a small universe, in every form of its id; checked here: the parts and the order are what   *)
(* they should be (different parts never share an id, the order is total), printed: the cases to replay.        *)
EXTENDS PkgId, Json, TLC

Names == {"a", "ab", "a-b", "a_1", "libgit2-sys", "größe"}
Vers == {"1.0.0", "1.10.0", "1.2.0", "0.1.0-rc.1+b2"}
Src(k, u, r, v) == [kind |-> k, url |-> u, ref |-> r, val |-> v, commit |-> IF k = "git" THEN "0123abc" ELSE ""]
GitUrls == {"https://g.h/o/a", "https://g.h/o%20x/a-b.git", "ssh://git@g.h/o/ab", "https://g.h/gr%C3%B6%C3%9Fe"}
Refs == {<<"", "">>, <<"branch", "main">>, <<"branch", "feat/x%y">>, <<"tag", "v1.0@2">>, <<"rev", "0123abc">>, <<"branch", "a?b#c/d">>, <<"tag", "λ/日-ü">>}
Sources == {Src("registry", "https://github.com/rust-lang/crates.io-index", "", ""),
            Src("registry", "https://my.reg/a", "", ""),
            Src("sparse", "https://my.reg/idx/", "", ""),
            Src("path", "file:///w/a", "", ""), Src("path", "file:///w/my%20dir/x@y/ab", "", "")}
           \cup {Src("git", u, r[1], r[2]) : u \in GitUrls, r \in Refs}
P(n, v, s) == [name |-> n, ver |-> v, kind |-> s.kind, url |-> s.url, ref |-> s.ref, val |-> s.val, commit |-> s.commit]
Main == {P(n, v, s) : n \in Names, v \in Vers, s \in Sources}
\* every character known here in a reference
Chars == {P("a", "1.0.0", Src("git", u, "branch", "x" \o Ch(AllChars, i) \o y)) : u \in {"https://g.h/o/a", "https://g.h/o/z"},
                                                                              i \in 2..Len(AllChars), y \in {"", "%"}}

VARIABLES p, form, ph
Init == p \in Main \cup Chars /\ form \in Forms /\ ph = 0
Emit == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED <<p, form>>
        /\ PrintT("@CASE@" \o ToJson([what |-> "parse", p |-> p, form |-> form, repr |-> Render(p, form)]))
Spec == Init /\ [][Emit]_<<p, form, ph>>

\* what distinguishes packages also distinguishes their ids
Ends == ph = 1 => /\ EndsWith(Render(p, "stable"), p.ver)
                     /\ StartsWith(Render(p, "stable"), Scheme[p.kind] \o p.url)
Small == {q \in Main : q.name \in {"a", "a-b"} /\ q.ver = "1.0.0"}
Injective == ph = 1 => \A q \in Small : (Render(q, form) = Render(p, form) /\ form # "opaque") => Cmp(p, q) = 0
Antisymmetric == ph = 1 => \A q \in Small : Cmp(p, q) = 0 - Cmp(q, p)
=============================================================================
