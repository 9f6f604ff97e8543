-------------------------------- MODULE GenText --------------------------------
EXTENDS TextForms, Json, TLC
Cfgs == {"", "cfg(windows)", "cfg(all(unix, target_env = \"musl\"))", "x86_64-pc-windows-msvc"}
Words == {"a", "default", "b-c_1", "x.y", ""}
Triples == {"x86_64-unknown-linux-gnu", "wasm32-unknown-unknown", "aarch64-apple-darwin", "my-own.json", "none"}
Src(k, u, r, v) == [kind |-> k, url |-> u, ref |-> r, val |-> v, commit |-> IF k = "git" THEN "0123abc" ELSE ""]
CratesIo2 == "https://github.com/rust-lang/crates.io-index"
Sources == {Src("registry", "https://github.com/rust-lang/crates.io-index", "", ""), Src("registry", "https://my.reg/a", "", ""),
            Src("registry", CratesIo2 \o "-mirror", "", ""), Src("registry", "https://github.com/rust-lang/crates.io-inde", "", ""), Src("sparse", CratesIo2, "", ""), Src("git", CratesIo2, "", ""),
            Src("sparse", "https://my.reg/idx/", "", ""), Src("path", "file:///w/a", "", ""), Src("git", "https://g.h/o/a", "", ""),
            Src("git", "https://g.h/o/a", "branch", "feat/x")}
Pkgs == {[name |-> n, ver |-> v, kind |-> s.kind, url |-> s.url, ref |-> s.ref, val |-> s.val, commit |-> s.commit] :
         n \in {"a", "b-c"}, v \in {"1.0.0", "0.1.0-rc.1+b2"}, s \in Sources}
\* the text an id keeps: with its reference decoded
Kept2(p, f) == IF f = "stable" THEN Source(p) \o "#" \o (IF LastSegment(p.url) = p.name THEN p.ver ELSE p.name \o "@" \o p.ver) ELSE Render(p, f)
Nat3 == {"x", "two words", "line\nbreak"}

Things == {[sort |-> "depkind", v |-> k] : k \in Kinds} \cup {[sort |-> "mdkind", v |-> k] : k \in Kinds}
          \cup {[sort |-> "edge", variant |-> v, kind |-> k, cfg |-> c] : v \in {"dep", "depfeature", "feature"}, k \in Kinds, c \in Cfgs}
          \cup {[sort |-> "crate", v |-> w, id |-> Kept2(p, f), repr |-> Render(p, f)] : w \in Words, p \in {q \in Pkgs : q.name = "a"}, f \in {"stable", "opaque"}}
          \cup {[sort |-> "feature", v |-> w] : w \in Words}
          \cup {[sort |-> "target", v |-> t] : t \in Triples}
          \cup {[sort |-> s, v |-> w] : s \in {"packageid", "source"}, w \in {CratesIo, "a 1.0.0 (path+file:///a)", ""}}
          \cup {[sort |-> "kid", p |-> p, repr |-> Render(p, f), v |-> Kept2(p, f)] : p \in Pkgs, f \in {"stable", "opaque"}}
          \cup {[sort |-> "edition", v |-> w] : w \in Editions \cup {"2022", ""}}
          \cup {[sort |-> "targetkind", v |-> w] : w \in TargetKinds \cup {"Lib", "custom_build", ""}}
          \cup {[sort |-> "cratetype", v |-> w] : w \in CrateTypes \cup {"example", "cdy-lib", ""}}
          \cup {[sort |-> "error", v |-> e, about |-> a] : e \in DOMAIN Causes, a \in Nat3}

VARIABLES x, ph
Init == x \in Things /\ ph = 0
Emit == ph = 0 /\ ph' = 1 /\ UNCHANGED x /\ PrintT("@CASE@" \o ToJson([x |-> x]))
Spec == Init /\ [][Emit]_<<x, ph>>
\* edges that differ in kind or target are told apart
Told == x.sort = "edge" /\ x.variant # "feature" =>
          \A y \in Things : y.sort = "edge" /\ y.variant = x.variant /\ EdgeText(y) = EdgeText(x) => y = x
=============================================================================
