"""The properties that are not about building a graph.  A family has cases enumerated by TLC from the specification
(spec/Gen*.tla), further random ones made here, and a trace specification (spec/Trace*.tla) that judges what the real
code did with each.  The text the code is given is rendered here for random cases and checked by the specification."""
import collections, json, os, random, shutil, string, subprocess
import common

LOW, UP, DIG = string.ascii_lowercase, string.ascii_uppercase, string.digits
BEYOND = "ßéöüλ日"     # Text!Beyond


def gen_cases(module, d, cfg=None):
    out, g, dist = common.tlc(module, d, cfg=cfg)
    cs = [json.loads(json.loads(l)[6:]) for l in out.split("\n") if l.startswith('"@CASE@')]
    if not cs:
        raise common.ToolError("no cases from " + module)
    cs.sort(key=lambda c: json.dumps(c, sort_keys=True))
    return cs, g, dist


def word(r, alpha, lo, hi):
    return "".join(r.choice(alpha) for _ in range(r.randint(lo, hi)))


# ---------------------------------------------------------------- package ids
KEPT = LOW + UP + DIG + "*-._"


def encode(s, lower):
    return "".join(c if c in KEPT else "".join(("%%%02x" if lower else "%%%02X") % b for b in c.encode()) for c in s)


SCHEME = dict(registry="registry+", sparse="sparse+", path="path+", git="git+")


def render_id(p, form):
    src = SCHEME[p["kind"]] + p["url"]
    if form == "opaque":
        full = src + (f"?{p['ref']}={p['val']}" if p["ref"] else "")
        return f"{p['name']} {p['ver']} ({full}{'#' + p['commit'] if p['kind'] == 'git' else ''})"
    t = src + (f"?{p['ref']}={encode(p['val'], form == 'lower')}" if p["ref"] else "")
    return t + "#" + (p["ver"] if p["url"].rsplit("/", 1)[1] == p["name"] else p["name"] + "@" + p["ver"])


def rand_version(r):
    n = lambda: r.choice(["0", "1", "2", "9", "10", "11", "123"])
    v = f"{n()}.{n()}.{n()}"
    if r.random() < .3:
        v += "-" + r.choice(["rc.1", "alpha", "0", "beta.11", "a-b.c", "x.7.z"])
    if r.random() < .2:
        v += "+" + r.choice(["build.01", "5114f85", "a-b"])
    return v


def rand_pkg(r):
    name = r.choice(LOW + UP + "_") + word(r, LOW + UP + DIG + "-_", 0, 8) if r.random() < .6 else r.choice(["a", "a-b", "a_b", "ab"])
    if r.random() < .1:
        name = word(r, BEYOND + LOW + "-", 1, 4).strip("-") or "é"
    kind = r.choice(["registry", "sparse", "path", "git", "git"])
    uname = name if name.isascii() else encode(name, False)
    last = r.choice([uname, uname, uname + ".git", encode(name[:-1], False) + "z", "x"])
    seg = lambda: word(r, LOW + DIG + "-._~", 1, 6)
    if kind == "registry":
        url = r.choice(["https://github.com/rust-lang/crates.io-index", "https://" + seg() + ".x/" + last, "ssh://git@h.y:22/" + seg() + "/" + last])
    elif kind == "sparse":
        url = "https://" + seg() + "/" + r.choice(["", seg() + "/", last])
    elif kind == "path":
        url = "file:///" + "/".join(r.choice([seg(), "my%20dir", "a@b", "%23x"]) for _ in range(r.randint(0, 3)) or [0]) + "/" + last
        url = url.replace("////", "///")
    else:
        url = r.choice(["https://", "ssh://git@", "file:///", "http://"]) + seg() + "/" + r.choice([seg(), "o%20x", "~u"]) + "/" + last
    if r.random() < .15 and kind != "path":
        io = "https://github.com/rust-lang/crates.io-index"
        url = r.choice([io, io + "-mirror", io + ".git", io[:-1], io.replace("https", "http"), io + "/" + uname, "https://x.y/" + io.split("//")[1]])
    ref = val = ""
    if kind == "git" and r.random() < .75:
        ref = r.choice(["branch", "tag", "rev"])
        val = word(r, "".join(chr(c) for c in range(33, 127)) + BEYOND if r.random() < .4 else LOW + DIG + "/-._@#%", 1, 12)
    return dict(name=name, ver=rand_version(r), kind=kind, url=url, ref=ref, val=val,
                commit=word(r, "0123456789abcdef", 7, 40) if kind == "git" else "")


class KidParse:
    module, trace = "GenPkgId", "TracePkgId"
    rule = "a package id as cargo prints it; non-trivial: it has a git reference or names the package explicitly"
    mode = "parse"

    @staticmethod
    def rand(r, n):
        for _ in range(n):
            p = rand_pkg(r)
            f = r.choice(["stable", "stable", "opaque", "lower"])
            yield dict(what="parse", p=p, form=f, repr=render_id(p, f))

    @staticmethod
    def cmd(c):
        return dict(mode="kid", repr=c["repr"])

    @staticmethod
    def nontrivial(c):
        return c["p"]["ref"] != "" or "@" in c["repr"]


class KidOrder(KidParse):
    rule = "packages with several forms of their ids; non-trivial: two of them are of the same package or the same name"

    @staticmethod
    def group(cs):
        cs = [c for c in cs if c["p"]["ref"] == "" or c["form"] != "lower"]
        r = random.Random(5)
        r.shuffle(cs)
        for i in range(0, len(cs), 12):
            yield KidOrder.of(cs[i:i + 12])

    @staticmethod
    def of(cs):
        return dict(what="order", ps=[c["p"] for c in cs], forms=[c["form"] for c in cs], reprs=[c["repr"] for c in cs])

    enumerated = group

    @staticmethod
    def rand(r, n):
        for _ in range(n // 4):
            base = [rand_pkg(r) for _ in range(3)]
            cs = []
            for _ in range(10):
                p = dict(r.choice(base))
                for k in r.sample(["name", "ver", "url", "ref", "commit"], r.randint(0, 2)):
                    q = rand_pkg(r)
                    if k == "name":
                        p["name"] = r.choice([p["name"] + "-", p["name"] + "0", q["name"], "".join(c.swapcase() if c.isascii() else c for c in p["name"])])
                    elif k == "ver":
                        p["ver"] = rand_version(r)
                    elif k == "url":
                        for x in ("kind", "url", "ref", "val", "commit"):
                            p[x] = q[x]
                    elif k == "ref" and p["kind"] == "git":
                        p["ref"], p["val"] = r.choice([("", ""), ("branch", "m"), ("tag", "m"), ("branch", "m/2")])
                    elif p["kind"] == "git":
                        p["commit"] = word(r, "0123456789abcdef", 7, 7)
                f = r.choice(["stable", "opaque"])
                cs.append(dict(p=p, form=f, repr=render_id(p, f)))
            yield KidOrder.of(cs)

    @staticmethod
    def cmd(c):
        return dict(mode="kidcmp", reprs=c["reprs"])

    @staticmethod
    def nontrivial(c):
        n = [p["name"] for p in c["ps"]]
        return len(set(n)) < len(n)


# ---------------------------------------------------------------- specs
def write_spec(s):
    return dict(zip(["name", "name:ver", "name@ver", "url", "url#ver", "url#name", "url#name:ver", "url#name@ver"],
                    ["{name}", "{name}:{ver}", "{name}@{ver}", "{url}", "{url}#{ver}", "{url}#{name}", "{url}#{name}:{ver}",
                     "{url}#{name}@{ver}"]))[s["style"]].format(**s)


def rand_specparts(r, bad=.15):
    st = r.choice(["name", "name:ver", "name@ver", "url", "url#ver", "url#name", "url#name:ver", "url#name@ver"])
    name = ver = url = ""
    nm = lambda: r.choice(LOW + UP) + word(r, LOW + UP + DIG + "-_" + (BEYOND if r.random() < .2 else ""), 0, 8)
    if "name" in st:
        name = nm()
        if r.random() < bad:
            i = r.randint(1, len(name))
            name = name[:i] + r.choice("!$%&*+.,;~ ") + name[i:]
    if "ver" in st:
        ver = rand_version(r)
        if r.random() < bad:
            ver = r.choice(["1", "1.2", "01.2.3", "1.2.3.4", "1.2.3-", "1.2.3+", "1..3", "1.2.3-a..b", "1.2.x", "1.2.3-00", "1.2.3_a"])
    if st.startswith("url"):
        last = nm()
        if r.random() < bad:
            last = r.choice([last + ".git", last + "/", last + "?branch=a", last + "%20"])
        url = r.choice(["https://", "http://", "ssh://git@", "file:///", ""]) + r.choice(["github.com", "g.h:8080", "x"]) + "/" + \
            r.choice(["", "o/", "o/p/", "o.x/p-q/"]) + last
    return dict(style=st, name=name, ver=ver, url=url)


def known(s):
    return all(32 <= ord(c) < 127 or c in BEYOND for c in s)


class SpecParse:
    module, trace = "GenPkgSpec", "TracePkgSpec"
    rule = "a package specification; non-trivial: it has a version or a url"

    @staticmethod
    def rand(r, n):
        for _ in range(n):
            s = rand_specparts(r)
            if known(write_spec(s)):
                yield dict(what="parse", s=s, text=write_spec(s))

    @staticmethod
    def cmd(c):
        return dict(mode="spec", s=c["text"])

    @staticmethod
    def nontrivial(c):
        return c["s"]["style"] != "name"


def source_text(p):
    return "" if not p["scheme"] else p["scheme"] + "+" + p["url"] + ("?" + p["query"] if p["query"] else "") + ("#" + p["frag"] if p["frag"] else "")


def md_of(ps):
    pk = []
    for i, p in enumerate(ps):
        pk.append(dict(name=p["name"], version=p["ver"], id=f"path+file:///p{i}#{p['name']}@{p['ver']}", source=source_text(p) or None,
                       dependencies=[], targets=[], features={}, manifest_path=f"/p{i}/Cargo.toml"))
    return dict(packages=pk, workspace_members=[], resolve=None, workspace_root="/w", target_directory="/w/target", version=1)


class SpecMatch(SpecParse):
    rule = "specifications against packages; non-trivial: one of them matches and one does not"

    @staticmethod
    def make(r, ss, ps):
        return dict(what="match", ss=ss, texts=[write_spec(s) for s in ss], ps=ps, sources=[source_text(p) for p in ps])

    @staticmethod
    def rand_ps(r, names, urls, vers):
        out = []
        for _ in range(12):
            k = r.choice(["registry", "sparse", "git", "git", ""])
            q, f = "", ""
            if k == "git":
                q = r.choice(["", "branch=main", "rev=abc", "tag=a%2Fb", "branch=feat/x?y"])
                f = word(r, "0123456789abcdef", 8, 8)
            out.append(dict(name=r.choice(names), ver=r.choice(vers), scheme=k, url=r.choice(urls) if k else "", query=q, frag=f))
        return out

    @staticmethod
    def enumerated(cs):
        """every accepted form of spec of the enumeration against packages that differ from it in one respect"""
        r = random.Random(11)
        names = ["a", "ab", "a-b", "a_b", "A_9", "é", "größe"]
        vers = ["1.0.0", "0.10.2", "1.0.0-rc.1", "1.0.0+b.01", "1.0.1"]
        urls = ["https://g.h/o/a", "https://g.h/o/a-b", "ssh://git@g.h:22/o/ab", "cargo://g.h/o/a", "file:///w/a", "https://g.h/o", "http://g.h/o/a",
                "https://g.h/o/a/"]
        specs = [c["s"] for c in cs]
        for i in range(0, len(specs), 20):
            yield SpecMatch.make(r, specs[i:i + 20], SpecMatch.rand_ps(r, names, urls, vers) + SpecMatch.rand_ps(r, names, urls, vers))

    @staticmethod
    def rand(r, n):
        for _ in range(n // 8):
            ss = [s for s in (rand_specparts(r, .02) for _ in range(6)) if known(write_spec(s))]
            urls = [s["url"] if "://" in s["url"] else "cargo://" + s["url"] for s in ss if s["url"] and "?" not in s["url"]] or ["https://x/y"]
            urls += [u + r.choice(["/", ".git", "x"]) for u in urls] + [u[:-1] for u in urls] + [u.upper() for u in urls[:1] if u.isascii()]
            names = [s["name"] or s["url"].rsplit("/", 1)[1] for s in ss]
            names = [n for n in names if all(c in LOW + UP + DIG + BEYOND + "-_" for c in n)] + ["zz"]
            names += [names[0] + "x", names[0].replace("-", "_")]
            vers = [s["ver"] for s in ss if s["ver"].count(".") == 2 and s["ver"][-1].isalnum() and not s["ver"].startswith("0")] + ["1.2.3", "1.2.3-a"]
            vers = [v for v in vers if is_semver(v)]
            ps = SpecMatch.rand_ps(r, names, urls, vers)
            # exact counterparts of the specs, one respect apart or not at all
            for s in ss:
                p = dict(r.choice(ps))
                p["name"] = (s["name"] or s["url"].rsplit("/", 1)[1])
                if not all(c in LOW + UP + DIG + BEYOND + "-_" for c in p["name"]) or not p["name"]:
                    continue
                if s["ver"] and is_semver(s["ver"]):
                    p["ver"] = s["ver"] if r.random() < .7 else s["ver"].split("+")[0].split("-")[0]
                if s["url"] and p["scheme"] and "?" not in s["url"]:      # a package's url has no query in it
                    p["url"] = s["url"] if "://" in s["url"] else "cargo://" + s["url"]
                ps.append(p)
            yield SpecMatch.make(r, ss, ps)

    @staticmethod
    def cmd(c):
        return dict(mode="specmatch", md=md_of(c["ps"]), specs=c["texts"])

    @staticmethod
    def nontrivial(c):
        m = {x for g in c["o"].get("got", []) for x in g["m"]}
        return len(m) == 2


def is_semver(v):
    import re
    n = r"(0|[1-9]\d*)"
    i = r"(0|[1-9]\d*|\d*[a-zA-Z-][0-9a-zA-Z-]*)"
    return re.fullmatch(rf"{n}\.{n}\.{n}(-{i}(\.{i})*)?(\+[0-9a-zA-Z-]+(\.[0-9a-zA-Z-]+)*)?", v) is not None


# ---------------------------------------------------------------- feature syntax
class FeatureItem:
    module, trace = "GenFeature", "TraceFeature"
    rule = "an item of a feature; non-trivial: it names a dependency"

    @staticmethod
    def rand(r, n):
        crate = LOW + UP + DIG + "-_" + BEYOND
        for _ in range(n):
            k = r.choice(["simple", "dep", "weak", "strong"])
            f = word(r, crate + "+.", 1, 9)
            x = dict(k=k, a=f if k == "simple" else word(r, crate, 1, 9), b=f if k in ("weak", "strong") else "")
            t = dict(simple="{a}", dep="dep:{a}", weak="{a}?/{b}", strong="{a}/{b}")[k].format(**x)
            yield dict(x=x, text=t)

    @staticmethod
    def cmd(c):
        return dict(mode="feature", s=c["text"])

    @staticmethod
    def nontrivial(c):
        return c["x"]["k"] != "simple"


# ---------------------------------------------------------------- features from the index
CRATES_IO = "registry+https://github.com/rust-lang/crates.io-index"
OTHER_SOURCES = [None, "sparse+https://index.crates.io/", "registry+https://reg/rust-lang/crates.io-index", "git+https://github.com/rust-lang/crates.io-index#abc"]


class IndexMerge:
    module, trace = "GenIndex", "TraceIndex"
    rule = "a document and an index; non-trivial: the index has features the document lacks"

    @staticmethod
    def enumerated(cs):
        for i in range(0, len(cs), 25):
            part = cs[i:i + 25]
            yield dict(ps=[dict(name="ab"[j % 2], ver=f"1.{j}.0", source=CRATES_IO, feats=c["doc"]) for j, c in enumerate(part)],
                       index=[dict(name="ab"[j % 2], ver=f"1.{j}.0", feats=c["ix"]) for j, c in enumerate(part)])

    @staticmethod
    def rand(r, n):
        fn = ["a", "b", "c", "default", "d-e", "x_y", "c++"]
        item = lambda: r.choice(["{}", "{}", "dep:{}", "z/{}", "q?/{}"]).format(r.choice(fn))
        fm = lambda: [dict(f=f, items=[item() for _ in range(r.randint(0, 3))]) for f in sorted(r.sample(fn, r.randint(0, 5)))]
        for _ in range(n // 3):
            ps, index, seen = [], [], set()
            for _ in range(r.randint(1, 8)):
                p = dict(name=r.choice(["k", "k-2", "l"]), ver=rand_version(r) if r.random() < .3 else r.choice(["1.0.0", "1.0.1", "1.0.0-a", "1.0.0+b"]),
                         source=r.choice([CRATES_IO] * 4 + OTHER_SOURCES), feats=fm())
                if (p["name"], p["ver"], p["source"]) in seen:
                    continue
                seen.add((p["name"], p["ver"], p["source"]))
                ps.append(p)
            for nv in sorted({(p["name"], p["ver"]) for p in ps} | {("k", "9.0.0"), ("other", "1.0.0")}):
                if r.random() < .75:
                    full = fm()
                    for p in ps:
                        if (p["name"], p["ver"]) == nv and r.random() < .5:
                            have = {e["f"] for e in full}
                            full = sorted(full + [e for e in p["feats"] if e["f"] not in have], key=lambda e: e["f"])
                            p["feats"] = [e for e in p["feats"] if r.random() < .5]
                    index.append(dict(name=nv[0], ver=nv[1], feats=full))
            r.shuffle(index)
            yield dict(ps=ps, index=index)

    @staticmethod
    def cmd(c):
        md = md_of([dict(name="zz-root", ver="1.0.0", scheme="")])
        root = md["packages"][0]
        root["id"] = "path+file:///w#zz-root@1.0.0"
        for i, p in enumerate(c["ps"]):
            md["packages"].append(dict(root, name=p["name"], version=p["ver"], id=f"path+file:///p{i}#{p['name']}@{p['ver']}", source=p["source"],
                                       features={e["f"]: e["items"] for e in p["feats"]}))
        md["workspace_members"] = [root["id"]]
        md["packages"] = md["packages"][1:] + md["packages"][:1]
        md["resolve"] = dict(root=None, nodes=[dict(id=p["id"], dependencies=[], deps=[], features=[]) for p in md["packages"]])
        data = {"unknown": None}
        for e in c["index"]:
            data.setdefault(e["name"], []).append(dict(version=e["ver"], features={x["f"]: x["items"] for x in e["feats"]}))
        return dict(mode="index", md=md, data=data)

    @staticmethod
    def nontrivial(c):
        ix = {(e["name"], e["ver"]): {x["f"] for x in e["feats"]} for e in c["index"]}
        return any(ix.get((p["name"], p["ver"]), set()) - {x["f"] for x in p["feats"]} for p in c["ps"])

    @staticmethod
    def strip(c):
        o = dict(c["o"])
        root = dict(name="zz-root", ver="1.0.0", source="", feats=[])
        return dict(id=c["id"], ps=[dict(p, source=p["source"] or "") for p in c["ps"]] + [root], index=c["index"], o=dict(dict(feats=[], req=[], times=[]), **o))


# ---------------------------------------------------------------- command line
def harness_call(c):
    """the shape the harness wants"""
    c = dict(c)
    if "l" in c:
        c["v"] = c.pop("l")
    return c


class CmdLine:
    module, trace = "GenCmd", "TraceCmd"
    rule = "a sequence of calls on a command builder; non-trivial: at least two different calls"
    envs = ["", "/env/cargo"]

    @staticmethod
    def rand(r, n):
        path = lambda: r.choice(["/", "", "./", "../"]) + "/".join(word(r, LOW + "._- ", 1, 5).strip(" ") + "x" for _ in range(r.randint(1, 3)))
        feat = lambda: r.choice(["", "d/", "d-e/"]) + word(r, LOW + "-_+", 1, 4)
        b = lambda: r.random() < .5
        for _ in range(n):
            api = r.choice(["cmd", "cmd", "mdc"])
            calls = []
            for _ in range(r.randint(1, 9)):
                k = r.choice(["cargo_path", "manifest_path", "current_dir", "other_options"] +
                             (["no_default_features", "all_features", "features", "features", "lock_opts"] if api == "cmd" else ["no_deps", "env", "env"]))
                c = dict(c=k)
                if k == "cargo_path":
                    c["v"] = path()
                elif k == "manifest_path":
                    c["v"] = r.choice(["", path() + "/"]) + "Cargo.toml"
                elif k == "current_dir":
                    c["v"] = path() if r.random() < .8 or api == "mdc" else ""
                elif k == "other_options":
                    c["l"] = [r.choice(["--filter-platform", "x86_64-pc-windows-msvc", "-v", "--frozen", "--features", "a b", "-Zx", "--", "--no-deps", "metadata"])
                              for _ in range(r.randint(0, 3))]
                elif k == "features":
                    c["l"] = [feat() for _ in range(r.randint(0, 4))]
                elif k == "lock_opts":
                    c.update(frozen=b(), locked=b(), offline=b())
                elif k == "env":
                    c.update(k=r.choice(["A", "B", "RUSTC", "CARGO_HOME"]), v=word(r, LOW + "/= ", 0, 5))
                calls.append(c)
            yield dict(api=api, calls=calls)

    @staticmethod
    def cmd(c):
        return dict(mode="cmd" if c["api"] == "cmd" else "mdc", calls=[harness_call(x) for x in c["calls"]])

    @staticmethod
    def nontrivial(c):
        return len({json.dumps(x) for x in c["calls"]}) > 1

    @staticmethod
    def observe(cases, binary, d):
        out = []
        for k, env in enumerate(CmdLine.envs):
            part = [c for i, c in enumerate(cases) if i % len(CmdLine.envs) == k]
            e = dict(os.environ)
            e.pop("CARGO", None)
            if env:
                e["CARGO"] = env
            for c in part:
                c["env"] = env
            os_ = common.run_harness(binary, [dict(CmdLine.cmd(c), id=c["id"]) for c in part], d, tag=f"h{k}", env=e)
            for c, o in zip(part, os_):
                c["o"] = dict(dict(msg="", args=[], envs=[], program="", hascwd=False, cwd=""), **o)
        return cases


# ---------------------------------------------------------------- running cargo
STANDIN = """#!/bin/sh
d=${0%/*}
for a in "$@"; do printf '%s\\n' "$a"; done > "$d/argv"
pwd -P > "$d/cwd"
if [ -s "$d/err" ]; then cat "$d/err" >&2; fi
cat "$d/out"
case $(cat "$d/exit") in 137) kill -9 $$;; *) exit $(cat "$d/exit");; esac
"""


def md_line(which):
    p = dict(name="a", version="1.0.0", id="path+file:///w#a@1.0.0", source=None, dependencies=[], targets=[], features={}, manifest_path="/w/Cargo.toml")
    res = dict(root=p["id"], nodes=[dict(id=p["id"], dependencies=[], deps=[], features=[])]) if which == "md1" else None
    return json.dumps(dict(packages=[p], workspace_members=[p["id"]], resolve=res, workspace_root=which, target_directory="/t", version=1))


LINES = dict(md1=md_line("md1"), md2=md_line("md2"), noise="warning: something {odd} happened", blank="", brace="[{}]",
             badjson='{"packages": [', otherjson='{"reason":"compiler-message"}', binary=b"\xff\xfe{")


class Exec:
    module, trace = "GenRun", "TraceRun"
    rule = "a run of a stand-in for cargo; non-trivial: it prints more than one line or does not succeed"

    @staticmethod
    def rand(r, n):
        for _ in range(n // 3):
            k = r.random()
            out = [r.choice(list(LINES)) for _ in range(r.choice([0, 1, 2, 4, 8]))]
            if k < .5:
                out = [x for x in out if x != "binary"]
            yield dict(r=dict(start="missing" if k > .97 else "ok", exit=r.choice([0, 0, 0, 0, 1, 2, 101, 255, 137]), out=out,
                              err=r.choice(["empty", "text", "binary"]), verbose=r.random() < .15))

    @staticmethod
    def nontrivial(c):
        return len(c["r"]["out"]) > 1 or c["r"]["exit"] != 0

    @staticmethod
    def observe(cases, binary, d):
        base = os.path.join(d, "run")
        os.makedirs(base)
        cmds = []
        rr = random.Random(3)
        here = common.VERIF
        for c in cases:
            x = os.path.join(base, str(c["id"]))
            os.makedirs(os.path.join(x, "ws"))
            x = os.path.realpath(x)
            run = c["r"]
            prog = os.path.join(x, "cargo")
            if run["start"] == "ok":
                with open(prog, "w") as f:
                    f.write(STANDIN)
                os.chmod(prog, 0o755)
            eol = b"\r\n" if c["id"] % 7 == 3 else b"\n"
            lines = [LINES[k] if isinstance(LINES[k], bytes) else LINES[k].encode() for k in run["out"]]
            data = eol.join(lines) + (eol if lines and c["id"] % 3 else b"")
            errtext = "error: no\n" * (20000 if c["id"] % 50 == 1 else 1)
            with open(os.path.join(x, "out"), "wb") as f:
                f.write(data)
            with open(os.path.join(x, "err"), "wb") as f:
                f.write(dict(empty=b"", text=errtext.encode(), binary=b"\xff\xfeerr")[run["err"]])
            with open(os.path.join(x, "exit"), "w") as f:
                f.write(str(run["exit"]))
            calls = [dict(c="cargo_path", v=prog)]
            k = c["id"] % 5
            if k == 1:
                calls.append(dict(c="manifest_path", v=os.path.join(x, "ws", "Cargo.toml")))
            elif k == 2:
                calls.append(dict(c="current_dir", v=os.path.join(x, "ws")))
            elif k == 3:
                calls += [dict(c="manifest_path", v=os.path.join(x, "ws", "Cargo.toml")), dict(c="current_dir", v=x)]
            if rr.random() < .3:
                calls.append(dict(c="features", l=["b", "a"]))
            if rr.random() < .3:
                calls.append(dict(c="all_features"))
            if rr.random() < .3:
                calls.append(dict(c="other_options", l=["--filter-platform", "a b"]))
            c["calls"], c["base"], c["errtext"] = calls, here, errtext
            cmds.append(dict(id=c["id"], mode="exec", calls=[harness_call(y) for y in calls], verbose=run["verbose"], build=c["id"] % 2 == 0))
        out = common.run_harness(binary, cmds, d, tag="e")
        for c, o in zip(cases, out):
            x = os.path.join(base, str(c["id"]))
            c["o"] = dict(dict(err="", msg="", wsroot="", stderr="", build="", hasresolve=False), **o)
            a = os.path.join(x, "argv")
            ran = os.path.exists(a)
            c["seen"] = dict(ran=ran, argv=open(a).read().split("\n")[:-1] if ran else [], cwd=open(os.path.join(x, "cwd")).read()[:-1] if ran else "")
        shutil.rmtree(base)
        return cases


# ---------------------------------------------------------------- metadata
def tag(v, kind=None, key=None):
    """the document as the specification wants it"""
    if key in ("metadata",) and kind in ("Package", "Metadata"):
        return dict(t="any", v=json.dumps(v, sort_keys=True, separators=(",", ":"), ensure_ascii=False)) if v is not None else dict(t="z", v=0)
    if v is None:
        return dict(t="z", v=0)
    if isinstance(v, bool):
        return dict(t="b", v=v)
    if isinstance(v, int):
        return dict(t="n", v=str(v))
    if isinstance(v, str):
        return dict(t="s", v=v)
    sub = SUB.get((kind, key))
    if isinstance(v, list):
        return dict(t="l", v=[tag(x, sub) for x in v])
    k = sub or kind
    return dict(t="o", v={x: tag(y, k, x) for x, y in v.items() if x not in UNKNOWN})


SUB = {("Metadata", "packages"): "Package", ("Metadata", "resolve"): "Resolve", ("Resolve", "nodes"): "Node", ("Node", "deps"): "NodeDep",
       ("NodeDep", "dep_kinds"): "DepKind", ("Package", "dependencies"): "Dependency", ("Package", "targets"): "Target",
       ("Package", "features"): "Map"}
UNKNOWN = {"unknown", "build_directory", "extern_name", "artifact", "compile_target", "test_only"}


def rand_json(r, depth=2):
    k = r.randint(0, 6 if depth else 4)
    return [None, True, False, r.randint(-5, 10 ** 6), word(r, LOW + ' "\\/é', 0, 6), [rand_json(r, depth - 1) for _ in range(r.randint(0, 2))] if depth else 7,
            {word(r, LOW, 1, 4): rand_json(r, depth - 1) for _ in range(r.randint(0, 3))} if depth else "x"][k]


def shuffled(r, d):
    ks = list(d)
    r.shuffle(ks)
    return {k: d[k] for k in ks}


def maybe(r, x, p=.5):
    return x if r.random() < p else None


def rand_metadata(r, full=False):
    """a document; full: everything is given, so that fields can be taken out"""
    p_ = 1 if full else .5
    txt = lambda: word(r, LOW + " -/:.é\"\\", 1, 10)
    names = r.sample(["a", "b-c", "d_e", "f", "G"], r.randint(1, 3) if not full else 2)
    pk = []
    for i, n in enumerate(names):
        deps = []
        for _ in range(r.randint(1 if full else 0, 3)):
            deps.append(dict(name=word(r, LOW, 1, 4), source=maybe(r, "registry+https://github.com/rust-lang/crates.io-index", p_), req=r.choice(["*", "^1.2", "=0.3.0", ">=1, <2", "~1.0.5-rc.1"]),
                             kind=r.choice([None, "dev", "build"]) if not full else "dev", optional=r.random() < .5, uses_default_features=r.random() < .5,
                             features=[word(r, LOW, 1, 3) for _ in range(r.randint(0, 2))], target=maybe(r, r.choice(["cfg(unix)", "x86_64-pc-windows-msvc"]), p_),
                             rename=maybe(r, "re-named", p_), registry=maybe(r, "https://reg/index", p_), path=maybe(r, "/w/x y", p_)))
        tg = []
        for _ in range(r.randint(1 if full else 0, 3)):
            kd = r.choice([["lib"], ["bin"], ["example"], ["test"], ["bench"], ["custom-build"], ["proc-macro"], ["rlib", "cdylib"], ["dylib"], ["staticlib", "lib"]])
            t = {"name": word(r, LOW, 1, 4), "kind": kd,
                 "crate_types": r.choice([["lib"], ["bin"], ["rlib", "cdylib"], ["proc-macro"], ["dylib", "staticlib"]]), "src_path": "/w/" + n + "/src/lib.rs",
                 "edition": r.choice(["2015", "2018", "2021", "2024"]), "doctest": r.random() < .5 and not full, "test": r.random() < .5 and not full, "doc": r.random() < .5 and not full}
            if full or r.random() < .4:
                t["required-features"] = [word(r, LOW, 1, 3) for _ in range(r.randint(1, 2))]
            tg.append(t)
        p = dict(name=n, version=rand_version(r), id=f"path+file:///w/{i}#{n}@1.0.0", source=maybe(r, r.choice(["registry+https://github.com/rust-lang/crates.io-index",
                 "registry+https://github.com/rust-lang/crates.io-index2", "git+https://g.h/x?rev=1#abc", "sparse+https://index.crates.io/"]), p_),
                 authors=[txt() for _ in range(r.randint(0 if not full else 1, 2))], description=maybe(r, txt(), p_), dependencies=deps, license=maybe(r, "MIT", p_),
                 license_file=maybe(r, r.choice(["LICENSE", "../L I", "/abs/LICENSE"]), p_), targets=tg,
                 features={word(r, LOW + "-_+.", 1, 5): [word(r, LOW + "/?:", 1, 5) for _ in range(r.randint(0, 2))] for _ in range(r.randint(0, 3))},
                 manifest_path=f"/w/{n}/Cargo.toml" if i else "/w/Cargo.toml", categories=[txt() for _ in range(r.randint(0 if not full else 1, 2))],
                 keywords=[txt() for _ in range(r.randint(0 if not full else 1, 2))], readme=maybe(r, r.choice(["README.md", "docs/R.md", "/abs/R"]), p_),
                 repository=maybe(r, "https://r/" + n, p_), homepage=maybe(r, "https://h/" + n, p_), documentation=maybe(r, "https://d/" + n, p_),
                 edition=r.choice(["2018", "2021", "2024", "2015"]) if not full else "2021", metadata=rand_json(r) if not full else {"k": [1, "x"]}, links=maybe(r, "z", p_),
                 publish=r.choice([None, [], ["crates-io", "reg"]]) if not full else ["reg"], default_run=maybe(r, "bin", p_),
                 rust_version=maybe(r, r.choice(["1.70", "1.70.1", "1", "1.85.0"]), p_))
        pk.append(p)
    ids = [p["id"] for p in pk]
    nodes = []
    for x in ids:
        nodes.append(dict(id=x, dependencies=r.sample(ids, r.randint(0, len(ids))), features=[word(r, LOW, 1, 3) for _ in range(r.randint(1 if full else 0, 2))],
                          deps=[dict(name=word(r, LOW + "_", 1, 4), pkg=r.choice(ids), dep_kinds=[dict(kind=r.choice([None, "dev", "build"]) if not full else "build",
                                target=maybe(r, "cfg(windows)", p_)) for _ in range(r.randint(1, 2))]) for _ in range(r.randint(1 if full else 0, 2))]))
    md = dict(packages=pk, workspace_members=r.sample(ids, r.randint(1, len(ids))), workspace_default_members=r.sample(ids, r.randint(0, len(ids))),
              resolve=dict(nodes=nodes, root=maybe(r, r.choice(ids), p_)) if full or r.random() < .75 else None, workspace_root="/w", target_directory="/w/target",
              metadata=rand_json(r) if not full else {"a": 1}, version=1)
    if not full and r.random() < .25:
        md["packages"][0]["manifest_path"] = "/w/sub/Cargo.toml"
    return md


def objects(md, kind):
    """the objects of a kind in the document"""
    pk = md["packages"]
    nodes = md["resolve"]["nodes"] if md.get("resolve") else []
    return dict(Metadata=[md], Package=pk, Resolve=[md["resolve"]] if md.get("resolve") else [], Node=nodes,
                NodeDep=[d for n in nodes for d in n["deps"]], DepKind=[k for n in nodes for d in n["deps"] for k in d["dep_kinds"]],
                Dependency=[d for p in pk for d in p["dependencies"]], Target=[t for p in pk for t in p["targets"]])[kind]


# some of these are fine
MALFORMED = [("version", x) for x in ("1.0", "", "1.0.0.0", "01.0.0", "1.0.0-", "1.0.0-01", "1.0.0-0a", "1.0.0+01", "v1.0.0", "1.0.0-a_b", " 1.0.0")] + \
            [("rust_version", x) for x in ("1.70.0-beta.1", "1.70-beta", "1.70+x", "1.70.0+b", "^1.70", "1.x", "1.70.", "1.2.3.4", "=1.70.0", "01.70", "1.*", ">=1.70", "0.1")]


def deep_shuffle(r, v, unknown):
    if isinstance(v, dict):
        v = {k: deep_shuffle(r, x, unknown and k not in ("metadata", "features")) for k, x in v.items()}
        if unknown and r.random() < .4:
            v[r.choice(sorted(UNKNOWN))] = rand_json(r, 3)
        return shuffled(r, v)
    if isinstance(v, list):
        return [deep_shuffle(r, x, unknown) for x in v]
    return v


class Meta:
    module, trace = "GenMetadata", "TraceMetadata"
    rule = "a metadata document; non-trivial: some field is missing, null or unknown"

    @staticmethod
    def enumerated(cs):
        for i, c in enumerate(cs):
            r = random.Random(i)
            md = rand_metadata(r, full=True)
            o = r.choice(objects(md, c["kind"]))
            for k, way in (c["a"], c["b"]):
                if way == "absent":
                    o.pop(k, None)
                elif k in o:
                    o[k] = None
            yield dict(md=md, why=c)

    @staticmethod
    def rand(r, n):
        for _ in range(n // 2):
            md = rand_metadata(r)
            for p in md["packages"]:
                for k in r.sample(["source", "description", "license", "license_file", "readme", "repository", "homepage", "documentation", "metadata",
                                   "links", "publish", "default_run", "rust_version", "authors", "categories", "keywords", "edition"], r.choice([0, 0, 1, 3, 9])):
                    p.pop(k)
            if r.random() < .2:
                md.pop("workspace_default_members")
            if r.random() < .06:
                p = r.choice(md["packages"])
                k, v = r.choice(MALFORMED)
                p[k] = v
            md = deep_shuffle(r, md, r.random() < .5)
            yield dict(md=md)

    @staticmethod
    def nontrivial(c):
        s = json.dumps(c["md"])
        return "null" in s or any(u in s for u in UNKNOWN) or "why" in c

    @staticmethod
    def observe(cases, binary, d):
        out = common.run_harness(binary, [dict(id=c["id"], mode="md", text=json.dumps(c["md"], ensure_ascii=c["id"] % 2 == 0)) for c in cases], d)
        for c, o in zip(cases, out):
            ser = o.pop("ser", None)
            c["doc"] = tag(c["md"], "Metadata")
            c["ser"] = tag(ser, "Metadata") if isinstance(ser, dict) else dict(t="z", v=0)
            for p in (o.get("fields") or {}).get("packages", []):
                p["metadata"] = canon(p["metadata"])
            if "fields" in o:
                o["fields"]["metadata"] = canon(o["fields"]["metadata"])
            c["o"] = dict(dict(msg="", fields=0, again=0), **o)
        return cases

    @staticmethod
    def strip(c):
        return {k: c[k] for k in ("id", "doc", "ser", "o")}


# ---------------------------------------------------------------- text forms
class TextForm:
    module, trace = "GenText", "TraceText"
    rule = "a part of a graph or of the metadata that has a text form; non-trivial: its text is not empty"

    @staticmethod
    def rand(r, n):
        plain = LOW + UP + DIG + "-_./ +"
        cfg = lambda: r.choice(["", "cfg({})", "cfg(all({0}, not(x{0})))", "{}"]).format(word(r, LOW + DIG + "_-", 1, 9))
        for _ in range(n // 3):
            k = r.choice(["edge", "edge", "crate", "feature", "kid", "packageid", "source", "target", "edition", "targetkind", "cratetype", "error"])
            x = dict(sort=k, v=word(r, plain, 0, 12))
            if k == "edge":
                x = dict(sort=k, variant=r.choice(["dep", "depfeature", "feature"]), kind=r.choice(["normal", "build", "dev"]), cfg=cfg())
            elif k in ("crate", "kid"):
                p = rand_pkg(r)
                p["val"] = p["ref"] and word(r, LOW + DIG + "/-._@#%", 1, 9)
                f = r.choice(["stable", "opaque"])
                kept = dict(p, val="\0" if p["ref"] else "")
                x = dict(sort=k, repr=render_id(p, f))
                text = render_id(kept, f).replace(encode("\0", False), "\0").replace("\0", p["val"])
                x.update(dict(v=text, p=p) if k == "kid" else dict(v=word(r, plain, 0, 9), id=text))
            elif k == "error":
                x = dict(sort=k, v=r.choice(["NoResolveGraph", "NoRootKrates", "InvalidPkgSpec", "CargoMetadata", "Io", "Utf8", "ErrUtf8", "Json", "NoJson"]),
                         about="x" + word(r, plain, 0, 20))
            elif k == "target":
                x["v"] = word(r, LOW, 1, 5) + "-" + word(r, LOW + "-", 0, 5)
            yield dict(x=x)

    @staticmethod
    def cmd(c):
        return dict(mode="text", x=c["x"])

    @staticmethod
    def nontrivial(c):
        return c["x"].get("v", "x") != ""


def canon(t):
    return json.dumps(json.loads(t), sort_keys=True, separators=(",", ":"), ensure_ascii=False)


# id -> (family, labels that break the property)
FAMILIES = {
    "C18": (KidParse, ["panic", "name", "version", "source", "display"]),
    "C19": (KidOrder, ["panic", "order", "hash"]),
    "C20": (SpecParse, ["panic", "refuse", "accept", "name", "version", "url"]),
    "C21": (SpecMatch, ["panic", "accept", "match"]),
    "C22": (CmdLine, ["panic", "argv", "program", "cwd", "env"]),
    "C23": (Exec, ["panic", "outcome", "stderr", "build", "ran", "argv", "cwd"]),
    "C24": (Meta, ["panic", "view", "accept", "refuse", "ways"]),
    "C25": (Meta, ["panic", "again", "same", "ser"]),
    "C26": (IndexMerge, ["panic", "request", "merge", "twice"]),
    "C27": (FeatureItem, ["panic", "item"]),
    "C29": (TextForm, ["panic", "read", "display", "debug", "written", "about", "cause", "wrapped"]),
}


def observe(fam, cases, binary, d):
    if hasattr(fam, "observe"):
        return fam.observe(cases, binary, d)
    out = common.run_harness(binary, [dict(fam.cmd(c), id=c["id"]) for c in cases], d)
    for c, o in zip(cases, out):
        c["o"] = dict(dict(msg=""), **o)
    return cases


def judge(fam, cases, d):
    tr = os.path.join(d, "trace.ndjson")
    strip = getattr(fam, "strip", lambda c: c)
    with open(tr, "w") as f:
        for c in cases:
            f.write(json.dumps(strip(c), ensure_ascii=False) + "\n")
    out, g, dist = common.tlc(fam.trace, d, trace=tr)
    fails, done = common.tlc_lines(out)
    if {x["id"] for x in done} != {c["id"] for c in cases}:
        raise common.ToolError("TLC judged %d of %d records" % (len(done), len(cases)))
    return fails, g, dist


def run(pid, tier, seed, t, binary, d):
    fam, labels = FAMILIES[pid]
    cs, g, dist = gen_cases(fam.module, d)
    t.tlc(g, dist)
    enum = list(getattr(fam, "enumerated", lambda c: c)(cs))
    batches = [enum]
    n = 1500 if tier == "quick" else 30000
    r = random.Random(f"{pid}/{seed}")
    for k in range(0, n, 6000):
        batches.append(list(fam.rand(r, min(6000, n - k))))
    for b in batches:
        for i, c in enumerate(b):
            c["id"] = i
        observe(fam, b, binary, d)
        fails, g, dist = judge(fam, b, d)
        t.tlc(g, dist)
        by = collections.defaultdict(list)
        for f in fails:
            if f["label"] == "render":
                raise common.ToolError(f"{pid}: a case is not what the specification says: {f}")
            if f["label"] in labels:
                by[f["id"]].append((f["label"], f["detail"]))
        for c in b:
            t.evals += 1
            t.traces += 1
            if fam.nontrivial(c):
                t.nontrivial.add(common.digest({k: v for k, v in c.items() if k not in ("o", "id", "ser", "doc", "seen", "base")}))
                if len(t.samples) < 3:
                    t.samples.append({k: v for k, v in c.items() if k not in ("doc", "ser")})
            if c["id"] in by and len(t.violations) < 50:
                t.violations.append(dict(kind="misc", case={k: v for k, v in c.items() if k not in ("doc", "ser")}, why=by[c["id"]]))
        if t.violations:
            break
    return len(enum)


def replay(pid, case, binary, d):
    fam, labels = FAMILIES[pid]
    case = {k: v for k, v in case.items() if k not in ("o", "seen")}
    observe(fam, [case], binary, d)
    fails, _, _ = judge(fam, [case], d)
    return [f for f in fails if f["label"] in labels]
