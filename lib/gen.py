"""Generator of abstract cargo worlds, and their rendering as `cargo metadata` JSON.

A world is what a set of manifests plus a lockfile says; `solve` computes what cargo itself would resolve
(a small re-implementation of the rules of cargo's resolver that decide which declared dependencies are
linked and which features are listed), `render` prints that as the JSON document cargo would print, and
`spec_view` is the same world in the form the TLA+ specification reads.  Nothing here knows what krates
answers: the answers come from the specification.
"""
import itertools, json, os, random, urllib.parse

TARGETS = json.load(open(os.path.join(os.path.dirname(__file__), "..", "spec", "targets.json")))
CUSTOM = json.load(open(os.path.join(os.path.dirname(__file__), "..", "spec", "targets_custom.json")))
CRATES_IO = "registry+https://github.com/rust-lang/crates.io-index"

NAMES = ["aa", "a-b", "a_b", "bb", "foo", "foo-bar", "foo_bar", "md-5", "md5", "serde", "serde-derive", "log",
         "x", "y2", "zed", "libz-sys", "rand_core", "Inflector", "cc", "a", "ab", "core-x", "größe", "é-x"]
VERS = ["0.1.0", "0.2.0", "0.2.5", "1.0.0", "1.2.3", "2.0.0", "10.0.0", "9.1.0", "0.0.3", "0.0.4", "3.0.0-beta.1",
        "2.1.0-alpha.2", "1.5.0+meta.1", "0.10.0", "0.9.0"]
FNAMES = ["default", "std", "alloc", "x", "y", "full", "foo", "serde", "derive", "aa", "log", "bb", "unstable", "schön"]
TOML_RENAMES = ["ren", "re-named", "other_name", "foo1", "foo-2", "serde", "bb", "log2", "x", "ümlaut"]
KINDS = ["normal", "build", "dev"]


def compat(v):
    core = v.split("+")[0].split("-")[0].split(".")
    if core[0] != "0":
        return core[0]
    if core[1] != "0":
        return "0." + core[1]
    return v.split("+")[0]


def vkey(v):
    core, _, pre = v.split("+")[0].partition("-")
    return tuple(int(x) for x in core.split(".")), pre == "", pre


def norm(s):
    return s.replace("-", "_")


def in_url(s):
    return urllib.parse.quote(s, safe="/")


# --------------------------------------------------------------------------- cfg expressions
# what a triple alone says about a target that rustc does not know
OF_TRIPLE = ("unix", "windows", "target_arch=", "target_os=", "target_env=", "target_family=", "target_endian=", "target_vendor=", "target_pointer_width=")
only_of_triple = False


# almost the names of others
NEAR_FEATURES = ["avx", "+avx2", "AVX2", "sse4", "atomic"]


def near_triple(r, t):
    return r.choice([t.upper(), t + ".json", t + "x33", t[:-1], t.replace("-", "_")])


def cfg_pred(r):
    k = r.random()
    if k < 0.04:
        return {"t": r.choice(["true", "false"])}
    if k < 0.75:
        t = r.choice(sorted(TARGETS))
        f = r.choice([x for x in TARGETS[t] if not only_of_triple or x.startswith(OF_TRIPLE)])
        if "=" in f:
            key, v = f.split("=", 1)
            return {"t": "p", "f": f, "s": f'{key} = "{v}"'}
        return {"t": "p", "f": f, "s": f}
    if k < 0.9:
        v = r.choice(["atomics", "sse4.2", "avx2", "neon"] * 3 + NEAR_FEATURES)
        return {"t": "tf", "f": v, "s": f'target_feature = "{v}"'}
    s = r.choice(['feature = "std"', "debug_assertions", "debug_assertions", "test", 'my_key = "v"', "proc_macro", "loom", "docsrs"])
    if s == "debug_assertions":
        return {"t": "d", "f": "", "s": s}
    return {"t": "o", "f": "", "s": s}


def cfg_expr(r, depth):
    k = r.random()
    if depth == 0 or k < 0.45:
        return cfg_pred(r)
    if k < 0.62:
        return {"t": "not", "c": [cfg_expr(r, depth - 1)]}
    n = r.choice([0, 1, 2, 2, 2, 3])
    return {"t": r.choice(["all", "any"]), "c": [cfg_expr(r, depth - 1) for _ in range(n)]}


def cfg_str(e):
    if e["t"] in ("true", "false"):
        return e["t"]
    if e["t"] in ("p", "tf", "o", "d"):
        return e["s"]
    return e["t"] + "(" + ", ".join(cfg_str(c) for c in e["c"]) + ")"


def cfg_view(e):
    """AST without the rendered strings (what the specification evaluates)"""
    if e["t"] in ("p", "tf", "o", "d"):
        return {"t": e["t"], "f": e["f"], "c": []}
    if e["t"] in ("true", "false"):
        return {"t": e["t"], "f": "", "c": []}
    return {"t": e["t"], "f": "", "c": [cfg_view(c) for c in e.get("c", [])]}


def rand_target(r):
    """(string as printed by cargo, AST)"""
    k = r.random()
    if k < 0.25:
        t = r.choice(sorted(TARGETS) + ["x86_64-foo-bar", "custom.json", "armv6-unknown-special"])
        if r.random() < 0.2:
            t = near_triple(r, t)
        return t, {"t": "triple", "f": t, "c": []}
    if k < 0.45:
        s, e = r.choice([("cfg(unix)", {"t": "p", "f": "unix", "s": "unix"}),
                         ("cfg(windows)", {"t": "p", "f": "windows", "s": "windows"}),
                         ("cfg(not(windows))", {"t": "not", "c": [{"t": "p", "f": "windows", "s": "windows"}]}),
                         ("cfg(any())", {"t": "any", "c": []}),
                         ("cfg(not(any()))", {"t": "not", "c": [{"t": "any", "c": []}]}),
                         ("cfg(all())", {"t": "all", "c": []})])
        return s, e
    e = cfg_expr(r, 2)
    return f"cfg({cfg_str(e)})", e


# --------------------------------------------------------------------------- worlds
DEFAULT_PROFILE = dict(npkg=(2, 9), members=(1, 3), p_opt=0.45, p_target=0.3, p_kind=(0.65, 0.2, 0.15), p_rename=0.2,
                       p_librename=0.12, p_multi=0.3, p_deps=0.45, p_feat=0.7, p_multiver=0.35, p_weak=0.3,
                       p_strong=0.4, p_default=0.6, p_git=0.15, p_path=0.1, p_alt=0.1, p_overlap=0.1, p_patch=0.05,
                       p_spacepath=0.15, p_kindver=0.12, p_procmacro=0.12, p_selfdev=0.04, p_gitname=0.5,
                       p_specialbranch=0.2, p_cycle=0.15, p_atroot=0.1)


class Retry(Exception):
    pass


def gen_world(r, prof=None, base="/w"):
    P = dict(DEFAULT_PROFILE, **(prof or {}))
    for _ in range(200):
        try:
            return _gen(r, P, base)
        except Retry:
            continue
    raise RuntimeError("generator could not make a world")


def _gen(r, P, base):
    n = r.randint(*P["npkg"])
    nm = min(n, r.randint(*P["members"]))
    pkgs, taken, srcnames, dirs = [], set(), {}, set()
    for i in range(n):
        member = i < nm
        for _ in range(50):
            if pkgs and not member and r.random() < P["p_multiver"]:
                o = r.choice(pkgs)
                name = o["name"]
            else:
                name = r.choice(NAMES)
            ver = r.choice(VERS)
            if member:
                kind = "path"
            else:
                k = r.random()
                kind = ("git" if k < P["p_git"] else "path" if k < P["p_git"] + P["p_path"]
                        else "alt" if k < P["p_git"] + P["p_path"] + P["p_alt"] else "crates")
            if kind == "crates" and not name.isascii():
                continue
            p = dict(name=name, ver=ver, kind=kind, member=member, deps=[], feats={})
            if kind == "path":
                d = name if r.random() < 0.6 else r.choice(["crates/" + name, r.choice(["my ", "50% ", "a#b/"]) + name if
                                                            r.random() < P["p_spacepath"] else "d_" + name, "pkg"])
                d = (base if member else base + "-ext") + "/" + d
                if member and r.random() < P["p_atroot"]:
                    d = base
                if d in dirs or any(x["member"] and x["name"] == name for x in pkgs if member):
                    continue
                p["dir"] = d
                p["kidsrc"] = "path+file://" + in_url(d)
                p["source"] = None
                p["declsrc"] = None
                p["urlbase"] = ""
            elif kind == "git":
                repo = in_url(r.choice([name, name, "repo", name + ".git", "mono", "mono"]))
                q = r.choice(["", "", "?branch=main", "?rev=abc123", "?tag=v1.0", "?branch=dev"])
                if q == "?branch=dev" and r.random() < P["p_specialbranch"]:
                    q = "?branch=" + r.choice(["feat/x+y", "größe"])
                url = "https://git.example/o/" + repo
                enc = q[:8] + urllib.parse.quote(q[8:], safe="")
                p["kidsrc"] = "git+" + url + q
                p["idsrc"] = "git+" + url + enc
                h = f"{abs(hash_(url + q)):040x}"[:40]
                p["source"] = "git+" + url + q + "#" + h
                p["hash"] = h
                p["declsrc"] = "git+" + url + q
                p["urlbase"] = url
                p["repo"] = repo
            elif kind == "alt":
                reg = r.choice(["registry+https://reg.example/index", "sparse+https://sp.example/idx/"])
                p["kidsrc"] = p["source"] = p["declsrc"] = reg
                p["urlbase"] = reg.split("+", 1)[1]
            else:
                p["kidsrc"] = p["source"] = p["declsrc"] = CRATES_IO
                p["urlbase"] = CRATES_IO.split("+", 1)[1]
            key = (name, "path", ver) if kind == "path" else (name, p["kidsrc"]) + ((compat(ver),) if kind in ("alt", "crates") else ())
            if key in taken:
                continue
            taken.add(key)
            if kind == "path":
                dirs.add(p["dir"])
            lib = norm(name)
            if r.random() < P["p_librename"]:
                lib = r.choice(["md5", "foo", "lib" + norm(name), norm(name) + "_rs", "ren"])
            p["lib"] = lib
            p["libkind"] = r.choice(["lib", "lib", "lib", "rlib", "cdylib+rlib", "dylib"]) if \
                r.random() > P["p_procmacro"] else "proc-macro"
            if r.random() < 0.7:
                p["libkind"] = "lib" if p["libkind"] != "proc-macro" else p["libkind"]
            pkgs.append(p)
            break
    n = len(pkgs)
    # dependency order: a random permutation; normal and build dependencies only go down it
    order = list(range(n))
    r.shuffle(order)
    order.sort(key=lambda i: 0 if pkgs[i]["member"] and r.random() < 0.7 else 1)
    pos = {i: k for k, i in enumerate(order)}

    # 1. which declared dependencies there are
    for i in range(n):
        p = pkgs[i]
        ext = {}          # target package -> extern name
        tomls = {}        # toml name -> declared source (of the lookup)
        used = set()      # (toml, kind, target)
        cands = [j for j in range(n) if pos[j] > pos[i]]
        r.shuffle(cands)
        devc = [j for j in range(n) if j != i] if p["member"] else []
        want = [(j, None) for j in cands if r.random() < P["p_deps"]]
        want += [(j, "dev") for j in devc if r.random() < P["p_cycle"]]
        if p["member"] and r.random() < P["p_selfdev"]:
            want.append((i, "dev"))
        for j, fk in want:
            q = pkgs[j]
            if p["kind"] != "path" and q["kind"] == "path":
                continue
            # the toml name
            toml, ren = q["name"], False
            same = [t for t, (jj, rn) in tomls.items() if jj == j]
            if same:
                toml, ren = same[0], tomls[same[0]][1]
            elif r.random() < P["p_rename"]:
                # the extern name of another package of that name, for one
                near = [o["lib"] for o in pkgs if o["name"] == q["name"] and o is not q and o["lib"] != norm(q["name"])]
                toml, ren = r.choice(near if near and r.random() < 0.5 else TOML_RENAMES), True
                if toml == q["name"]:
                    ren = False
                # what cargo prints could not be told apart from a dependency on another version whose library has this name
                if ren and any(o["name"] == q["name"] and o is not q and o["lib"] == norm(toml) and o["kidsrc"] == q["kidsrc"] for o in pkgs):
                    toml, ren = q["name"], False
            clash = tomls.get(toml)
            kindver = False
            if clash and clash[0] != j:
                o = pkgs[clash[0]]
                # the same manifest name may mean another version in another table, never another source
                if (o["name"] == q["name"] and o["declsrc"] == q["declsrc"] and o["kind"] in ("alt", "crates")
                        and clash[1] == ren and r.random() < P["p_kindver"]):
                    kindver = True
                else:
                    toml, ren = r.choice(TOML_RENAMES) + str(j), True
                    if toml in tomls or toml == q["name"]:
                        continue
            e = norm(toml) if ren else q["lib"]
            if ext.get(j, e) != e:
                continue
            entries = 1 + (r.random() < P["p_multi"]) + (r.random() < P["p_multi"] * 0.4)
            made = False
            for _ in range(entries):
                kind = fk or r.choices(KINDS[:2] + (["dev"] if True else []), P["p_kind"])[0]
                if kind == "dev" and not p["member"] and r.random() < 0.7:
                    kind = "normal"
                if kind != "dev" and pos[j] <= pos[i]:
                    continue
                tgt, ast = (None, None)
                if r.random() < P["p_target"]:
                    tgt, ast = rand_target(r)
                if (norm(toml), kind, tgt) in used:
                    continue
                used.add((norm(toml), kind, tgt))
                opt = kind != "dev" and r.random() < P["p_opt"]
                req = pick_req(r, q, pkgs, P)
                dd = dict(toml=toml, ren=ren, q=j, kind=kind, opt=opt, deff=r.random() < 0.6, feats=[], target=tgt,
                          ast=ast, req=req, src=q["declsrc"], path=q.get("dir"))
                if p["kind"] == "git" and q["kidsrc"] == p["kidsrc"] and r.random() < 0.8:
                    dd["src"] = q["source"]                       # a path within the repository
                if q["kind"] in ("path", "git") and r.random() < P["p_patch"] and not q["member"]:
                    dd["src"], dd["path"] = CRATES_IO, None       # [patch.crates-io]
                p["deps"].append(dd)
                made = True
            if made:
                ext[j] = e
                tomls.setdefault(toml, (j, ren))
        # a second look: every entry of a toml name has the same source
        bysrc = {}
        for d in p["deps"]:
            s = bysrc.setdefault(d["toml"], (d["src"], d["path"], d["ren"]))
            d["src"], d["path"] = s[0], s[1]
        # the same extern name for two packages of the same name, of which one is a patch: their sources do not tell them apart
        patched = lambda d: (d["src"], d["path"]) not in ((pkgs[d["q"]]["declsrc"], pkgs[d["q"]].get("dir")), (pkgs[d["q"]]["source"], None))
        for d in p["deps"]:
            if not d["ren"] and any(o["ren"] and o["q"] != d["q"] and pkgs[o["q"]]["name"] == pkgs[d["q"]]["name"] and norm(o["toml"]) == pkgs[d["q"]]["lib"]
                                    and ((o["src"], o["path"]) == (d["src"], d["path"]) or patched(d) or patched(o)) for o in p["deps"]):
                raise Retry
        r.shuffle(p["deps"])

    # 2. feature names
    for i in range(n):
        p = pkgs[i]
        names = []
        if r.random() < P["p_feat"]:
            names = r.sample(FNAMES, r.randint(1, 5))
            if "default" not in names and r.random() < P["p_default"]:
                names.append("default")
        opts = sorted({d["toml"] for d in p["deps"] if d["opt"]})
        p["explicit_dep"] = set()
        for t in opts:
            if names and r.random() < 0.5:
                p["explicit_dep"].add(t)
                if t not in names and r.random() < 0.4:
                    names.append(t)
            else:
                names = [f for f in names if f != t]
        nonopt = {d["toml"] for d in p["deps"]} - set(opts)
        names = [f for f in names if f not in nonopt or r.random() < 0.3]
        if p["explicit_dep"] and not names:
            names = ["std"] if "std" not in opts and "std" not in nonopt else ["unst"]
        p["fnames"] = names
        p["allf"] = names + [t for t in opts if t not in p["explicit_dep"]]

    # 3. what features mean
    for i in range(n):
        p = pkgs[i]
        names = p["fnames"]
        feats = {f: [] for f in names}
        opts = sorted({d["toml"] for d in p["deps"] if d["opt"]})
        alltomls = sorted({d["toml"] for d in p["deps"]})
        for f in names:
            items = []
            for g in p["allf"]:
                if g != f and (g != "default" or r.random() < 0.3) and r.random() < (0.35 if f == "default" else 0.18):
                    items.append(g)
            for t in alltomls:
                common = set.intersection(*[set(pkgs[d["q"]]["allf"]) for d in p["deps"] if d["toml"] == t])
                for g in sorted(common):
                    if r.random() < P["p_strong"] * 0.35:
                        items.append(f"{t}/{g}")
                    elif t in opts and r.random() < P["p_weak"] * 0.5:
                        items.append(f"{t}?/{g}")
                if t in p["explicit_dep"] and r.random() < 0.3:
                    items.append("dep:" + t)
            if items and r.random() < 0.08:
                items.append(r.choice(items))
            r.shuffle(items)
            feats[f] = items
        for t in sorted(p["explicit_dep"]):
            if t in feats and "dep:" + t not in feats[t]:
                feats[t].insert(0, "dep:" + t)
            if not any("dep:" + t in v for v in feats.values()):
                feats[r.choice(names)].append("dep:" + t)
        for t in opts:
            if t not in p["explicit_dep"]:
                if t in feats:
                    raise Retry
                feats[t] = ["dep:" + t]
        p["feats"] = feats
        for d in p["deps"]:
            qf = [g for g in pkgs[d["q"]]["allf"]]
            if qf and r.random() < 0.45:
                d["feats"] = r.sample(qf, r.randint(1, min(2, len(qf))))
                if r.random() < 0.1:       # cargo prints what is written twice twice
                    d["feats"].append(r.choice(d["feats"]))

    # which features the command line enabled
    for p in pkgs:
        p["req"] = []
        if p["member"]:
            k = r.random()
            if k < 0.45:
                p["req"] = ["default"] if "default" in p["feats"] else []
            elif k < 0.6:
                p["req"] = sorted(p["feats"])
            else:
                p["req"] = [f for f in sorted(p["feats"]) if r.random() < 0.5]
    w = dict(pkgs=pkgs, root=None, wsroot=base)
    mem = [i for i in range(n) if pkgs[i]["member"]]
    if r.random() < 0.45:
        w["root"] = r.choice(mem)
    return solve(w)


def hash_(s):
    h = 1469598103934665603
    for c in s.encode():
        h = ((h ^ c) * 1099511628211) & (2 ** 64 - 1)
    return h * 0x9E3779B97F4A7C15F39CC0605CEDC835


def pick_req(r, q, pkgs, P):
    v = q["ver"].split("+")[0]
    core, _, pre = v.partition("-")
    a, b, c = core.split(".")
    if q["kind"] in ("path", "git") and r.random() < 0.6:
        return "*"
    if pre:
        return r.choice(["^" + v, "=" + v])
    o = ["^" + v, "=" + v, "^" + f"{a}.{b}", ">=" + v, "~" + f"{a}.{b}", f">={v}, <{int(a) + 1}.0.0"]
    if a != "0":
        o += ["^" + a, ">=" + a + ".0"]
    if r.random() < P["p_overlap"]:
        return r.choice([">=0.0.1", "*", ">=0.1"] if vkey(v) >= vkey("0.1.0") else ["*", ">=0.0.1"])
    return r.choice(o)


def items(fv):
    if fv.startswith("dep:"):
        return ("dep", fv[4:], "")
    if "?/" in fv:
        d, g = fv.split("?/", 1)
        return ("weak", d, g)
    if "/" in fv:
        d, g = fv.split("/", 1)
        return ("strong", d, g)
    return ("simple", "", fv)


def solve(w):
    """What cargo links, and which features it lists (features unified over everything, all targets)."""
    pk = w["pkgs"]
    mem = [i for i, p in enumerate(pk) if p["member"]]
    # A package is activated once for itself (members: with development dependencies) and once for its dependents
    # (without); the features of one activation say nothing about the other's dependencies.
    C, F, act = set(), set(), set()
    for p in pk:
        for d in p["deps"]:
            d["linked"] = False
    links = set()
    for m in mem:
        C.add((m, True))
        for f in pk[m]["req"]:
            F.add((m, True, f))
    while True:
        before = (len(C), len(F), len(act), len(links))
        for i, dev in list(C):
            p = pk[i]
            for n, d in enumerate(p["deps"]):
                if d["kind"] == "dev" and not dev:
                    continue
                if d["opt"] and (i, dev, d["toml"]) not in act:
                    continue
                d["linked"] = True
                links.add((i, dev, n))
                C.add((d["q"], False))
                for g in d["feats"]:
                    F.add((d["q"], False, g))
                if d["deff"] and "default" in pk[d["q"]]["feats"]:
                    F.add((d["q"], False, "default"))
        for i, dev, f in list(F):
            p = pk[i]
            for fv in p["feats"][f]:
                k, t, g = items(fv)
                if k == "simple":
                    F.add((i, dev, g))
                    continue
                act.add((i, dev, t))
                if k == "dep":
                    continue
                for n, d in enumerate(p["deps"]):
                    if d["toml"] == t and (i, dev, n) in links:
                        F.add((d["q"], False, g))
                    if k == "strong" and d["toml"] == t and d["opt"] and t in p["feats"]:
                        F.add((i, dev, t))
        if before == (len(C), len(F), len(act), len(links)):
            break
    F = {(i, f) for i, _, f in F}
    C = {i for i, _ in C}
    for i, p in enumerate(pk):
        p["in"] = i in C
        p["rf"] = sorted(f for (j, f) in F if j == i)
    # numbering in package-id order
    live = [i for i in range(len(pk)) if pk[i]["in"]]
    live.sort(key=lambda i: (pk[i]["name"].encode(), pk[i]["ver"].encode(), pk[i]["kidsrc"].encode()))
    w["live"] = live
    w["num"] = {i: k + 1 for k, i in enumerate(live)}
    return w


# --------------------------------------------------------------------------- rendering
def pkgid(p, opaque):
    if opaque:
        if p["kind"] == "path":
            return f'{p["name"]} {p["ver"]} (path+file://{in_url(p["dir"])})'
        return f'{p["name"]} {p["ver"]} ({p["source"]})'
    src = p.get("idsrc", p["kidsrc"])
    last = src.split("?")[0].split("/")[-1]
    return f'{src}#{p["ver"]}' if last == p["name"] else f'{src}#{p["name"]}@{p["ver"]}'


LIBKIND = {"lib": (["lib"], ["lib"]), "rlib": (["rlib"], ["rlib"]), "dylib": (["dylib"], ["dylib"]),
           "cdylib+rlib": (["cdylib", "rlib"], ["cdylib", "rlib"]), "proc-macro": (["proc-macro"], ["proc-macro"])}


def pkgdir(p):
    if p["kind"] == "path":
        return p["dir"]
    return "/home/u/.cargo/src/" + norm(p["kidsrc"].split("/")[2]) + f'/{p["name"]}-{p["ver"]}'


def render(w, opaque=False, shuffle=None):
    pk = w["pkgs"]
    live = list(w["live"])
    R = shuffle
    if R:
        R.shuffle(live)
    else:
        live.sort()
    ids = {i: pkgid(pk[i], opaque) for i in w["live"]}
    packages, nodes = [], []
    for i in live:
        p = pk[i]
        lk = LIBKIND[p["libkind"]]
        d = pkgdir(p)
        targets = [dict(kind=lk[0], crate_types=lk[1], name=p["lib"], src_path=d + "/src/lib.rs", edition="2021",
                        doc=True, doctest=True, test=True)]
        if p.get("bin"):
            targets.append(dict(kind=["bin"], crate_types=["bin"], name=p["name"], src_path=d + "/src/main.rs",
                                edition="2021", doc=True, doctest=False, test=True))
        if p.get("buildrs"):
            targets.append(dict(kind=["custom-build"], crate_types=["bin"], name="build-script-build",
                                src_path=d + "/build.rs", edition="2021", doc=False, doctest=False, test=False))
        if R and len(targets) > 1 and R.random() < 0.5:
            targets.reverse()
        deps = []
        for dd in p["deps"]:
            q = pk[dd["q"]]
            o = dict(name=q["name"], source=dd["src"], req=dd["req"],
                     kind=None if dd["kind"] == "normal" else dd["kind"], rename=dd["toml"] if dd["ren"] else None,
                     optional=dd["opt"], uses_default_features=dd["deff"], features=list(dd["feats"]),
                     target=dd["target"], registry=None)
            if dd["path"]:
                o["path"] = dd["path"]
            deps.append(o)
        packages.append(dict(name=p["name"], version=p["ver"], id=ids[i], license=None, license_file=None,
                             description=None, source=p["source"], dependencies=deps, targets=targets,
                             features={f: list(v) for f, v in sorted(p["feats"].items())},
                             manifest_path=d + "/Cargo.toml", metadata=None, publish=None, authors=[], categories=[],
                             keywords=[], readme=None, repository=None, homepage=None, documentation=None,
                             edition="2021", links=None, default_run=None, rust_version=None))
        by = {}
        for dd in p["deps"]:
            if dd["linked"]:
                by.setdefault(dd["q"], []).append(dd)
        nd = []
        for q, dds in sorted(by.items(), key=lambda x: w["num"][x[0]]):
            ext = norm(dds[0]["toml"]) if dds[0]["ren"] and q != i else pk[q]["lib"]
            kinds = [dict(kind=None if x["kind"] == "normal" else x["kind"], target=x["target"]) for x in dds]
            kinds.sort(key=lambda k: ({None: 0, "dev": 1, "build": 2}[k["kind"]], k["target"] or ""))
            if R:
                R.shuffle(kinds)
            nd.append(dict(name=ext, pkg=ids[q], dep_kinds=kinds))
        feats = list(p["rf"])
        if R:
            R.shuffle(nd)
            R.shuffle(feats)
        nodes.append(dict(id=ids[i], dependencies=[x["pkg"] for x in nd], deps=nd, features=feats))
    if R:
        R.shuffle(nodes)
    members = [ids[i] for i in live if pk[i]["member"]]
    return dict(packages=packages, workspace_members=members, workspace_default_members=members,
                resolve=dict(nodes=nodes, root=ids[w["root"]] if w["root"] is not None else None),
                target_directory=w["wsroot"] + "/target", version=1, workspace_root=w["wsroot"], metadata=None)


def strip(r, w, md):
    """drops features from packages of crates.io in md; returns an index that has them"""
    data = {}
    for p in md["packages"]:
        if p["source"] != CRATES_IO or r.random() < 0.15:
            continue
        full = p["features"]
        # crates published by cargo < 1.60 have no implicit features in the index
        old = r.random() < 0.5
        said = {x for f, v in full.items() for x in v if f != x}
        ix = {f: v for f, v in full.items() if not (old and v == ["dep:" + f] and f in said)}
        keep = r.choice([0, 0.3, 0.8])
        p["features"] = {f: v for f, v in full.items() if r.random() < keep}
        data.setdefault(p["name"], []).append(dict(version=p["version"], features=ix))
    for p in w["pkgs"]:
        # other versions, and packages of the same name from elsewhere, are none of the index's business
        have = {v["version"] for v in data.get(p["name"], [])} | {q["ver"] for q in w["pkgs"] if q["name"] == p["name"] and q["kind"] == "crates"}
        for v in (p["ver"], r.choice(VERS)):
            if v not in have and r.random() < 0.5:
                data.setdefault(p["name"], []).append(dict(version=v, features={f: ["dep:" + f] for f in r.sample(FNAMES, 2)}))
                have.add(v)
    for v in data.values():
        r.shuffle(v)
    if r.random() < 0.3:
        data["serde_unknown"] = None
    return data


def ids_of(w, opaque=False):
    return [pkgid(w["pkgs"][i], opaque) for i in w["live"]]


def reads(name, human):
    """a name as cargo resolved it reads like one written in a manifest"""
    return len(name) == len(human) and all(a == b or a == "_" and b == "-" for a, b in zip(name, human))


NOAST = {"t": "none", "f": "", "c": []}


def spec_view(w):
    num, pk = w["num"], w["pkgs"]
    out = []
    for i in w["live"]:
        p = pk[i]
        nd = sorted({(num[d["q"]], norm(d["toml"]) if d["ren"] and d["q"] != i else pk[d["q"]]["lib"], pk[d["q"]]["name"])
                     for d in p["deps"] if d["linked"]})

        def item(x):
            k, t, g = items(x)
            fm = next((j for j, ext, name in nd if reads(ext, t) or reads(name, t)), 0) if t else 0
            return dict(k=k, d=t, g=g, fm=fm)
        out.append(dict(
            name=p["name"], ver=p["ver"], hassrc=p["source"] is not None, url=p["urlbase"], member=p["member"],
            dir=pkgdir(p),
            deps=[dict(toml=d["toml"], to=num.get(d["q"], 0) if d["linked"] else 0, kind=d["kind"], opt=d["opt"],
                       deff=d["deff"], feats=list(d["feats"]), cfg=cfg_view(d["ast"]) if d["ast"] and d["ast"]["t"]
                       != "triple" else (d["ast"] or NOAST), cfgs=d["target"] or "", linked=d["linked"])
                  for d in p["deps"]],
            feats=[dict(f=f, items=[item(x) for x in v]) for f, v in sorted(p["feats"].items())],
            rf=list(p["rf"])))
    return dict(n=len(out), pk=out, members=[num[i] for i in sorted(num, key=num.get) if pk[i]["member"]],
                root=num[w["root"]] if w["root"] is not None else 0, wsroot=w["wsroot"])


# --------------------------------------------------------------------------- builder configurations
NOCONF = dict(ign=[], ws=False, excl=[], incl=[], tg=[])


def gen_config(r, w, pk_kind=0.4, pk_targets=0.4, pk_excl=0.3, pk_incl=0.25, pk_ws=0.4, lexicon=False):
    """(calls on the builder, in order; each as the harness and as the specification read it)"""
    ops = []
    view = spec_view(w)
    if r.random() < pk_kind:
        for _ in range(r.choice([1, 1, 2, 3])):
            ops.append(dict(op="ignore", kind=r.choice(KINDS), scope=r.choice(["ws", "nonws", "all"])))
    if r.random() < pk_ws:
        ops.append(dict(op="workspace", v=r.random() < 0.8))
        if r.random() < 0.15:
            ops.append(dict(op="workspace", v=r.random() < 0.5))
    if r.random() < pk_excl:
        for _ in range(r.choice([1, 1, 1, 2])):
            specs = []
            for _ in range(r.choice([1, 1, 2])):
                specs.append(rand_spec(r, view))
            ops.append(dict(op="exclude", specs=[s["s"] for s in specs], sv=specs))
    if r.random() < pk_incl:
        paths = []
        for _ in range(r.choice([1, 1, 2])):
            k = r.random()
            if k < 0.15:
                d = view["wsroot"]
            elif k < 0.25:
                d = "/nowhere/at/all"
            elif k < 0.9:
                d = view["pk"][r.choice(view["members"]) - 1]["dir"]
            else:
                d = r.choice(view["pk"])["dir"]
            toml = r.random() < 0.6
            paths.append(dict(dir=d, s=d + "/Cargo.toml" if toml else d))
        if len(paths) == 1 and paths[0]["dir"] == view["wsroot"] and any(p["dir"] == view["wsroot"] for p in view["pk"]):
            # is that the root package, or the workspace? The documentation only says what a virtual manifest means
            paths.append(dict(dir="/nowhere/else", s="/nowhere/else"))
        if r.random() < 0.2:
            ops.append(dict(op="include", paths=[], pv=[]))
        if len(paths) > 1 and r.random() < 0.3:
            ops.append(dict(op="include", paths=[p["s"] for p in paths[1:]], pv=paths[1:]))
            paths = paths[:1]
        ops.append(dict(op="include", paths=[p["s"] for p in paths], pv=paths))
    if r.random() < pk_targets:
        ts = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            t = r.choice(sorted(TARGETS) + (sorted(CUSTOM) * 2 if lexicon else []) + ["x86_64-unknown-linux-gnu"] * 4 + ["x86_64-pc-windows-msvc"] * 3 +
                         ["x86_64-foo-bar", "custom.json", "armv6-unknown-special"])
            ts.append([t, [f for f in ["atomics", "sse4.2", "avx2", "neon"] if r.random() < 0.2] + [f for f in NEAR_FEATURES if r.random() < 0.04]])
            if not lexicon and r.random() < 0.06:
                ts[-1][0] = near_triple(r, t)
        if len(ts) > 1 and r.random() < 0.3:
            ops.append(dict(op="targets", t=ts[1:]))
            ts = ts[:1]
        ops.append(dict(op="targets", t=ts))
    r.shuffle(ops)
    return ops


def near_version(r, v):
    """a version that differs in one part"""
    core, plus, meta = v.partition("+")
    k = r.randrange(4)
    if k == 0:
        return core + "+" + ("b.1" if not plus else meta + "x")
    if k == 1:
        return core if plus else core + "+1"
    base, dash, pre = core.partition("-")
    if k == 2:
        return base + ("" if dash else "-rc.1")
    c = base.split(".")
    i = r.randrange(3)
    c[i] = str(int(c[i]) + 1)
    return ".".join(c)


def near_url(r, u):
    return r.choice([u + "x", u + ".git", u[:-1], u.replace("https://", "http://"), u.replace("https://", "ssh://"), u + "/a", u.replace("e", "E", 1),
                     "git+" + u, "sparse+" + u, u + "?branch=main"])


def rand_spec(r, view):
    p = r.choice(view["pk"])
    name, ver, url = p["name"], "", ""
    if r.random() < 0.15:
        name = r.choice(NAMES + [name.replace("-", "_"), name.replace("_", "-"), name.upper(), name[:-1] or "a", name + "a"])
    if r.random() < 0.45:
        ver = p["ver"] if r.random() < 0.6 else r.choice(VERS) if r.random() < .4 else near_version(r, p["ver"])
    if r.random() < 0.35:
        url = p["url"] if p["url"] and r.random() < 0.7 else r.choice(
            ["https://github.com/rust-lang/crates.io-index", "https://git.example/o/" + name, "https://git.example/o/repo"])
        if r.random() < 0.15:
            url = near_url(r, url)
        if url.endswith("/"):
            url = ""
    s = name
    if ver:
        s += r.choice(["@", ":"]) + ver
    if url:
        # the name may be left to the url
        if url.split("/")[-1] == name and r.random() < 0.5:
            s = ver
        s = url + ("#" + s if s else "")
        if url.split("://", 1)[1].count("/") == 0:
            s, url = name + ("@" + ver if ver else ""), ""
    return dict(s=s, name=name, hasver=bool(ver), ver=ver, hasurl=bool(url), url=url)


def config_view(ops, lexicon=False):
    c = dict(ign=[], ws=False, excl=[], incl=[], tg=[])
    for o in ops:
        if o["op"] == "ignore":
            c["ign"].append(dict(kind=o["kind"], scope=o["scope"]))
        elif o["op"] == "workspace":
            c["ws"] = o["v"]
        elif o["op"] == "exclude":
            c["excl"] += [{k: s[k] for k in ("name", "hasver", "ver", "hasurl", "url")} for s in o["sv"]]
        elif o["op"] == "include":
            c["incl"] += [p["dir"] for p in o["pv"]]
        elif o["op"] == "targets":
            for t, fs in o["t"]:
                facts = TARGETS.get(t, CUSTOM.get(t, []) if lexicon else [])
                c["tg"].append(dict(triple=t, known=t in TARGETS, facts=facts, feats=fs))
    return c
