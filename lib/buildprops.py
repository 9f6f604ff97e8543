"""The properties that are decided by running worlds through the real builder: what worlds and configurations each
check explores, which disagreements with the specification break it, and what makes a case non-trivial for it."""
import os, random, shutil
import buildcheck, common, gen

STRUCT = ["krates", "krates.once", "features", "edges", "edges.feature", "mapping", "report", "report.once",
          "report.partition", "status", "root.none", "report.none"]


def has(c, *k):
    return any(c[x] for x in k)


def conf_only(**kw):
    base = dict(pk_kind=0, pk_targets=0, pk_excl=0, pk_incl=0, pk_ws=0.2)
    base.update(kw)
    return base


def nt_kind(cmd, rec):
    w, c = rec["w"], rec["c"]
    return any(d["linked"] and d["kind"] == x["kind"] and (x["scope"] == "all" or (x["scope"] == "ws") == p["member"])
               for x in c["ign"] for p in w["pk"] for d in p["deps"])


def nt_target(cmd, rec):
    return any(d["linked"] and d["cfg"]["t"] != "none" for p in rec["w"]["pk"] for d in p["deps"])


def nt_excl(cmd, rec):
    return any(s["name"] == p["name"] for s in rec["c"]["excl"] for p in rec["w"]["pk"])


def nt_roots(cmd, rec):
    return len(rec["w"]["members"]) > 1


def nt_opt(cmd, rec):
    return any(d["linked"] and d["opt"] for p in rec["w"]["pk"] for d in p["deps"])


def nt_feat(cmd, rec):
    o = rec["o"]
    return any(len(f) > 0 for f in o["feats"])


def nt_edges(cmd, rec):
    o = rec["o"]
    return len({(e["p"], e["q"]) for e in o["dep"]}) < len(o["dep"])


def nt_links(cmd, rec):
    return any(e["h"] != "" for e in rec["o"]["ff"])


def nt_filtered(cmd, rec):
    return len(rec["o"]["filtered"]) > 0


def nt_map(cmd, rec):
    return any(0 in m and any(m) for m in rec["o"]["map"])


def nt_dups(cmd, rec):
    n = [p["name"] for p in rec["w"]["pk"]]
    return len(set(n)) < len(n)


def nt_big(cmd, rec):
    return len(rec["o"]["krates"]) >= 3


def nt_kf(cmd, rec):
    k = rec["o"]["kf"]
    return len(set(map(len, k.values()))) > 1


# id -> (labels, world profiles, configuration profiles, non-trivial, rule)
PROPS = {
    "C01": (["krates", "krates.once", "status", "root.none"], [{}, dict(npkg=(4, 14))], [{}, dict(pk_kind=.8, pk_targets=.8)], nt_big,
            "at least three crates in the graph"),
    "C02": (["report", "report.once", "report.partition", "report.unaltered", "report.none", "status", "krates.once"],
            [{}, dict(p_multiver=.7)], [dict(pk_kind=.8, pk_targets=.8, pk_excl=.6, pk_incl=.5)], nt_filtered,
            "at least one package is filtered"),
    "C03": (STRUCT, [dict(p_kind=(.4, .3, .3), p_multi=.6, p_target=.1, p_cycle=.35)], [conf_only(pk_kind=1)], nt_kind,
            "a linked dependency has an ignored kind in the scope"),
    "C04": (STRUCT, [dict(p_target=.85, p_multi=.6)], [conf_only(pk_targets=.85)], nt_target,
            "a linked dependency is target specific"),
    "C05": (STRUCT, [dict(p_multiver=.6, p_git=.25, p_alt=.2)], [conf_only(pk_excl=1)], nt_excl,
            "an exclusion names a package of the world"),
    "C06": (STRUCT + ["members"], [dict(members=(2, 5), p_atroot=.3, p_deps=.35)], [conf_only(pk_incl=.6, pk_ws=.6, pk_excl=.1)], nt_roots,
            "more than one workspace member"),
    "C07": (STRUCT + ["lookup.features"], [dict(p_opt=.8, p_weak=.6, p_strong=.5, p_feat=.95), dict(p_opt=.7, p_multi=.7, p_weak=.6)],
            [conf_only(), conf_only(pk_kind=.3, pk_targets=.3)], nt_opt, "a linked dependency is optional"),
    "C08": (["features", "lookup.features", "status", "edges.feature"], [dict(p_feat=1, p_strong=.6, p_weak=.5), {}], [{}, conf_only()], nt_feat,
            "some crate has enabled features"),
    "C09": (["edges", "edges.once", "edges.feature", "edges.feature.once", "status", "odd:edge", "odd:get_deps"], [dict(p_multi=.8, p_target=.5, p_rename=.35), {}], [{}, conf_only()], nt_edges,
            "two edges join the same pair of crates"),
    "C10": (["links.once", "fnodes", "fnodes.once", "fnodes.stray", "links.own", "links.missing", "links.extra", "status"],
            [dict(p_feat=1, p_strong=.6), {}], [{}, conf_only()], nt_links, "a feature links to another feature"),
    "C11": (["mapping", "status", "odd:resolved_dependency"], [dict(p_multi=.7, p_rename=.4, p_kindver=.6, p_overlap=.5, p_multiver=.7, p_librename=.3, p_patch=.3),
                                     dict(p_git=.4, p_path=.3, p_specialbranch=.6),
                                     dict(p_git=.6, p_gitname=0, p_multiver=.8, p_librename=.5, p_rename=.5, p_opt=.6, members=(1, 1), npkg=(4, 7))], [{}, conf_only()], nt_map,
            "some declared dependencies of a crate are resolved and some are not"),
    "C12": (["ddeps", "ddeps.once", "ddependents", "ddependents.once", "status", "odd:direct_"], [dict(p_multi=.6), dict(p_multi=.6, p_strong=.6, p_feat=1)],
            [{}, conf_only()], nt_big, "at least three crates in the graph"),
    "C13": (["plain.status", "plain.index", "lookup", "lookup.features", "getnode", "status", "odd:get_node", "odd:node_for", "odd:index", "odd:node id", "odd:unknown", "odd:after a feature"],
            [dict(p_multiver=.8), {}], [{}], nt_dups, "several packages share a name"),
    "C14": (["plain.status", "plain.byname", "plain.search", "plain.members", "byname", "search", "order", "members", "wsroot", "status", "krates.once", "odd:by_name", "odd:search"], [dict(p_multiver=.8, npkg=(3, 12)), {}], [{}], nt_dups,
            "several packages share a name"),
    "C15": (["kfilter", "status"], [dict(p_kind=(.4, .35, .25), p_multi=.5, p_cycle=.4, p_opt=.2), dict(p_kind=(.4, .3, .3), p_multi=.2, p_feat=1, members=(1, 4))],
            [conf_only(), {}], nt_kf, "filtering different kinds leaves different numbers of crates"),
    "C16": (STRUCT + ["members", "wsroot", "order", "fnodes", "links.own", "links.missing", "links.extra", "ddeps", "ddependents", "lookup", "lookup.features",
                      "getnode", "byname", "search", "kfilter", "report.unaltered"], [{}, dict(npkg=(4, 10), p_multi=.5)], [{}, conf_only(pk_kind=.3, pk_excl=.2)],
            nt_big, "at least three crates in the graph"),
    "C17": (["status", "root.none"], [dict(npkg=(1, 40), p_deps=.15, members=(1, 8)), dict(npkg=(1, 3), members=(1, 3), p_deps=.9, p_cycle=.8, p_selfdev=.5),
                         dict(p_multiver=.9, npkg=(6, 14), p_rename=.5, p_kindver=.8, p_librename=.4), dict(p_feat=1, p_strong=1, p_weak=1, p_opt=.9)],
            [{}, dict(pk_kind=.9, pk_targets=.9, pk_excl=.8, pk_incl=.6)], nt_big, "at least three crates in the graph"),
    "C26": (STRUCT, [dict(p_feat=1, p_opt=.7, p_git=.05, p_path=.05, members=(1, 2)), dict(p_feat=1, p_weak=.6, p_strong=.6, p_multiver=.6)], [conf_only(), {}],
            nt_feat, "some crate has enabled features"),
    "C28": (["types.status", "types.krates", "types.features", "types.nodes", "types.mapping", "types.edges", "types.queries", "types.made", "types.links",
             "types.filtered", "plain.status", "plain.krates", "plain.index", "plain.altered", "plain.members", "plain.byname", "plain.search", "plain.queries", "status"], [{}, dict(p_multi=.6, p_feat=1)], [{}, conf_only(pk_kind=.4, pk_excl=.3)], nt_big, "at least three crates in the graph"),
}


# the families of spec/MCBuild.tla whose workspaces are replayed for each property
FAMILIES = {
    "C01": ["roots", "kinds", "mixed"], "C02": ["roots", "sources"], "C03": ["kinds", "mixed"], "C04": ["targets", "mixed"], "C05": ["roots", "names", "sources"],
    "C06": ["roots", "members"], "C07": ["features", "mixed"], "C08": ["features", "names", "members"], "C09": ["kinds", "names", "mixed"],
    "C10": ["features", "members"], "C11": ["names", "sources", "mixed"], "C12": ["kinds", "members"], "C13": ["names", "sources"], "C14": ["names", "roots"],
    "C15": ["kinds", "members"], "C16": ["names", "members"], "C17": ["features", "names"], "C26": ["features"], "C28": ["kinds", "mixed"]}


def breaks(labels, f):
    if f["label"] in labels:
        return True
    if f["label"] == "odd":
        return any(l[4:] in f["detail"] for l in labels if l.startswith("odd:"))
    return False


def cases(pid, seed, n, lexicon=False, worlds_out=None):
    gen.only_of_triple = lexicon
    labels, worlds, confs, nt, rule = PROPS[pid]
    r = random.Random(f"{pid}/{seed}/{lexicon}")
    out = []
    i = 0
    while len(out) < n:
        disk = os.path.join(common.WORK, "disk", f"{pid}-{len(out)}") if pid == "C06" and len(out) % 3 == 1 else None
        wp, cp = worlds[i % len(worlds)], confs[(i // len(worlds)) % len(confs)]
        i += 1
        if not disk and r.random() < .3:
            # every check also sees what the others look at
            _, ws, cs, _, _ = PROPS[r.choice(sorted(PROPS))]
            wp, cp = r.choice(ws), r.choice(cs)
        w = gen.gen_world(r, wp, base=disk + "/ws" if disk else "/w")
        if worlds_out is not None:
            worlds_out.append(w)
        ops = gen.gen_config(r, w, lexicon=lexicon, **cp)
        if pid == "C16":
            # one world and one configuration, said in several ways
            for opaque in (False, True):
                for shuffle in (False, True, True):
                    out.append(buildcheck.make_case(len(out), w, ops, r, opaque, shuffle))
                    ops = commute(r, ops)
            continue
        cmd, rec = buildcheck.make_case(len(out), w, ops, r, opaque=r.random() < .25, shuffle=r.random() < .3, lexicon=lexicon, pid=pid)
        if disk:
            on_disk(r, disk, cmd, rec)
        elif r.random() < .06 and not any(o["op"] == "include" for o in ops):
            on_windows(cmd, rec)
        if pid == "C17" and r.random() < .5:
            damage(r, cmd, rec)
        out.append((cmd, rec))
    return out


def on_windows(cmd, rec):
    """what cargo prints there"""
    def path(x):
        return "C:" + x.replace("/", "\\")

    def walk(x, k=""):
        if isinstance(x, dict):
            return {y: walk(v, y) for y, v in x.items()}
        if isinstance(x, list):
            return [walk(v, k) for v in x]
        if not isinstance(x, str):
            return x
        if k in ("manifest_path", "path", "src_path", "workspace_root", "target_directory") and x.startswith("/"):
            return path(x)
        return x.replace("path+file:///", "path+file:///C:/")
    cmd["md"] = walk(cmd["md"])
    cmd["ids"] = walk(cmd["ids"])
    rec["w"]["wsroot"] = path(rec["w"]["wsroot"])


def on_disk(r, base, cmd, rec):
    """the members are really there, and the paths to include name them in all the ways a path can"""
    dirs = {p["dir"] for p in rec["w"]["pk"] if p["dir"].startswith(base)} | {rec["w"]["wsroot"], base + "/other"}
    links, n = {}, 0
    # cargo keeps a link in the path of the manifest it is given
    real = "real" if r.random() < .4 else ""
    for o in cmd["ops"]:
        if o["op"] != "include":
            continue
        ps = []
        for s in o["paths"]:
            d, toml = (s[:-len("/Cargo.toml")], True) if s.endswith("/Cargo.toml") else (s, False)
            if d in dirs:
                k = r.choice(["as is", "dots", "up", "link", "relative", "slash", "file link", "parent link"] + ["real"] * (real != "") * 2)
                if k == "dots":
                    d = d.replace(base, base + "/./", 1)
                elif k == "up":
                    d = base + "/other/../" + d[len(base) + 1:]
                elif k == "link":
                    n += 1
                    links[f"{base}/l{n}"] = d
                    d = f"{base}/l{n}"
                elif k == "parent link":
                    n += 1
                    links[f"{base}/other/l{n}"] = ".."
                    d = f"{base}/other/l{n}/" + d[len(base) + 1:]
                elif k == "real" and (d + "/").startswith(base + "/ws/"):
                    d = base + "/real" + d[len(base) + 3:]
                elif k == "relative":
                    d = os.path.relpath(d, common.VERIF)
                elif k == "slash":
                    d += "/"
                elif k == "file link":
                    n += 1
                    links[f"{base}/m{n}.toml"] = d + "/Cargo.toml"
                    d, toml = f"{base}/m{n}.toml", False
            ps.append(d + "/Cargo.toml" if toml else d)
        o["paths"] = ps
    cmd["disk"] = dict(base=base, dirs=sorted(dirs), links=links, real=real)


def make_disk(x):
    """creates what on_disk planned, under /verif/work"""
    assert x["base"].startswith(os.path.join(common.WORK, "disk") + "/")
    if os.path.isdir(x["base"]):
        shutil.rmtree(x["base"])
    os.makedirs(x["base"])
    if x["real"]:
        os.mkdir(x["base"] + "/" + x["real"])
        os.symlink(x["real"], x["base"] + "/ws")
    for d in x["dirs"]:
        os.makedirs(d, exist_ok=True)
        with open(d + "/Cargo.toml", "w"):
            pass
    for l, t in x["links"].items():
        os.symlink(t, l)


def commute(r, ops):
    """another order of the calls that means the same: `workspace` overwrites, everything else adds up"""
    ops = list(ops)
    for _ in range(8):
        if len(ops) > 1:
            k = r.randrange(len(ops) - 1)
            if not ops[k]["op"] == ops[k + 1]["op"] == "workspace":
                ops[k], ops[k + 1] = ops[k + 1], ops[k]
    return ops


def damage(r, cmd, rec):
    """Documents cargo does print although they do not quite fit together: resolved features that no package declares (see
    cargo issue 11319), declared features that name nothing."""
    view = rec["w"]
    byid = {p["id"]: p for p in cmd["md"]["packages"]}
    for rid, p in zip(cmd["ids"], view["pk"]):
        if r.random() < .4 and byid[rid]["source"]:
            fs = byid[rid]["features"]
            for f in list(fs):
                if r.random() < .4:
                    del fs[f]
            p["feats"] = [x for x in p["feats"] if x["f"] in fs]
