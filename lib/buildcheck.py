"""Worlds + builder configurations, run through the real builder and validated against spec/TraceBuild."""
import collections, json, os, random, shutil, sys
sys.path.insert(0, os.path.dirname(__file__))
import common, gen


def make_case(cid, w, ops, r, opaque=False, shuffle=False, lexicon=False, pid=None):
    view = gen.spec_view(w)
    ids = gen.ids_of(w, opaque)
    conf = gen.config_view(ops, lexicon)
    getf = []
    for k, p in enumerate(view["pk"], 1):
        fs = {x["f"] for x in p["feats"]} | {"default"}
        for f in r.sample(sorted(fs), min(2, len(fs))):
            getf.append(dict(p=k, f=f))
        getf.append(dict(p=k, f=r.choice(gen.FNAMES + gen.TOML_RENAMES)))
    names = sorted({p["name"] for p in view["pk"]})[:6] + [r.choice(gen.NAMES)]
    reqs = []
    for _ in range(3):
        p = r.choice(view["pk"])
        q = rand_req(r, p["ver"])
        sat = [k for k, x in enumerate(view["pk"], 1) if x["name"] == p["name"] and sat_req(q, x["ver"])]
        reqs.append(dict(name=p["name"], req=q, sat=sat))
    md = gen.render(w, opaque, random.Random(r.random()) if shuffle else None)
    if pid == "C26":
        k = r.randint(0, len(ops))
        ops = ops[:k] + [dict(op="index", data=gen.strip(r, w, md))] + ops[k:]
    cmd = dict(id=cid, mode="build", ids=ids, md=md,
               ops=[{k: v for k, v in o.items() if k not in ("sv", "pv")} for o in ops], getf=getf, names=names, reqs=reqs, types=pid == "C28", plain=pid in ("C13", "C14", "C28"))
    return cmd, dict(id=cid, w=view, c=conf)


def rand_req(r, v):
    core = v.split("+")[0].split("-")[0]
    a, b, c = core.split(".")
    return r.choice(["*", "=" + v.split("+")[0], ">=" + core, "<" + core, f">={a}.{b}"])


def sat_req(q, v):
    """semver's rules for the shapes of requirement made above"""
    (maj, rel, pre) = gen.vkey(v)
    def pv(s):
        c, _, p = s.partition("-")
        x = [int(t) for t in c.split(".")]
        return tuple(x + [0] * (3 - len(x))), p
    if q == "*":
        return rel
    op = q[:2] if q[:2] in (">=",) else q[0]
    t, p = pv(q[len(op):])
    if not rel:
        if not (p and t == maj):
            return False
        return op == "=" and p == pre or op == ">=" and p <= pre
    if op == "=":
        return not p and maj == t
    if op == ">=":
        return maj >= t
    return maj < t or False


def run(cases, binary, d, heap="6g", timeout=800):
    """cases: [(cmd, rec)] -> (fails, done, recs, generated, distinct)"""
    import buildprops
    disks = [c["disk"] for c, _ in cases if "disk" in c]
    for x in disks:
        buildprops.make_disk(x)
    obs = common.run_harness(binary, [c for c, _ in cases], d)
    for x in disks:
        shutil.rmtree(x["base"])
    tr = os.path.join(d, "trace.ndjson")
    empty = dict(status="", msg="", filtered=[], altered=[], indexreq=[], len=0, krates=[], order=[], feats=[], fnodes=[], dep=[],
                 pf=[], ff=[], adj=[], map=[], dd=[], dt=[], gd=[], lookup=[], getf=[], wm=[], byname=[], search=[],
                 kf=dict(normal=[], build=[], dev=[]), wsroot="", odd=[])
    with open(tr, "w") as f:
        for (c, rec), o in zip(cases, obs):
            oo = dict(empty)
            oo.update(o)
            rec["o"] = oo
            f.write(json.dumps(rec) + "\n")
    out, g, dist = common.tlc("TraceBuild", d, trace=tr, heap=heap, timeout=timeout)
    fails, done = common.tlc_lines(out)
    if {x["id"] for x in done} != {r["id"] for _, r in cases}:
        raise common.ToolError("TLC judged %d of %d records" % (len(done), len(cases)))
    return fails, done, g, dist


def check_resolution(worlds, d):
    """the generator's resolution of the worlds is that of spec/CargoResolve.tla"""
    tr = os.path.join(d, "resolve.ndjson")
    with open(tr, "w") as f:
        for k, w in enumerate(worlds):
            pk = [dict(member=p["member"], req=p["req"],
                       deps=[dict(toml=x["toml"], to=x["q"] + 1, kind=x["kind"], opt=x["opt"], deff=x["deff"], feats=x["feats"]) for x in p["deps"]],
                       feats=[dict(f=n, items=[dict(zip("kdg", gen.items(x))) for x in v]) for n, v in p["feats"].items()]) for p in w["pkgs"]]
            f.write(json.dumps(dict(id=k, m=dict(pk=pk), live=[i + 1 for i in w["live"]], rf=[p["rf"] for p in w["pkgs"]],
                                    linked=[[x["linked"] for x in p["deps"]] for p in w["pkgs"]])) + "\n")
    out, g, dist = common.tlc("TraceResolve", d, trace=tr)
    fails, done = common.tlc_lines(out)
    if fails or len(done) != len(worlds):
        raise common.ToolError("the generator does not resolve as CargoResolve says: " + json.dumps(fails[:3]))
    return g, dist


if __name__ == "__main__":
    seed, n = int(sys.argv[1]), int(sys.argv[2])
    prof = json.loads(sys.argv[3]) if len(sys.argv) > 3 else {}
    r = random.Random(seed)
    b = common.build_harness()
    d = common.scratch("dev")
    cases = []
    for i in range(n):
        w = gen.gen_world(r, prof)
        ops = gen.gen_config(r, w)
        cases.append(make_case(i, w, ops, r, opaque=r.random() < 0.3, shuffle=r.random() < 0.3))
    import time
    t = time.time()
    fails, done, g, dist = run(cases, b, d)
    print("time", time.time() - t, "states", g, dist)
    c = collections.Counter(f["label"] for f in fails)
    print(len(done), "judged;", sum(1 for x in done if x["bad"]), "bad", dict(c))
    print("known", collections.Counter(k for x in done for k in x["known"]))
    print("status", collections.Counter(json.loads(l)["o"]["status"] for l in open(d + "/trace.ndjson")))
    seen = collections.Counter()
    for f in fails:
        seen[f["label"]] += 1
        if seen[f["label"]] <= 2:
            print(f["id"], f["label"], f["detail"][:300])
