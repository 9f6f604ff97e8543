"""Large workspaces of regular shapes (lib/shapes.py), judged by the closed forms of spec/BigWorlds.tla."""
import json, os, random
import common, gen, shapes

# what each check looks at; C17 alone runs them at full size
LABELS = {"C01": ["krates", "status"], "C02": ["report", "status"], "C08": ["features", "status"], "C09": ["edges", "edges.feature", "status"],
          "C10": ["fnodes", "links.extra", "links.missing", "status"], "C11": ["mapping", "status"], "C12": ["ddeps", "ddependents", "status"],
          "C15": ["kfilter", "status"], "C17": ["status", "krates"]}


def cases(pid, tier, seed):
    r = random.Random(f"{pid}/{seed}/big")
    out = []
    for shape, sizes in shapes.SHAPES.items():
        for n in sorted({2, 3, 4, 5, r.randint(6, 12)}):
            out.append(dict(id=len(out), shape=shape, n=n, small=True))
        top = sizes[0 if tier == "quick" else 1] if pid == "C17" else sizes[0] // 4 if tier == "quick" else sizes[0]
        out.append(dict(id=len(out), shape=shape, n=top - r.randint(0, top // 10), small=False))
    return out


def count(o):
    if o["status"] != "ok":
        return dict(status=o["status"], msg=o.get("msg", ""), k=[0, 0], filtered=0, f=[0, 0], feats=0, dep=[0, 0], q=[0, 0], ff=[0, 0], map=0, dd=[0, 0],
                    dt=[0, 0], kf=dict(normal=0, build=0, dev=0))
    both = lambda xs: [len(xs), len({json.dumps(x) for x in xs})]
    pairs = lambda xs: [sum(map(len, xs)), sum(len(set(x)) for x in xs)]
    return dict(status="ok", msg="", k=both(o["krates"]), filtered=len(o["filtered"]), f=both(o["fnodes"]), feats=sum(map(len, o["feats"])), dep=both(o["dep"]),
                q=both(o["pf"]), ff=both(o["ff"]), map=sum(1 for m in o["map"] for x in m if x), dd=pairs(o["dd"]), dt=pairs(o["dt"]),
                kf={k: len(set(v)) for k, v in o["kf"].items()})


def cmd(c):
    w = shapes.world(c["shape"], c["n"])
    return dict(id=c["id"], mode="build", ids=gen.ids_of(w), md=gen.render(w), ops=[], getf=[], names=[], reqs=[], types=False)


def judge(cs, binary, d):
    """-> (fails, generated, distinct)"""
    large = [c for c in cs if not c["small"]]
    # one at a time: how long one takes says something
    obs = {}
    for c in large:
        o = obs[c["id"]] = common.run_harness(binary, [cmd(c)], d, tag="big", timeout=60, again=40)[0]
        if o["status"] == "panic":
            cs = [x for x in cs if x["small"] or x["id"] in obs]
            break
    tr = os.path.join(d, "big.ndjson")
    with open(tr, "w") as f:
        for c in cs:
            rec = dict(c)
            if c["small"]:
                rec["w"] = gen.spec_view(shapes.world(c["shape"], c["n"]))
            else:
                rec["o"] = c["o"] = count(obs[c["id"]])
            f.write(json.dumps(rec) + "\n")
    out, g, dist = common.tlc("TraceBig", d, trace=tr)
    fails, done = common.tlc_lines(out)
    if len(done) != len(cs):
        raise common.ToolError("TLC judged %d of %d large workspaces" % (len(done), len(cs)))
    for f in fails:
        if f["label"] == "closed form":
            raise common.ToolError("BigWorlds and KratesCore disagree: " + json.dumps(f))
    return fails, g, dist
