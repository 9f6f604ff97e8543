"""The small workspaces that TLC enumerates from spec/MCBuild.tla, as worlds of the generator, to be replayed into the
real builder.  What the specification of cargo (CargoResolve) resolved is compared with what gen.solve does."""
import json, os, random
import common, gen

SIZES = dict(quick="small", thorough="mid")


def cases(family, tier, d, explore=True):
    """-> ([(case)], generated, distinct): every workspace and configuration of the family, after TLC checked the
    specification's own properties on them"""
    size = SIZES[tier]
    explore = explore and not (family == "features" and tier != "quick")
    out, g, dist = common.tlc("MCBuild", d, env=dict(FAMILY=family, SIZE=size, EMIT="1", EXPLORE="1" if explore else "0", TARGETS=os.path.join(common.SPEC, "targets.json")), heap="12g", timeout=780)
    cs = sorted({l for l in out.split("\n") if l.startswith('"@CASE@')})
    if not cs:
        raise common.ToolError("MCBuild enumerated nothing")
    return cs, g, dist


def load(line):
    return json.loads(json.loads(line)[6:])


def tostr(e):
    t = e["t"]
    if t == "p":
        k, eq, v = e["f"].partition("=")
        return f'{k} = "{v}"' if eq else k
    if t == "tf":
        return f'target_feature = "{e["f"]}"'
    if t == "d":
        return "debug_assertions"
    if t == "o":
        return 'feature = "std"'
    return f"{t}({', '.join(tostr(c) for c in e['c'])})"


def ast(e):
    if e["t"] in ("p", "tf", "o", "d"):
        return dict(t=e["t"], f=e["f"], s=tostr(e))
    return dict(t=e["t"], c=[ast(c) for c in e["c"]])


def item(x):
    return dict(dep="dep:" + x["d"], strong=x["d"] + "/" + x["g"], weak=x["d"] + "?/" + x["g"], simple=x["g"])[x["k"]]


def world(case):
    """a world of the generator"""
    w = case["w"]
    pkgs = []
    for p in w["pk"]:
        x = dict(name=p["name"], ver=p["ver"], kind="path" if not p["hassrc"] else "git" if "git.example" in p["url"] else "crates", member=p["member"], req=[f for f in p["req"] if f in {x["f"] for x in p["feats"]}],
                 lib=gen.norm(p["name"]), libkind="lib", deps=[], feats={f["f"]: [item(i) for i in f["items"]] for f in p["feats"]})
        if x["kind"] == "git":
            h = f"{abs(gen.hash_(p['url'])):040x}"[:40]
            x.update(kidsrc="git+" + p["url"], idsrc="git+" + p["url"], source=f"git+{p['url']}#{h}", hash=h, declsrc="git+" + p["url"], urlbase=p["url"], repo=p["name"])
        elif x["kind"] == "path":
            x.update(dir=p["dir"], kidsrc="path+file://" + p["dir"], source=None, declsrc=None, urlbase="")
        else:
            x.update(kidsrc=gen.CRATES_IO, source=gen.CRATES_IO, declsrc=gen.CRATES_IO, urlbase=gen.CRATES_IO.split("+", 1)[1])
        pkgs.append(x)
    for p, x in zip(w["pk"], pkgs):
        for d in p["deps"]:
            q = pkgs[d["to"] - 1]
            t, a = None, None
            if d["cfg"]["t"] == "triple":
                t, a = d["cfg"]["f"], dict(d["cfg"])
            elif d["cfg"]["t"] != "none":
                t, a = f"cfg({tostr(d['cfg'])})", ast(d["cfg"])
            x["deps"].append(dict(toml=d["toml"], ren=d["ren"], q=d["to"] - 1, kind=d["kind"], opt=d["opt"], deff=d["deff"], feats=list(d["feats"]),
                                  target=t, ast=a, req="=" + q["ver"] if q["kind"] == "crates" else "*", src=q["declsrc"], path=q.get("dir")))
    out = gen.solve(dict(pkgs=pkgs, root=w["root"] - 1 if w["root"] else None, wsroot=w["wsroot"]))
    if {i + 1 for i in out["live"]} != set(case["live"]):
        raise common.ToolError("CargoResolve and gen.solve resolve different packages: " + json.dumps(case))
    for i in out["live"]:
        if (out["pkgs"][i]["rf"] != sorted(w["pk"][i]["rf"])
                or [d["linked"] for d in out["pkgs"][i]["deps"]] != [d["linked"] for d in w["pk"][i]["deps"]]):
            raise common.ToolError("CargoResolve and gen.solve resolve differently: " + json.dumps(case))
    return out


def calls(r, c):
    ops = [dict(op="ignore", kind=x["kind"], scope=x["scope"]) for x in c["ign"]]
    if c["ws"] or r.random() < .1:
        ops.append(dict(op="workspace", v=c["ws"]))
    for s in c["excl"]:
        v = dict(s, s=(s["url"] + "#" if s["hasurl"] else "") + s["name"] + (r.choice("@:") + s["ver"] if s["hasver"] else ""))
        ops.append(dict(op="exclude", specs=[v["s"]], sv=[v]))
    if c["incl"]:
        pv = [dict(dir=x, s=x + r.choice(["", "/Cargo.toml"])) for x in c["incl"]]
        ops.append(dict(op="include", paths=[x["s"] for x in pv], pv=pv))
    if c["tg"]:
        ops.append(dict(op="targets", t=[[t["triple"], t["feats"]] for t in c["tg"]]))
    return ops
