"""Cross-check of the world generator against the real cargo (offline): materialises generated worlds as
manifests (path packages plus a directory source standing in for crates.io), runs `cargo metadata`, and compares
with what `gen.render` printed.  A development aid: it is what entitles the checks to treat generated documents as
documents cargo could have printed."""
import json, os, random, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(__file__))
import gen

PROF = dict(p_git=0, p_path=0.25, p_alt=0, p_patch=0, p_overlap=0)


def tomlstr(s):
    return json.dumps(s)


def manifest(w, i, root):
    p = w["pkgs"][i]
    o = [f'[package]\nname = "{p["name"]}"\nversion = "{p["ver"]}"\nedition = "2021"\nautolib=false\n']
    o.append(f'[lib]\nname = "{p["lib"]}"\npath = "src/lib.rs"')
    if p["libkind"] == "proc-macro":
        o.append("proc-macro = true")
    elif p["libkind"] != "lib":
        o.append("crate-type = " + json.dumps(p["libkind"].split("+")))
    o.append("[features]")
    for f, v in p["feats"].items():
        # implicit features are not written down
        opts = {d["toml"] for d in p["deps"] if d["opt"]}
        if f in opts and f not in p["explicit_dep"]:
            continue
        o.append(f"{tomlstr(f)} = {json.dumps(v)}")
    tables = {}
    for d in p["deps"]:
        t = ("target." + (tomlstr(d["target"])) + "." if d["target"] else "") + \
            {"normal": "dependencies", "build": "build-dependencies", "dev": "dev-dependencies"}[d["kind"]]
        q = w["pkgs"][d["q"]]
        f = []
        if d["path"]:
            f.append(f"path = {tomlstr(root + d['path'])}")
        if d["req"] != "*" or not d["path"]:
            f.append(f"version = {tomlstr('=' + q['ver'].split('+')[0] if q['kind'] == 'crates' else d['req'])}")
        if d["ren"]:
            f.append(f"package = {tomlstr(q['name'])}")
        if d["opt"]:
            f.append("optional = true")
        if not d["deff"]:
            f.append("default-features = false")
        if d["feats"]:
            f.append("features = " + json.dumps(d["feats"]))
        tables.setdefault(t, []).append(f"{tomlstr(d['toml'])} = {{ {', '.join(f)} }}")
    for t, l in tables.items():
        o.append(f"[{t}]\n" + "\n".join(l))
    return "\n".join(o) + "\n"


def check(w, verbose=False):
    root = tempfile.mkdtemp(prefix="rc", dir="/tmp")
    try:
        os.makedirs(root + "/home/.cargo")
        os.makedirs(root + "/vendor")
        os.makedirs(root + "/w", exist_ok=True)
        open(root + "/home/.cargo/config.toml", "w").write(
            f'[source.crates-io]\nreplace-with="v"\n[source.v]\ndirectory="{root}/vendor"\n')
        for i, p in enumerate(w["pkgs"]):
            d = root + p["dir"] if p["kind"] == "path" else f'{root}/vendor/{p["name"]}-{p["ver"]}'
            os.makedirs(d + "/src")
            open(d + "/src/lib.rs", "w").write("")
            open(d + "/Cargo.toml", "w").write(manifest(w, i, root))
            if p["kind"] != "path":
                open(d + "/.cargo-checksum.json", "w").write('{"files":{},"package":"' + "0" * 64 + '"}')
        mem = [i for i, p in enumerate(w["pkgs"]) if p["member"]]
        open(root + "/w/Cargo.toml", "w").write('[workspace]\nresolver="2"\nmembers=' + json.dumps(
            [os.path.relpath(root + w["pkgs"][i]["dir"], root + "/w") for i in mem]) + "\n")
        env = dict(os.environ, CARGO_HOME=root + "/home/.cargo")
        args = ["cargo", "metadata", "--format-version", "1", "--offline", "--no-default-features"]
        fs = [f'{w["pkgs"][i]["name"]}/{f}' for i in mem for f in w["pkgs"][i]["req"]]
        if fs:
            args += ["--features", ",".join(fs)]
        r = subprocess.run(args, cwd=root + "/w", env=env, capture_output=True, text=True)
        if r.returncode:
            return "cargo: " + r.stderr[:1500]
        real = json.loads(r.stdout)
        mine = gen.render(w)
        strip = json.loads(json.dumps(mine))

        def canon(md, pre):
            s = json.dumps(md).replace(pre, "")
            md = json.loads(s)
            out = {}
            for p in md["packages"]:
                deps = sorted(json.dumps({k: v for k, v in d.items() if k not in ("req",)}, sort_keys=True)
                              for d in p["dependencies"])
                out[p["id"]] = dict(deps=deps, feats=p["features"], source=p["source"],
                                    lib=[(t["kind"], t["name"], t["crate_types"]) for t in p["targets"]])
            for n in md["resolve"]["nodes"]:
                out[n["id"]]["node"] = dict(features=n["features"], deps=sorted(
                    json.dumps(dict(name=d["name"], pkg=d["pkg"], dk=sorted(
                        json.dumps([k["kind"], k["target"]]) for k in d["dep_kinds"]))) for d in n["deps"]))
            return out
        a, b = canon(real, root), canon(strip, "\0")
        if a != b:
            msg = []
            for k in sorted(set(a) | set(b)):
                if a.get(k) != b.get(k):
                    x, y = a.get(k), b.get(k)
                    if x and y:
                        for kk in x:
                            if x[kk] != y.get(kk):
                                msg.append(f"{k}.{kk}:\n  real {x[kk]}\n  mine {y.get(kk)}")
                    else:
                        msg.append(f"{k}: real {x is not None} mine {y is not None}")
            return "differs\n" + "\n".join(msg)
        return None
    finally:
        if not verbose:
            shutil.rmtree(root)


if __name__ == "__main__":
    seed, n = int(sys.argv[1]), int(sys.argv[2])
    def ok(w):
        names = {p["name"] for p in w["pkgs"] if p["member"]}
        # `--features pkg/feat` would also mean the feature of a dependency called pkg
        return not any(d["toml"] in names for p in w["pkgs"] if p["member"] for d in p["deps"])
    from concurrent.futures import ThreadPoolExecutor
    ws = [gen.gen_world(random.Random(seed * 100003 + i), PROF) for i in range(n)]
    ws = [w for w in ws if ok(w)]
    n = len(ws)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(check, ws))
    bad = [(i, x) for i, x in enumerate(res) if x]
    for i, x in bad[:int(sys.argv[3]) if len(sys.argv) > 3 else 5]:
        print("== world", i, x)
    print(n, "worlds", len(bad), "bad;", sum(1 for _, x in bad if x.startswith("cargo")), "refused by cargo")
