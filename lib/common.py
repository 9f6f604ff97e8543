"""Building the harness, running it, running TLC, and the outcome protocol shared by every check."""
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
WORK = os.path.join(VERIF, "work")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class ToolError(Exception):
    pass


def build_harness(features=()):
    """Builds the harness (and with it /repo's current tree); returns the path of the binary."""
    tdir = os.path.join(HARNESS, "target" + ("-" + "-".join(features) if features else ""))
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"),
           "--target-dir", tdir]
    if features:
        cmd += ["--features", ",".join(features)]
    env = dict(os.environ)
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(cmd, capture_output=True, text=True, env=env)
    if r.returncode:
        raise ToolError("harness does not build:\n" + r.stderr[-4000:])
    return os.path.join(tdir, "debug", "kharness")


def scratch(name):
    d = os.path.join(WORK, name)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    return d


MEMORY = 10 << 30   # bytes of address space the harness may use: code that allocates without end ends the harness only


def run_harness(binary, cmds, d, tag="h", timeout=150, env=None, again=20):
    """The harness's answer to each of cmds. It survives panics of the code under test; if that ends or stalls the whole
    process the cases it was at are tried one by one, and those that do it again have panicked."""
    out = [None] * len(cmds)
    todo, losses = list(range(len(cmds))), 0
    while todo:
        begun, why = _harness(binary, cmds, todo, out, d, tag, timeout, env)
        todo = [i for i in todo if out[i] is None]
        if not todo:
            break
        if why is None:
            raise ToolError("harness did not answer everything")
        suspects = [i for i in todo if i in begun] or todo[:1]
        for i in suspects:
            _, w = _harness(binary, cmds, [i], out, d, tag, again, env)
            if out[i] is None:
                if w is None or "exited with 2" in w:
                    raise ToolError(w or "harness did not answer")
                out[i] = dict(id=cmds[i].get("id"), status="panic", msg="the process ended: " + w[:300])
                losses += 1
        todo = [i for i in todo if out[i] is None]
        if losses >= 8:
            for i in todo:
                out[i] = dict(id=cmds[i].get("id"), status="panic", msg="not run: too many cases before it ended the process")
            break
    return out


def _harness(binary, cmds, todo, out, d, tag, timeout, env):
    i, o = os.path.join(d, tag + ".in"), os.path.join(d, tag + ".out")
    with open(i, "w") as f:
        for k in todo:
            f.write(json.dumps(cmds[k]) + "\n")
    open(o, "w").close()
    why = None
    try:
        r = subprocess.run([binary, i, o], capture_output=True, text=True, errors="replace", timeout=timeout, env=env, cwd=VERIF,
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY)))
        if r.returncode:
            why = f"harness exited with {r.returncode}: {r.stderr[-2000:]}"
            if r.returncode == 2:
                raise ToolError(why)
    except subprocess.TimeoutExpired:
        why = "harness timed out"
    begun = set()
    for l in open(o):
        k, _, v = l.rstrip("\n").partition(" ")
        if v and l.endswith("\n"):
            out[todo[int(k)]] = json.loads(v)
        elif k:
            begun.add(todo[int(k)])
    return begun, why


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")
COV = re.compile(r"^<(\w+) line .*?>: (\d+):(\d+)", re.M)


def tlc(module, d, trace=None, cfg=None, timeout=800, workers=8, extra=(), env=None, heap="6g", coverage=False,
        ok=(0,), simulate=None):
    """Runs TLC; returns (output, generated, distinct)."""
    e = dict(os.environ)
    if trace:
        e["TRACE"] = trace
    e.update(env or {})
    meta = tempfile.mkdtemp(prefix="tlc", dir=d)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
           "-cp",
           JAR + ":" + ":".join(community()), "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-config", cfg or os.path.join(SPEC, module + ".cfg"), *extra]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd.append(os.path.join(SPEC, module + ".tla"))
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, encoding="utf-8", errors="replace", timeout=timeout, env=e, cwd=d)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    with open(os.path.join(d, module + ".tlc.log"), "w") as f:
        f.write(out + r.stderr)
    if r.returncode not in ok:
        tail = [l for l in out.split("\n") if "@FAIL@" not in l and "@DONE@" not in l]
        raise ToolError(f"TLC exited with {r.returncode} on {module}:\n" + "\n".join(tail)[-6000:] + r.stderr[-2000:])
    m = STATS.findall(out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return out, gen, dist


_comm = None


def community():
    global _comm
    if _comm is None:
        base = os.path.dirname(JAR)
        _comm = [os.path.join(base, f) for f in sorted(os.listdir(base)) if f.endswith(".jar") and "tla2tools" not in f]
    return _comm


def tlc_lines(out):
    """(failures, done) printed by a trace specification"""
    fails, done = [], []
    for l in out.split("\n"):
        if l.startswith('"@FAIL@') or l.startswith('"@DONE@'):
            s = json.loads(l)       # a TLA+ string is printed like a JSON string
            (fails if s.startswith("@FAIL@") else done).append(json.loads(s[6:]))
    return fails, done


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]
