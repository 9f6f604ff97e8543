"""What each check runs."""
import json, os
import random
import common, bigworlds, buildcheck, buildprops, mcworlds, miscprops

QUICK_N, THOROUGH_N, BATCH = 2000, 24000, 3000
QUICK_MC, THOROUGH_MC = 1500, 24000


class Tally:
    def __init__(self):
        self.violations, self.known, self.samples = [], set(), []
        self.states = self.trans = self.traces = self.evals = 0
        self.nontrivial = set()

    def tlc(self, generated, distinct):
        self.states += distinct
        self.trans += generated

    def coverage(self, rule, **more):
        return dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces,
                    evaluations=self.evals, distinct_nontrivial=len(self.nontrivial), rule=rule,
                    samples=self.samples[:3], **more)


def add_violation(t, kind, cmd, rec, why, **more):
    if len(t.violations) < 50:
        t.violations.append(dict(kind=kind, cmd=cmd, rec=rec, why=why, **more))


def judge_build(t, pid, cases, binary, d, nt, labels, **more):
    """runs cases through the builder and validates them; collects what breaks `labels`"""
    fails, done, g, dist = buildcheck.run(cases, binary, d)
    t.tlc(g, dist)
    byid = {}
    for f in fails:
        if labels is None or buildprops.breaks(labels, f):
            byid.setdefault(f["id"], []).append((f["label"], f["detail"]))
    for (cmd, rec), x in zip(cases, sorted(done, key=lambda x: x["id"])):
        t.evals += 1
        t.traces += 1
        o = rec["o"]
        if nt(cmd, rec):
            t.nontrivial.add(common.digest([rec["w"], rec["c"]]))
            if len(t.samples) < 3 and len(json.dumps(rec["w"])) < 6000 and o["status"] == "ok":
                t.samples.append(dict(world=rec["w"], calls=cmd["ops"], observed={k: o[k] for k in
                                      ("krates", "filtered", "feats", "dep", "map")}))
        if rec["id"] in byid:
            add_violation(t, "build", cmd, {k: rec[k] for k in ("w", "c", "o")}, byid[rec["id"]], **more)
    for x in done:
        t.known |= set(x["known"])


def findings(pid):
    p = os.path.join(common.VERIF, "KNOWN_FINDINGS.json")
    return [f for f in json.load(open(p))["findings"] if f["property"] == pid] if os.path.exists(p) else []


def witnesses(pid):
    return [json.load(open(os.path.join(common.VERIF, f["witness"]))) for f in findings(pid)]


def run_build(pid, tier, seed):
    labels, _, _, nt, rule = buildprops.PROPS[pid]
    t = Tally()
    binary = common.build_harness()
    d = common.scratch(pid)
    total = QUICK_N if tier == "quick" else THOROUGH_N
    done = 0
    while done < total and not t.violations:
        n = min(BATCH, total - done)
        ws = []
        cases = buildprops.cases(pid, f"{seed}.{done}", n, worlds_out=ws)
        t.tlc(*buildcheck.check_resolution(ws[:400] if tier == "quick" else ws, d))
        if done == 0:
            # the recorded witnesses of this property's known findings are always among the cases
            for w in witnesses(pid):
                w["cmd"]["id"] = w["rec"]["id"] = len(cases)
                cases.append((w["cmd"], w["rec"]))
        judge_build(t, pid, cases, binary, d, nt, labels)
        done += n
    enumerated = run_mc(pid, tier, seed, t, binary, d, nt, labels) if not t.violations else 0
    if pid in bigworlds.LABELS and not t.violations:
        run_big(pid, tier, seed, t, binary, d)
    if pid == "C04" and not t.violations:
        # the same with the crate's `targets` feature, which knows more targets
        binary = common.build_harness(["targets"])
        for k in range(0, total // 2, BATCH):
            judge_build(t, pid, buildprops.cases(pid, f"{seed}.{k}", min(BATCH, total // 2 - k), lexicon=True), binary, d, nt, labels, features=["targets"])
    return dict(level="model_checking", violations=t.violations, known=t.known,
                coverage=t.coverage("a generated or enumerated workspace with a builder configuration; non-trivial: " + rule, enumerated_by_tlc=enumerated),
                assumptions=ASSUME_BUILD)


def run_big(pid, tier, seed, t, binary, d):
    cs = bigworlds.cases(pid, tier, seed)
    fails, g, dist = bigworlds.judge(cs, binary, d)
    t.tlc(g, dist)
    t.evals += len(cs)
    t.traces += sum(1 for c in cs if not c["small"])
    byid = {}
    for f in fails:
        if f["label"] in bigworlds.LABELS[pid]:
            byid.setdefault(f["id"], []).append((f["label"], f["detail"]))
    for i, why in byid.items():
        t.violations.append(dict(kind="big", case={k: cs[i][k] for k in ("id", "shape", "n", "small")}, why=why))


def run_mc(pid, tier, seed, t, binary, d, nt, labels):
    """the small workspaces TLC enumerates, after it checked the specification on them"""
    r = random.Random(f"{pid}/{seed}/mc")
    total, most = 0, QUICK_MC if tier == "quick" else THOROUGH_MC
    fams = buildprops.FAMILIES[pid]
    for fam in fams:
        lines, g, dist = mcworlds.cases(fam, tier, d)
        t.tlc(g, dist)
        total += len(lines)
        n = most // len(fams)
        lines = r.sample(lines, n) if len(lines) > n else lines
        for k in range(0, len(lines), BATCH):
            cases, seen = [], set()
            for l in lines[k:k + BATCH]:
                c = mcworlds.load(l)
                w = mcworlds.world(c)
                h = common.digest([gen_view(w), c["c"]])
                if h in seen:
                    continue
                seen.add(h)
                cases.append(buildcheck.make_case(len(cases), w, mcworlds.calls(r, c["c"]), r, opaque=r.random() < .25, shuffle=r.random() < .3, pid=pid))
            judge_build(t, pid, cases, binary, d, nt, labels)
            if t.violations:
                return total
    return total


gen_view = buildcheck.gen.spec_view

ASSUME_BUILD = [
    "cargo's output is what lib/gen.py renders (cross-checked against the installed cargo by lib/realcargo.py)",
    "the harness reports what it reads through the public API"]


def run_misc(pid, tier, seed):
    t = Tally()
    binary = common.build_harness()
    d = common.scratch(pid)
    n = miscprops.run(pid, tier, seed, t, binary, d)
    return dict(level="model_checking", violations=t.violations, known=set(),
                coverage=t.coverage(miscprops.FAMILIES[pid][0].rule, enumerated_by_tlc=n), assumptions=["the harness reports what it reads through the public API"])


def run(pid, tier, seed):
    if pid == "C26":
        a = run_misc(pid, tier, seed)
        if a["violations"]:
            return a
        b = run_build(pid, tier, seed)
        for k, v in b["coverage"].items():
            a["coverage"][k] = a["coverage"][k] + v if isinstance(v, (int, list)) else a["coverage"][k] + "; and " + v
        return dict(a, violations=b["violations"], known=b["known"], assumptions=b["assumptions"])
    if pid in buildprops.PROPS:
        return run_build(pid, tier, seed)
    if pid in miscprops.FAMILIES:
        return run_misc(pid, tier, seed)
    raise common.ToolError("no such check: " + pid)


def replay(path):
    v = json.load(open(path))
    pid = v["property"]
    if v["kind"] == "build":
        binary = common.build_harness(v.get("features", ()))
        d = common.scratch("replay-run")
        rec = dict(v["rec"], id=v["cmd"]["id"])
        fails, done, _, _ = buildcheck.run([(v["cmd"], rec)], binary, d)
        labels = buildprops.PROPS[pid][0]
        bad = [f for f in fails if buildprops.breaks(labels, f)]
        for f in bad:
            print(f"  {f['label']}: {f['detail'][:1000]}")
        if bad:
            print(f"VIOLATION property={pid} replay={path}")
        return 1 if bad else 0
    if v["kind"] == "big":
        fails, _, _ = bigworlds.judge([dict(v["case"], id=0)], common.build_harness(), common.scratch("replay-run"))
        bad = [f for f in fails if f["label"] in bigworlds.LABELS[pid]]
        for f in bad:
            print(f"  {f['label']}: {f['detail'][:1000]}")
        if bad:
            print(f"VIOLATION property={pid} replay={path}")
        return 1 if bad else 0
    if v["kind"] == "misc":
        bad = miscprops.replay(pid, v["case"], common.build_harness(), common.scratch("replay-run"))
        for f in bad:
            print(f"  {f['label']}: {f['detail'][:1000]}")
        if bad:
            print(f"VIOLATION property={pid} replay={path}")
        return 1 if bad else 0
    raise common.ToolError("cannot replay " + v["kind"])
