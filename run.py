#!/usr/bin/env python3
"""python3 run.py ID [quick|thorough]     decide one property on /repo's current tree
   python3 run.py --replay FILE           run one recorded case again

Exit 0: held on everything explored; 1: violated (with a VIOLATION line); 2: no answer."""
import json, os, sys, time, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common, checks  # noqa: E402


def main():
    if sys.argv[1] == "--replay":
        return checks.replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    res = checks.run(pid, tier, seed)
    ev = dict(property=pid, tier=tier, seed=seed, level=res["level"], coverage=res["coverage"],
              assumptions=res.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(res["violations"]))
    d = os.path.join(common.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    c = res["coverage"]
    print(f"{pid} {tier} seed={seed}: " + ", ".join(f"{k}={v}" for k, v in c.items() if isinstance(v, int)) +
          f" in {ev['wall_s']} s")
    listed = {f["name"]: f for f in checks.findings(pid)}
    for k in sorted(res.get("known", ())):
        if k in listed:
            print(f"KNOWN-FINDING: property={pid} {listed[k]['what']}")
    if not res["violations"]:
        return 0
    rd = os.path.join(common.WORK, "replay")
    os.makedirs(rd, exist_ok=True)
    for v in res["violations"][:5]:
        p = os.path.join(rd, f"{pid}-{common.digest(v)}.json")
        with open(p, "w") as f:
            json.dump(dict(property=pid, **v), f, indent=1)
        for l, t in v["why"][:6]:
            print(f"  {l}: {str(t)[:400]}")
        print(f"VIOLATION property={pid} replay={p}")
    return 1


if __name__ == "__main__":
    try:
        code = main()
    except common.ToolError as e:
        print("no answer:", e, file=sys.stderr)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
