"""One-off generator of spec/targets.json: the facts rustc itself states about some targets."""
import json, subprocess
T = """x86_64-unknown-linux-gnu x86_64-unknown-linux-musl i686-unknown-linux-gnu aarch64-unknown-linux-gnu
aarch64-unknown-linux-musl armv7-unknown-linux-gnueabihf riscv64gc-unknown-linux-gnu powerpc64-unknown-linux-gnu
s390x-unknown-linux-gnu x86_64-pc-windows-msvc i686-pc-windows-msvc x86_64-pc-windows-gnu aarch64-pc-windows-msvc
x86_64-apple-darwin aarch64-apple-darwin aarch64-apple-ios aarch64-linux-android x86_64-unknown-freebsd
wasm32-unknown-unknown wasm32-wasip1 thumbv7em-none-eabihf x86_64-unknown-none x86_64-unknown-redox
x86_64-unknown-netbsd x86_64-fortanix-unknown-sgx wasm32-unknown-emscripten x86_64-unknown-uefi""".split()
KEYS = {"target_os", "target_arch", "target_env", "target_family", "target_endian", "target_pointer_width",
        "target_vendor", "target_has_atomic", "panic", "target_abi"}
out, custom = {}, {}
for t in T:
    r = subprocess.run(["rustc", "--print", "cfg", "--target", t], capture_output=True, text=True)
    if r.returncode:
        print("skip", t, r.stderr[:80]); continue
    facts = []
    for l in r.stdout.split("\n"):
        l = l.strip()
        if l in ("unix", "windows"):
            facts.append(l)
        elif "=" in l:
            k, v = l.split("=", 1)
            if k in KEYS:
                facts.append(f"{k}={json.loads(v)}")
    out[t] = sorted(facts)
for t in ("x86_64-unknown-linux-gnu", "aarch64-unknown-linux-musl", "i686-pc-windows-msvc", "x86_64-unknown-freebsd"):
    # the same machines of another vendor: not known to rustc, but every part of the triple is
    a, _, rest = t.split("-", 2)
    custom[f"{a}-acme-{rest}"] = sorted("target_vendor=acme" if f.startswith("target_vendor") else f for f in out[t])
json.dump(custom, open("/verif/spec/targets_custom.json", "w"), indent=1, sort_keys=True)
json.dump(out, open("/verif/spec/targets.json", "w"), indent=1, sort_keys=True)
print(len(out))
