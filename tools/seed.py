"""Makes and tries a planted bug. usage: seed.py DEF.py   (DEF.py defines ID, PROP, EDITS, NEEDS, BREAKS, DEMO)

Writes seeded/ID, then applies the patch to /repo, builds, runs the stable tests, the demonstration with and without the
patch, and the property's check; and always takes the patch back."""
import json, os, shutil, subprocess, sys
V = "/verif"
d = {}
exec(open(sys.argv[1]).read(), d)
checks = sys.argv[2:] or [d["PROP"]]
out = f"{V}/seeded/{d['ID']}"
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert sh("git -C /repo status --short").stdout == ""
os.makedirs(out + "/shim/src", exist_ok=True)
for f in ["src/lib.rs", "Cargo.toml"]:
    shutil.copy(f"{V}/shim/rand_distr/{f}", f"{out}/shim/{f}")
open(out + "/main.rs", "w").write(d["DEMO"])
if d.get("PY"):
    open(out + "/demo.py", "w").write(d["PY"])
open(out + "/demo.sh", "w").write("""#!/bin/bash
# run with cwd /repo: 0 if the property holds here, 1 if not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/" && cp -r "$here/shim" "$d/shim" && cp "$here/Cargo.lock" "$d/" || exit 2
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
polymers = { path = "$repo", features = [FEATURES] }
rand = "=0.9.2"
rand_distr = "*"
[patch.crates-io]
rand_distr = { path = "shim" }
[profile.release]
opt-level = 2
EOF
cd "$d" || exit 2
RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$d/target" cargo build --release --offline -q 2>"$d/log" || { cat "$d/log"; exit 2; }
RUN
""".replace("FEATURES", ", ".join(f'"{f}"' for f in d.get("FEATURES", ["extern"]))).replace("RUN", d.get("RUN", './target/release/demo')))
os.chmod(out + "/demo.sh", 0o755)
if not os.path.exists(f"{V}/tools/demo/Cargo.lock"):
    t = "/tmp/seedlock"
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t + "/src")
    shutil.copytree(out + "/shim", t + "/shim")
    open(t + "/src/main.rs", "w").write("fn main(){}")
    open(t + "/Cargo.toml", "w").write('[package]\nname="demo"\nversion="0.1.0"\nedition="2021"\n[workspace]\n[dependencies]\npolymers={path="/repo"}\nrand="=0.9.2"\nrand_distr="*"\n[patch.crates-io]\nrand_distr={path="shim"}\n')
    print(sh(f"cd {t} && cp {V}/harness/Cargo.lock . && cargo metadata --offline --format-version 1 >/dev/null").stderr[-500:])
    shutil.copy(t + "/Cargo.lock", f"{V}/tools/demo/Cargo.lock")
shutil.copy(f"{V}/tools/demo/Cargo.lock", out + "/Cargo.lock")
json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
try:
    for f, old, new, *n in d["EDITS"]:
        p = "/repo/src/" + f
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        if crlf:
            s = s.replace("\r\n", "\n")
        n = n[0] if n else 1
        assert s.count(old) == n, (f, s.count(old), old[:80])
        s = s.replace(old, new)
        if crlf:
            s = s.replace("\n", "\r\n")
        open(p, "w", newline="").write(s)
    diff = subprocess.run("git -C /repo diff --binary", shell=True, capture_output=True).stdout
    open(out + "/patch.diff", "wb").write(diff)
    b = sh("bash /opt/vp/build.sh")
    print("build", b.returncode)
    if b.returncode:
        print(b.stderr[-1500:]); sys.exit(1)
    sh("bash /opt/vp/test.sh /tmp/seed_t.json")
    t = json.load(open("/tmp/seed_t.json"))
    st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    lost = st - set(t["passed"])
    print("tests lost:", len(lost), sorted(lost)[:4])
    x = sh(f"bash {out}/demo.sh", cwd="/repo")
    print("demo with the patch:", x.returncode, x.stdout[-300:], x.stderr[-300:])
    for c in checks:
        k = sh(f"{V}/check.sh {c}")
        l = [y for y in k.stdout.splitlines() if not y.startswith("VIOL")]
        print(c, "rc", k.returncode, "|", (l[0] if l else "")[:260], "|", l[-1][:120] if l else "", k.stderr[-200:])
finally:
    sh("git -C /repo checkout -- .")
x = sh(f"bash {out}/demo.sh", cwd="/repo")
print("demo without:", x.returncode, x.stdout[-200:], x.stderr[-200:])
sh("rm -f /verif/replays/*")
