"""Author and validate planted bugs: python3 tools/plant.py SPECFILE [id...]   (scratch copies under /tmp/plant)

SPECFILE defines BUGS = [dict(id, prop, file, edits=[(old, new)], needs, breaks, demo=<rust main body>)]."""
import json
import os
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"
DEMO = '''#!/bin/bash
# exit 0: behaviour as documented; nonzero: broken.  Run in the repository root after a build.
here=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src" && cp "$here/demo.rs" "$D/src/main.rs"
cat > "$D/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
faerie = { path = "$PWD" }
goblin = "0.6"
target-lexicon = "0.12"
log = "0.4"
[workspace]
EOT
cp "$PWD/Cargo.lock" "$D/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$D/Cargo.lock"
export CARGO_TARGET_DIR="${DEMO_TARGET:-$D/target}"
cd "$D" && cargo build --offline -q 2> "$D/log" || { tail -20 "$D/log"; exit 3; }
"$CARGO_TARGET_DIR/debug/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def passed(d):
    r = sh(". /opt/vp/env.sh; cd $OLDPWD; export CARGO_TARGET_DIR=/tmp/plant/ttarget; cargo test --workspace --no-fail-fast --offline 2>&1 | grep -E '^test .* \\.\\.\\. ok' | sort", cwd=d)
    return set(x.split()[1] for x in r.stdout.splitlines()), r


def main():
    spec = runpy.run_path(sys.argv[1])
    want = sys.argv[2:]
    os.makedirs(W, exist_ok=True)
    base = None
    for b in spec["BUGS"]:
        if want and b["id"] not in want:
            continue
        wt = W + "/wt"
        if not os.path.exists(wt):
            shutil.copytree("/repo", wt, symlinks=True)
        sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=wt)
        if base is None:
            base, _ = passed(wt)
        ok = True
        for e in b["edits"]:
            f, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) < 1:
                print(b["id"], "EDIT NOT FOUND in", f, repr(old[:60]))
                ok = False
                break
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        if not ok:
            continue
        diff = sh("git diff", cwd=wt).stdout
        got, r = passed(wt)
        if base - got:
            print(b["id"], "TESTS FAIL", sorted(base - got)[:4], r.stdout[-300:] if not got else "")
            continue
        out = os.path.join(ROOT, "seeded", b["id"])
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.rs", "w").write(b["demo"])
        open(out + "/demo.sh", "w").write(DEMO)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        env = dict(os.environ, DEMO_TARGET=W + "/target")
        a = sh(out + "/demo.sh", cwd="/repo", env=env)
        c = sh(out + "/demo.sh", cwd=wt, env=env)
        good = a.returncode == 0 and c.returncode not in (0, 3)
        env = dict(os.environ, FAERIE_REPO=wt)
        k = sh("./check.sh " + b["prop"], cwd=ROOT, env=env)
        print(b["id"], b["prop"], "demo", a.returncode, c.returncode, "OK" if good else "BAD-DEMO", "| check exit", k.returncode,
              "CAUGHT" if k.returncode == 1 else "MISSED")
        if not good:
            print(a.stdout[-800:], c.stdout[-800:])
        if k.returncode != 1:
            print("   ", "\n    ".join(k.stdout.splitlines()[-6:])[:1200])
        if not good:
            shutil.rmtree(out)
    sh("git checkout -q -- .", cwd=W + "/wt")


main()
