"""Shared plumbing of the checks: program dump acquisition, reports, evidence, known findings."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("FAERIE_REPO", "/repo")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(q.encode())
                    with open(q, "rb") as fh:
                        h.update(fh.read())
        elif os.path.exists(p):
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:24]


class Fatal(Exception):
    pass


def driver():
    """build the compiler driver (MIR exporter) if needed"""
    exe = os.path.join(VERIF, "driver/target/release/faemir")
    src = tree_hash([os.path.join(VERIF, "driver/src"), os.path.join(VERIF, "driver/Cargo.toml")])
    stamp = exe + ".stamp"
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == src:
        return exe
    r = sh(["cargo", "+nightly", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "driver"))
    if r.returncode != 0 or not os.path.exists(exe):
        raise Fatal("driver build failed:\n" + r.stdout[-3000:])
    with open(stamp, "w") as f:
        f.write(src)
    return exe


def dump(repo=None, quiet=True):
    """compile the repository's current working tree with the exporter; returns the program as JSON"""
    repo = repo or REPO
    pre = os.environ.get("FAERIE_DUMP")
    if pre:
        return json.load(open(pre))
    exe = driver()
    key = tree_hash([os.path.join(repo, x) for x in ("src", "Cargo.toml", "build.rs")] + [exe])
    cache = os.path.join(VERIF, ".cache")
    out = os.path.join(cache, key + ".json")
    if os.path.exists(out):
        try:
            return json.load(open(out))
        except ValueError:
            pass
    os.makedirs(cache, exist_ok=True)
    for f in os.listdir(cache):
        os.unlink(os.path.join(cache, f))
    tmp = tempfile.mkdtemp(prefix="faemir.")
    try:
        # analyse a copy of the sources so that no file of the repository is touched
        work = os.path.join(tmp, "repo")
        shutil.copytree(repo, work, ignore=shutil.ignore_patterns("target", ".git"))
        lock = os.path.join(work, "Cargo.lock")
        if not os.path.exists(lock):
            for c in (os.path.join(HERE, "Cargo.lock"), "/opt/vp/Cargo.lock"):
                if os.path.exists(c):
                    shutil.copy(c, lock)
                    break
        env = dict(os.environ)
        sysroot = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
        env["RUSTFLAGS"] = "-Zalways-encode-mir"
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        env["FAEMIR_CRATE"] = "faerie"
        env["FAEMIR_OUT"] = os.path.join(tmp, "out.json")
        env.pop("RUSTC_WRAPPER", None)
        r = sh(["cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path", os.path.join(work, "Cargo.toml"),
                "--target-dir", os.path.join(tmp, "td")], env=env)
        if r.returncode != 0 or not os.path.exists(env["FAEMIR_OUT"]):
            raise Fatal("cannot compile the repository with the exporter:\n" + r.stdout[-3000:])
        shutil.copy(env["FAEMIR_OUT"], out)
        return json.load(open(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.good = {}
        self.viol = {}
        self.undec = {}
        self.funcs = set()
        self.meta = {}
        self.rules = []
        self.samples = []
        self.paths = 0
        self.tier = 'quick'
        self.known = lambda key, msg: False
        self.fresh = 0          # violations that are not listed findings
        self.limit = 560

    def ok(self, ob, detail=""):
        if ob not in self.viol:
            self.good[ob] = detail

    def bad(self, ob, msg, where="", key=None):
        """definite violation of obligation `ob`"""
        self.good.pop(ob, None)
        self.fresh += 0 if self.known(key or ob, msg) else 1
        self.viol.setdefault(key or ob, []).append({"obligation": ob, "message": msg, "where": where})

    def und(self, ob, why):
        self.undec.setdefault(ob, why)

    def check(self, ob, cond, msg="", where="", key=None):
        if cond:
            self.ok(ob)
        else:
            self.bad(ob, msg, where, key)

    def enough(self):
        """has the run found (or spent) what it needs?  The remaining obligations are then left undecided."""
        return self.fresh >= 4 or time.time() - self.t0 > self.limit

    def eng(self, eng):
        self.funcs |= set(eng.inlined)
