#!/usr/bin/env python3
"""Confirms planted changes: seeds.py [--check] [id...].  Each is applied to a scratch copy of /repo, built,
tested, demonstrated; with --check the check of its property is run on the copy too."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/seeds"


def sh(cmd, cwd=None, env=None, timeout=1200):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return r.returncode, r.stdout


def build(repo):
    rc, o = sh(["cmake", "-S", "/opt/vp/cmake", "-B", repo + "/_build", "-G", "Ninja", "-DREPO=" + repo, "-DCMAKE_BUILD_TYPE=Debug",
                "-DCMAKE_C_FLAGS=-Wno-error", "-DCMAKE_CXX_FLAGS=-Wno-error"], env={"CC": "gcc", "CXX": "g++"})
    if rc == 0:
        rc, o = sh(["ninja", "-j4", "-C", repo + "/_build"])
    return rc, o


def passed(repo):
    xml = repo + "/_build/r.xml"
    sh(["ctest", "--test-dir", repo + "/_build", "-j4", "--timeout", "300", "--output-junit", xml])
    sh(["python3", "/opt/vp/results.py", repo + "/_build/r.json", "junit:" + xml])
    return set(json.load(open(repo + "/_build/r.json"))["passed"])


def fresh(name):
    d = os.path.join(ROOT, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(["git", "clone", "-q", "/repo", d + "/repo"])
    return d, d + "/repo"


def demo(sid, repo, d):
    shutil.copytree(os.path.join(HERE, "seeded", sid), d + "/demo")
    for f in ("patch.diff", "meta.json"):
        os.remove(d + "/demo/" + f)
    rc, o = sh(["bash", d + "/demo/demo.sh"], cwd=repo, timeout=300)
    shutil.rmtree(d + "/demo")
    return rc, o


def one(sid, check, need, base):
    src = os.path.join(HERE, "seeded", sid)
    meta = json.load(open(src + "/meta.json"))
    d, repo = fresh(sid)
    out = {"id": sid, "property": meta["property"]}
    try:
        rc, o = demo(sid, base, d)
        if rc != 0:
            out["bad"] = "demo fails on the unchanged tree: " + o[-800:]
            return out
        rc, o = sh(["git", "-C", repo, "apply", src + "/patch.diff"])
        if rc != 0:
            out["bad"] = "does not apply: " + o
            return out
        rc, o = build(repo)
        if rc != 0:
            out["bad"] = "does not build: " + o[-800:]
            return out
        missing = need - passed(repo)
        if missing:
            out["bad"] = "tests fail: " + ", ".join(sorted(missing))
            return out
        rc, o = demo(sid, repo, d)
        if rc == 0:
            out["bad"] = "demo passes with the change"
            return out
        if rc == 3:
            out["bad"] = "demo does not compile: " + o[-800:]
            return out
        out["demo"] = o.strip().splitlines()[-1][:120] if o.strip() else str(rc)
        for p in ([meta["property"]] if check is True else check or []):
            rc, o = sh(["python3", HERE + "/check.py", p, "quick"], cwd=HERE, env={"VERIF_REPO": repo, "VERIF_BUILD": d + "/b"})
            ok = rc == 1 and ("VIOLATION property=%s " % p) in o
            out.setdefault("caught", {})[p] = "caught" if ok else "MISSED (rc %d) %s" % (rc, o[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def main():
    args = sys.argv[1:]
    check = "--check" in args
    jobs = 2
    ids = [a for a in args if not a.startswith("--")]
    ids = ids or sorted(os.listdir(HERE + "/seeded"))
    b = json.load(open("/opt/vp/BASELINE.json"))
    need = set(b.get("passed") or b.get("stable") or b.get("tests") or [])
    assert need
    d, base = fresh("base")
    rc, o = build(base)
    assert rc == 0, o
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda s: one(s, check, need, base), ids):
            print("%-28s %-4s %s %s" % (r["id"], r["property"], r.get("bad") or "ok: " + r.get("demo", ""), r.get("caught", "")), flush=True)
            bad += "bad" in r
    shutil.rmtree(ROOT, ignore_errors=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
