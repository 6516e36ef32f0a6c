#!/usr/bin/env python3
"""Small changes all over the sources (mutate.py OUT.jsonl [--files f,...] [--sample N] [--seed N] [--jobs N]): each is
applied to a scratch copy of /repo, built and tested; the checks of the properties that concern the file are run on those the
tests let through, until one catches it.  OUT gets a line per change.  Not a check: it shows where the checks are blind."""
import argparse
import concurrent.futures as cf
import json
import os
import queue
import random
import re
import shutil
import subprocess
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds    # noqa: E402

ROOT = "/tmp/mut"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "hash": "H01 C01", "hmac": "H01 K01 K02 K03 F01", "key": "K02 K03 K01 N01", "prf": "F01 K01 K02 K03 W01",
    "prg": "G01 G02 K01 K02 K03 R01", "cipher": "E01 K01 K02 K03 W01 W02 N01", "wrapper": "W01 W02 K01 K02 K03 N01",
    "rcprf": "R01 R02 W01 W02 K01 K02 K03", "set_hash": "S01 S02 C01", "prp": "P01 K01 K02 K03 W01 W02",
    "tdp": "T01 T02 T03 N01 W01 K02", "random": "N01 C01", "utils": "U01", "blake2b": "H01 K01", "sha512": "H01 K01",
}
SWAPS = [(r"(?<![<>\-=!+])<(?![<=\w:])", "<="), (r"<=(?!>)", "<"), (r"(?<=\s)>(?=\s)", ">="), (r">=", ">"), (r"==", "!="),
         (r"!=", "=="), (r"(?<=\s)&&(?=\s)", "||"), (r"\|\|", "&&"), (r"(?<=\s)\+(?=\s)", "-"), (r"(?<=\s)-(?=\s)", "+"),
         (r"(?<![\w.])(\d+)(?=U?\b)(?![\w.])", None), (r"\btrue\b", "false"), (r"\bfalse\b", "true")]


def candidates(path):
    lines = open(path).read().split("\n")
    out, block, depth = [], False, 0
    for i, l in enumerate(lines):
        s = l.strip()
        if block:
            block = "*/" not in s
            continue
        if s.startswith("/*") and "*/" not in s:
            block = True
            continue
        if "= default" in s or "= delete" in s or re.match(r"^(static )?(constexpr |const )?std::(array|vector|string)<.*\($", s):
            continue
        if not s or s.startswith(("//", "#", "/*", "*", "template", "static_assert", "using", "namespace", "friend", "public", "private",
                                  "class", "struct", "throw", "case", "extern")):
            continue
        code = re.sub(r'"[^"]*"', lambda m: '"' + " " * (len(m.group()) - 2) + '"', l.split("//")[0])
        for rx, to in SWAPS:
            if "to_string" in code or '"' in code:
                continue
            for m in re.finditer(rx, code):
                new = to if to is not None else str(int(m.group(1)) + 1)
                out.append((i, l[:m.start()] + new + l[m.end():], "%s -> %s" % (m.group(), new)))
        m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\) \{)$", l)
        if m:
            out.append((i, m.group(1) + "false && (" + m.group(2) + ")" + m.group(3), "guard removed"))
            out.append((i, m.group(1) + "true || (" + m.group(2) + ")" + m.group(3), "guard always"))
        prev = lines[i - 1].strip() if i else ""
        if re.match(r"^[\w:.\->\[\]()<>&*]+\s*(\(|=|\+=|-=|\^=).*;$", s) and (prev.endswith((";", "{", "}", ":", "*/")) or not prev) \
                and not s.startswith(("return", "auto", "const", "static", "std::")) and not re.match(r"^[\w:<>]+ [\w]+( =|\(|;)", s):
            out.append((i, re.match(r"^\s*", l).group() + ";", "deleted: " + s[:60]))
    return [(path, i, lines[i], new, what) for i, new, what in out]


free = queue.Queue()


def one(k, mut, need, args, log, lock):
    path, i, old, new, what = mut
    d = free.get()
    repo = d + "/repo"
    rec = {"k": k, "file": os.path.relpath(path, "/repo/src"), "line": i + 1, "what": what, "old": old.strip(), "new": new.strip()}
    try:
        if not os.path.isdir(repo):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
        p = repo + path[len("/repo"):]
        ls = open(p).read().split("\n")
        assert ls[i] == old
        ls[i] = new
        open(p, "w").write("\n".join(ls))
        rc, o = seeds.build(repo)
        if rc:
            rec["r"] = "no build"
            return
        try:
            missing = need - seeds.passed(repo)
        except Exception:       # noqa: BLE001
            missing = {"?"}
        if missing:
            rec["r"] = "tests"
            return
        name = os.path.basename(path).split(".")[0]
        name = "tdp" if name.startswith("tdp") else name
        rec["r"] = "SURVIVES"
        if args.tests:
            return
        for c in CHECKS.get(name, "H01").split() + (["M01", "X01"] if args.all else []):
            env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=d + "/b", VERIF_EVIDENCE=d + "/ev")
            r = subprocess.run(["timeout", "900", "python3", HERE + "/check.py", c, "quick"], env=env, capture_output=True, text=True, cwd=HERE)
            if r.returncode == 1:
                rec["r"] = "caught by " + c
                return
            if r.returncode not in (0, 1):
                rec.setdefault("odd", []).append([c, r.returncode, (r.stdout + r.stderr)[-600:]])
    except Exception as e:      # noqa: BLE001
        rec["r"] = "error %r" % e
    finally:
        free.put(d)
        with lock:
            log.write(json.dumps(rec) + "\n")
            log.flush()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default="")
    ap.add_argument("--sample", type=int, default=300)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=3)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--tests", action="store_true", help="only build and test")
    ap.add_argument("--only", default="", help="these numbers only")
    ap.add_argument("--all", action="store_true", help="M01 and X01 too")
    a = ap.parse_args()
    src = "/repo/src"
    files = [src + "/" + f for f in a.files.split(",")] if a.files else \
        [os.path.join(d, f) for d, _, fs in os.walk(src) for f in fs
         if f.endswith((".cpp", ".hpp")) and not re.search(r"openssl|punct|ppke|aez|mbedtls/|relic", os.path.join(d, f))]
    muts = [m for f in sorted(files) for m in candidates(f)]
    random.Random(a.seed).shuffle(muts)
    print(len(muts), "candidates")
    if a.list:
        for m in muts[:a.sample]:
            print(os.path.basename(m[0]), m[1] + 1, m[4])
        return
    need = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json"))["stable"])
    lock = threading.Lock()
    for j in range(a.jobs):
        free.put("%s/%d-%d" % (ROOT, os.getpid(), j))
    done = {json.loads(l)["k"] for l in open(a.out)} if os.path.exists(a.out) else set()
    with open(a.out, "a") as log, cf.ThreadPoolExecutor(a.jobs) as ex:
        for k, m in enumerate(muts[:a.sample]):
            if "%d-%d" % (a.seed, k) not in done and (not a.only or str(k) in a.only.split(",")):
                ex.submit(one, "%d-%d" % (a.seed, k), m, need, a, log, lock)


if __name__ == "__main__":
    main()
