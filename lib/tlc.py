"""Running TLC: trace validation and model checking."""
import json
import os
import re
import shutil
import subprocess
import tempfile

import build

SPEC = os.path.join(build.VERIF, "spec")


def run(module, cfg=None, args=(), env=None, workers="1", mem="2g", timeout=600, plain=False):
    work = tempfile.mkdtemp(prefix="tlc", dir=build.BUILD)
    try:
        e = dict(os.environ)
        e.update(env or {})
        e.setdefault("JUDGE_MEMORY", "0")
        e.setdefault("JUDGE_FRESH", "0")
        cp = ":".join([build.java(), build.TLA + "/tla2tools.jar", build.TLA + "/CommunityModules-deps.jar"])
        cmd = ["java", "-Djava.io.tmpdir=" + work, "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
               "-XX:-UseSuperWord",         # this Java's automatic vectorisation has been seen to compile Prims wrongly
               "-XX:TieredStopAtLevel=" + ("1" if plain else "4"),
               "-cp", cp, "-DTLA-Library=" + SPEC, "tlc2.TLC", "-workers", workers, "-metadir", work,
               "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg or module + ".cfg"), *args,
               os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=work)
        except subprocess.TimeoutExpired as x:
            return None, (x.stdout or b"").decode("latin1") if isinstance(x.stdout, bytes) else (x.stdout or "")
        return p.returncode, p.stdout + p.stderr
    finally:
        shutil.rmtree(work, ignore_errors=True)


class SpecError(Exception):
    """The machinery itself failed."""


def counts(out):
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    g, d = m[-1] if m else ("0", "0")
    dep = re.findall(r"depth of the complete state graph search is (\d+)", out)
    return {"generated": int(g.replace(",", "")), "distinct": int(d.replace(",", "")),
            "depth": int(dep[-1]) if dep else 0}


def validate(events, memory=False, fresh=False, timeout=800):
    """None if the specification accepts the run, else (index, what was required)."""
    if not events:
        return None
    v = judge(events, memory, fresh, timeout, False)
    # a refusal counts if the plainest compiler finds it too, on the same run
    return v if v is None else judge(events, memory, fresh, timeout, True)


def judge(events, memory, fresh, timeout, plain):
    fd, path = tempfile.mkstemp(suffix=".ndjson", dir=build.BUILD)
    with os.fdopen(fd, "w") as f:
        for ev in events:
            f.write(json.dumps(ev) + "\n")
    try:
        rc, out = run("TkTrace", args=("-lncheck", "final"),
                      env={"TRACE": path, "JUDGE_MEMORY": "2" if memory == "leaks" else "1" if memory else "0", "JUDGE_FRESH": "1" if fresh else "0"},
                      timeout=timeout, plain=plain)
    finally:
        os.unlink(path)
    if rc is None:
        raise SpecError("trace validation timed out after %d s (%d events)" % (timeout, len(events)))
    m = re.search(r'MISMATCH at (\d+) required ((?:.|\n)*?)"\n', out)
    if m:
        return int(m.group(1)) - 1, m.group(2)
    if rc == 0 and "Model checking completed. No error has been found" in out:
        return None
    # The specification could not even be evaluated on a response (a missing field, ...): find the event.
    d = re.search(r"i = (\d+)", out)
    e = re.search(r"Error: ((?:.|\n){0,600})", out)
    if "Parsing" in out and "Error: Parsing" in out or "Fatal errors while parsing" in out:
        raise SpecError(out[-3000:])
    i = [int(x) for x in re.findall(r"/\\ i = (\d+)", out)]
    if i:
        return max(i) - 1, "evaluation of the specification fails: " + (e.group(1)[:500] if e else "")
    raise SpecError(out[-3000:])
