"""Threads: programs on separate objects that run at the same time in one
process.  The answers of all the threads, merged into one run, must be a run of
the specification, in which objects only change by the calls made on them."""
import json
import os
import random
import re
import subprocess

import build
import engine
import gen
import tk

SLOT_FIELDS = ("s", "d", "key", "o", "a", "id")
NOT_SLOTS = {"strstrn", "hash"}


class Script:
    """Collects the commands of a thread.  The answer of command k is "$k"; with
    "~b" appended, bit b of it is flipped."""

    def __init__(self, thread, seed, shared, variant="lock"):
        self.thread, self.variant = thread, variant
        self.rng = random.Random("%s/%s" % (seed, thread))
        self.shared = random.Random("shared/%s/%s" % (seed, shared))     # the same in all the threads
        self.commands = []
        self.n = 0
        self.prefix = "t%d." % thread

    def do(self, op, **f):
        c = {"op": op}
        c.update(tk.DEFAULTS.get(op, {}))
        c.update(f)
        if op not in NOT_SLOTS:
            for x in SLOT_FIELDS:
                if isinstance(c.get(x), str):
                    c[x] = self.prefix + c[x]
            if "parts" in c:
                c["parts"] = [self.prefix + x for x in c["parts"]]
        self.commands.append(c)
        return {"e": "ok", "out": "$%d" % (len(self.commands) - 1)}

    def fresh(self, p="s"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def bytes(self, n):
        return self.rng.randbytes(n).hex()

    def program(self, hist, ident):
        """A program of the specification, on objects of its own."""
        keep, self.prefix = self.prefix, "%sp%s." % (self.prefix, ident)
        Replay(self, ident).run(hist)
        self.prefix = keep

    def key(self, n=32, k=None):
        s = self.fresh("k")
        self.do("key.new", n=n, s=s, k=k if k is not None else self.bytes(n))
        return s


class Replay(gen.Replay):
    def out(self, v):
        m = re.match(r"\$(\d+)(?:~(\w+))?$", v) or re.match(r"\$(\d+)(\w*)$", v)
        k, how = int(m.group(1)), m.group(2)
        b = self.outs[k - 1] if 1 <= k <= len(self.outs) else None
        if b is None:
            return self.rng.randbytes(40).hex()
        return b + ("~%d" % self.rng.randrange(4096) if how else "")


def value(v, answers):
    if not (isinstance(v, str) and v.startswith("$")):
        return v
    k, _, bit = v[1:].partition("~")
    h = answers[int(k)].get("out", "") if int(k) < len(answers) else ""
    if not isinstance(h, str) or h == "" or answers[int(k)]["e"] != "ok":
        h = "00" * 40
    if bit:
        b = bytearray(bytes.fromhex(h))
        i = int(bit) % (8 * len(b))
        b[i // 8] ^= 1 << (i % 8)
        h = b.hex()
    return h


class Run:
    """A finished run, as the engine wants it."""

    def __init__(self):
        self.events, self.end, self.stderr, self.error, self.scripts = [], None, "", None, []


def execute(variant, scripts, timeout=600):
    """scripts: a list of command lists."""
    exe = build.build(variant)
    text = "".join("%d %s\n" % (t, tk.line(c)) for t, cs in enumerate(scripts) for c in cs)
    env = dict(os.environ)
    env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:report_signal_unsafe=0:second_deadlock_stack=1"
    args = ["--threads"] + (["--keep-signals"] if variant in ("tsan", "asan") else [])
    for pre in ([], ["setarch", "-R"]):
        try:
            p = subprocess.run(pre + [exe] + args, input=text.encode(), capture_output=True, env=env, timeout=timeout)
        except subprocess.TimeoutExpired:
            r = Run()
            r.end = {"e": "HANG", "status": None}
            return r
        if b"unexpected memory mapping" not in p.stderr:
            break
    r = Run()
    r.stderr = p.stderr[-4000:].decode("latin1") if p.returncode else ""
    answers = [[] for _ in scripts]
    r.end = {"e": "CRASH"}
    for l in p.stdout.decode("latin1").split("\n"):
        if l.startswith("{"):
            try:
                r.end = json.loads(l)
            except ValueError:
                r.end = {"e": "GARBLED"}
        elif l:
            t, _, j = l.partition(" ")
            answers[int(t)].append(json.loads(j))
    r.end["status"] = p.returncode
    r.error = None
    streams = []
    for t, cs in enumerate(scripts):
        evs = []
        for c, a in zip(cs, answers[t]):
            if a["e"] == "MISUSE":
                r.error = tk.Misuse("thread %d: %s" % (t, json.dumps(c)[:300]))
                break
            d = dict(c)
            for f, v in c.items():
                d[f] = value(v, answers[t])
            evs.append({"c": d, "r": a})
        streams.append(evs)
    # the calls concern separate objects: one order is as good as another
    i = 0
    while any(streams):
        if streams[i % len(streams)]:
            r.events.append(streams[i % len(streams)].pop(0))
        i += 1
    return r


def judge(ctx, job, run):
    if run.end.get("status") == 66 or "ThreadSanitizer" in run.stderr:
        return len(run.events), "no data race", run.stderr
    if run.end["e"] != "end" or run.end.get("status") != 0:
        return len(run.events), "a clean end of the program", json.dumps(run.end) + "\n" + run.stderr
    return ctx.judge(job, run)


def schedule(ctx, name, fns, variant="tsan", seed=None):
    """One run of len(fns) threads; fns are functions of a Script."""
    ctx.variants.add(variant)

    def go():
        if ctx.violations:
            return
        scripts = []
        for t, fn in enumerate(fns):
            s = Script(t, "%s/%s/%s" % (ctx.seed, name, seed), name, variant)
            fn(s)
            scripts.append(s.commands)
        with ctx.exclusive:
            run = execute(variant, scripts)
        run.scripts = scripts
        job = engine.Job(name, variant, None, memory=False, fresh=True)
        job.threads = scripts
        ctx.conclude(job, run, judge(ctx, job, run))
    ctx.extra.append(go)
