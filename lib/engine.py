"""Runs a check: models, generated behaviours, replays into the real library,
validation of what was recorded, the verdict and the evidence."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import threading
import time
import traceback

import build
import tk
import tlc


class Job:
    def __init__(self, name, variant, fn, memory=False, fresh=False, env=None, judge=None):
        self.name, self.variant, self.fn = name, variant, fn
        self.memory, self.fresh, self.env, self.judge = memory, fresh, env, judge


class Violation(Exception):
    def __init__(self, text, data):
        super().__init__(text)
        self.text, self.data = text, data


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.jobs, self.models, self.variants = [], [], set()
        self.extra = []
        self.exclusive = threading.Lock()
        self.violations = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events": 0,
                    "behaviours_replayed": 0, "models": {}, "operations": {}, "samples": [], "variants": []}
        self.assumptions = []
        self.faults = [0, set()]
        self.lock = threading.Lock()
        self.t0 = time.time()

    def size(self, quick, thorough):
        return quick if self.quick else thorough

    # what a check consists of ---------------------------------------------
    def job(self, name, fn, variant="lock", **kw):
        """fn(session) issues commands; the recorded run is judged by TkTrace."""
        self.variants.add(variant)
        self.jobs.append(Job(name, variant, fn, **kw))

    def model(self, module, cfg=None, workers="2", mem="3g", timeout=600, args=()):
        """A model checked exhaustively; its invariants must hold."""
        self.models.append((module, cfg, workers, mem, timeout, tuple(args)))

    # execution --------------------------------------------------------------
    def run_model(self, m):
        module, cfg, workers, mem, timeout, args = m
        rc, out = tlc.run(module, cfg, args=args, workers=workers, mem=mem, timeout=timeout)
        if rc != 0:
            raise tlc.SpecError("model %s: %s" % (cfg or module, out[-3000:]))
        c = tlc.counts(out)
        with self.lock:
            self.cov["states"] += c["distinct"]
            self.cov["transitions"] += c["generated"]
            self.cov["models"][cfg or module] = c

    def run_job(self, job, commands=None):
        s = tk.Session(job.variant, seed=self.seed, name=job.name, env=job.env)
        s.ctx = self
        try:
            if commands is not None:
                for c in commands:
                    if c["op"] in NOTES:
                        s.note(**c)
                    else:
                        s.do(**c)
            else:
                job.fn(s)
        except tk.Crashed:
            pass
        except Exception as e:      # noqa: BLE001
            # the scenario cannot go on; is it because of an answer the
            # specification does not allow?  (see judge)
            s.error = e
            s.dead = True
        finally:
            s.close()
        return s

    def judge(self, job, s):
        """None or a description of the violation."""
        if s.events and s.events[-1]["r"].get("status") == -9 and is_big(s.events[-1]["c"]):
            s.events.pop()          # ended from outside for want of memory: no answer to judge
            s.end = None
        last = s.events[-1] if s.events else None
        if last and last["r"]["e"] in ("CRASH", "HANG", "GARBLED"):
            return len(s.events) - 1, "an answer", s.stderr
        v = tlc.validate(s.events, job.memory, job.fresh)
        if v is not None:
            return v[0], v[1], s.stderr
        if s.error is not None:
            raise s.error
        if s.end is not None and (s.end["e"] != "end" or s.end.get("status") != 0):
            return len(s.events), "a clean end of the program", json.dumps(s.end) + "\n" + s.stderr
        if s.end is not None and job.memory and (s.end["lv"] != 0 or s.end["bf"] != 0):
            return len(s.events), "no secure memory left allocated at exit", json.dumps(s.end)
        if job.judge is not None:
            v = job.judge(s)
            if v is not None:
                return len(s.events), v, ""
        return None

    def do_job(self, job):
        if self.violations:
            return
        s = self.run_job(job)
        v = self.judge(job, s)
        if v is not None and s.events and s.events[-1]["r"]["e"] == "HANG":
            # slow machine or endless loop?  once more, alone and with more time
            tk.CALL_TIMEOUT = 300
            s2 = self.run_job(job)
            v2 = self.judge(job, s2)
            if v2 is None:
                s, v = s2, None
        self.conclude(job, s, v)

    def conclude(self, job, s, v):
        with self.lock:
            self.cov["traces_validated_against_impl"] += 1
            self.cov["behaviours_replayed"] += 1 + sum(1 for e in s.events if e["c"]["op"] == "reset")
            self.cov["events"] += len(s.events)
            self.cov["states"] += len(s.events) + 1
            self.cov["transitions"] += len(s.events)
            for e in s.events:
                o = self.cov["operations"]
                o[e["c"]["op"]] = o.get(e["c"]["op"], 0) + 1
            for a, b, c in zip(s.events, s.events[1:], s.events[2:]):
                if a["c"]["op"] in ("fault_alloc", "fault_prot", "fault_new") and c["c"]["op"] == "fault_off":
                    self.faults[0] += 1
                    if c["r"].get("hit"):
                        f = dict(b["c"])
                        f.pop("blob", None)
                        self.faults[1].add(json.dumps([a["c"], f], sort_keys=True))
            if len(self.cov["samples"]) < 3 and s.events:
                k = min(len(s.events), 6)
                self.cov["samples"].append({"run": job.name, "variant": job.variant,
                                            "first_events": [clip(e) for e in s.events[:k]]})
            if v is not None:
                self.violations.append((job, s, v))

    def execute(self):
        build.java()
        with cf.ThreadPoolExecutor(8) as ex:
            ms = [ex.submit(self.run_model, m) for m in self.models]
            for v in sorted(self.variants):
                build.build(v)
            self.cov["variants"] = sorted(self.variants)
            js = [ex.submit(self.do_job, j) for j in self.jobs]
            for f in self.extra:
                js.append(ex.submit(f))
            errors = []
            for f in ms + js:
                try:
                    f.result()
                except Exception as e:      # noqa: BLE001
                    errors.append((e, traceback.format_exc()))
        if errors and not self.violations:
            raise errors[0][0]

    # verdict ---------------------------------------------------------------
    def report(self):
        for job, s, v in self.violations[:4]:
            idx, required, more = v
            ev = s.events[idx] if idx < len(s.events) else {"c": {"op": "exit"}, "r": s.end}
            data = {"property": self.prop, "name": job.name, "variant": job.variant, "memory": job.memory,
                    "fresh": job.fresh, "env": job.env, "seed": self.seed, "at": idx, "required": str(required)[:4000],
                    "event": ev, "stderr": more[-3000:]}
            if getattr(job, "threads", None):
                data["threads"] = job.threads
            else:
                data["commands"] = [e["c"] for e in s.events[:idx + 1]]
            h = hashlib.sha256(json.dumps(data, sort_keys=True).encode()).hexdigest()[:12]
            d = os.path.join(build.VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.json" % (self.prop, h))
            with open(path, "w") as f:
                json.dump(data, f, indent=1)
            print("run %s (%s build), event %d: %s" % (job.name, job.variant, idx, json.dumps(clip(ev))))
            print("  required: %s" % str(required)[:600])
            if more:
                print("  " + more.strip()[-800:].replace("\n", "\n  "))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))

    def evidence(self, level):
        cov = self.cov
        cov["operations"] = dict(sorted(cov["operations"].items()))
        if level == "fault_enumeration":
            cov["evaluations"] = self.faults[0]
            cov["distinct_nontrivial"] = len(self.faults[1])
            cov["rule"] = ("a call with the n-th allocation, change of protection or plain allocation inside it failing, "
                           "n = 1, 2, ... until the call makes fewer; non-trivial: the fault was hit; distinct: another call, "
                           "kind of fault or n")
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(build.VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


NOTES = {"draws.check", "draws.add"}


def is_big(c):
    return c["op"].startswith("big.") or any("(" in v for v in c.values() if isinstance(v, str))


def clip(x):
    if isinstance(x, dict):
        return {k: clip(v) for k, v in x.items()}
    if isinstance(x, list):
        return [clip(v) for v in x[:6]]
    if isinstance(x, str) and len(x) > 96:
        return x[:80] + "...(%d chars)" % len(x)
    return x
