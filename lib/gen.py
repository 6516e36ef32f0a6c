"""Behaviours generated by TLC from spec/Client.tla, and their concretisation."""
import json
import os
import re
import tempfile

import build
import tlc


def _cfg(families, slots, maxlen, maxsecrets, simulate):
    t = ["SPECIFICATION Spec", "CONSTANTS",
         "  Families = {%s}" % ", ".join('"%s"' % f for f in families),
         "  SlotNames = {%s}" % ", ".join('"%s"' % s for s in slots),
         "  MaxLen = %d" % maxlen, "  MaxSecrets = %d" % maxsecrets,
         "  Simulate = %s" % ("TRUE" if simulate else "FALSE"),
         "INVARIANT SingleOwner Provenance RoundTrip", "CHECK_DEADLOCK FALSE"]
    if simulate:
        t.append("INVARIANT ReportEnd")
    else:
        t += ["VIEW View", "ACTION_CONSTRAINT Report"]
    return "\n".join(t) + "\n"


def _lines(out):
    hs = []
    for l in out.split("\n"):
        if l.startswith('"GEN '):
            hs.append(json.loads(json.loads(l)[4:]))
    return hs


def _run(cfg, args, **kw):
    fd, path = tempfile.mkstemp(suffix=".cfg", dir=build.BUILD)
    with os.fdopen(fd, "w") as f:
        f.write(cfg)
    try:
        return tlc.run("Client", path, args=args, **kw)
    finally:
        os.unlink(path)


def explore(ctx, families, slots, maxlen, maxsecrets, timeout=300):
    """Every transition of the bounded model, by a shortest program reaching it."""
    rc, out = _run(_cfg(families, slots, maxlen, maxsecrets, False), (), timeout=timeout, mem="4g")
    if rc != 0:
        raise tlc.SpecError("Client model: " + out[-2500:])
    c = tlc.counts(out)
    with ctx.lock:
        ctx.cov["states"] += c["distinct"]
        ctx.cov["transitions"] += c["generated"]
        ctx.cov["models"]["Client " + "+".join(families)] = c
    hs = _lines(out)
    # a program that is the beginning of another one need not be run
    keys = sorted((json.dumps(h)[:-1], h) for h in hs)
    return [h for i, (k, h) in enumerate(keys) if i + 1 == len(keys) or not keys[i + 1][0].startswith(k)]


def simulate(ctx, families, slots, maxlen, maxsecrets, num, seed, timeout=300):
    """num long random programs."""
    rc, out = _run(_cfg(families, slots, maxlen, 100000, True),
                   ("-simulate", "num=%d" % num, "-depth", str(maxlen + 2), "-seed", str(seed)), timeout=timeout)
    if rc != 0:
        raise tlc.SpecError("Client simulation: " + out[-2500:])
    groups = {}
    for h in _lines(out):
        groups[json.dumps(h[:-1])] = h
    hs = list(groups.values())
    with ctx.lock:
        ctx.cov["models"]["Client simulation " + "+".join(families)] = {"programs": len(hs), "length": maxlen}
    return hs


class Replay:
    """Concretises and issues one program in a session."""

    def __init__(self, s, ident):
        self.s, self.ident = s, ident
        self.outs, self.names, self.rc, self.blob_rc = [], {}, {}, {}
        import random
        self.rng = random.Random("%s/%s" % (ident, s.rng.random()))

    def bytes(self, name, n):
        if name not in self.names:
            self.names[name] = self.rng.randbytes(n).hex()
        return self.names[name]

    def named(self, v):
        name, n = v[1:].split("/")
        return name, int(n)

    def out(self, ref):
        m = re.match(r"\$(\d+)(?:~(\w+))?$", ref)
        b = self.outs[int(m.group(1)) - 1]
        if b is None:
            b = self.rng.randbytes(40).hex()
        return self.damage(bytes.fromhex(b), m.group(2) or "").hex()

    def damage(self, b, how):
        r = self.rng
        b = bytearray(b)
        n = len(b)
        if how == "bit":
            b[r.randrange(n)] ^= 1 << r.randrange(8)
        elif how == "nonce":
            b[r.randrange(16)] ^= 1 << r.randrange(8)
        elif how == "tag":
            b[n - 1 - r.randrange(12)] ^= 1 << r.randrange(8)
        elif how == "cut":
            del b[r.randrange(n):]
        elif how == "cut1":
            del b[-1:]
        elif how == "ext":
            b += r.randbytes(r.choice((1, 16, 28, 32)))
        elif how == "swap":
            i = r.randrange(n - 1)
            b[i], b[i + 1] = b[i + 1], b[i]
            if b[i] == b[i + 1]:
                b[i] ^= 1
        elif how == "zero":
            i = r.randrange(n)
            if b[i] == 0:
                b[i] = 1
            else:
                b[i] = 0
        return bytes(b)

    def tree(self, c):
        """Chooses the leaves of a tree command."""
        r = self.rng
        h, lo, hi = self.rc[c["s"]]
        top = (1 << (h - 1)) - 1
        if "l" in c and isinstance(c["l"], str) and c["l"].startswith("%"):
            k = int(c["l"][5:])
            if k == 0:
                v = lo
            elif k == 1:
                v = hi
            elif k == 2:
                v = (lo + hi) // 2
            elif k == 3:
                v = lo - 1 if lo > 0 else hi + 1
            elif k == 4:
                v = r.choice((hi + 1, top, top + 1, 2 * top + 1))
            else:
                v = r.randint(lo, hi)
            c["l"] = str(v % (1 << 64))
        if "lo" in c and isinstance(c["lo"], str) and c["lo"].startswith("%"):
            kind = c["lo"].rstrip("0123456789")
            k = int(c["lo"][len(kind):])
            if kind == "%lo":               # a range to evaluate: few values
                a = r.choice((lo, hi, r.randint(lo, hi), max(lo, hi - 20)))
                b = a + r.choice((0, 1, 2, 7, 20))
                if k not in (8, 9):
                    b = min(b, hi)
                if k == 7 and a > 0:
                    a, b = b, a - 1         # inverted
            else:                           # a range to constrain to: never the whole tree
                whole = kind == "%clo"
                while True:
                    x, y = r.randint(lo, hi), r.randint(lo, hi)
                    a, b = min(x, y), max(x, y)
                    if k in (0, 1):
                        a = lo
                    if k in (2, 3):
                        b = hi
                    if k in (4, 5):
                        b = min(hi, a + r.choice((0, 1, 3, 30)))
                    if not (whole and a == 0 and b == top):
                        break
                if kind == "%dlo" and k == 6:
                    a, b = lo, hi
            c["lo"], c["hi"] = str(a), str(b)
        return c

    def run(self, hist):
        for c0 in hist:
            c = dict(c0)
            for f, v in list(c.items()):
                if isinstance(v, str) and v.startswith("@"):
                    c[f] = self.bytes(*self.named(v))
                elif isinstance(v, str) and v.startswith("$"):
                    c[f] = self.out(v)
                elif isinstance(v, list):
                    c[f] = [self.bytes(*self.named(x)) for x in v]
            op = c["op"]
            if op.startswith("rc.") and op not in ("rc.new", "rc.move", "rc.cmove", "rc.cassign"):
                c = self.tree(c)
            r = self.s.do(**c)
            self.outs.append(r.get("out") if r["e"] == "ok" and isinstance(r.get("out"), str) else None)
            if r["e"] != "ok":
                continue
            if op == "rc.new":
                self.rc[c["s"]] = (c["h"], 0, (1 << (c["h"] - 1)) - 1)
            elif op in ("rc.move", "rc.cmove", "rc.cassign"):
                self.rc[c["d"]] = self.rc.get(c["s"], (2, 0, 1))
            elif op in ("rc.constrain", "rc.cconstrain"):
                self.rc[c["d"]] = (self.rc[c["s"]][0], int(c["lo"]), int(c["hi"]))
            elif op == "wrapper.wrap" and c["t"] in ("rc", "cr"):
                self.blob_rc[r["out"]] = self.rc.get(c["o"], (2, 0, 1))
            elif op == "wrapper.unwrap" and c["t"] in ("rc", "cr"):
                self.rc[c["d"]] = self.blob_rc.get(c["blob"], (2, 0, 1))


def replay_all(ctx, name, hists, variant="lock", per=120, **kw):
    """Jobs that replay programs, several to a session, separated by reset."""
    for i in range(0, len(hists), per):
        part = hists[i:i + per]

        def fn(s, part=part, i=i):
            for j, h in enumerate(part):
                Replay(s, "%s/%d" % (name, i + j)).run(h)
                s.do("reset")
        ctx.job("%s-%d" % (name, i), fn, variant=variant, **kw)
