"""Driving the real library: commands, the driver process, recorded sessions."""
import json
import os
import random
import select
import signal
import subprocess

import build

# op -> (driver words, fields in the order the driver reads them).  A field
# named with a leading "*" is a list.
FIELDS = {
    "hash": "v m ?len",
    "key.new": "n s k", "key.rand": "n s", "key.null": "n", "key.move": "n s d", "key.assign": "n s d",
    "key.erase": "n s", "key.probe": "n s m", "key.peek": "n s",
    "drop": "s", "reset": "",
    "mac.new": "h n s key", "mac.rand": "h n s", "mac.move": "h n s d", "mac.assign": "h n s d",
    "mac.raw": "h n s m", "mac.arr": "h n s m", "mac.str": "h n s m", "mac.nullin": "h n s m",
    "mac.nullout": "h n s m", "mac.rawlen": "h n s m len", "mac.overlap": "h n s m len",
    "prf.new": "n s key", "prf.rand": "n s", "prf.move": "n s d", "prf.assign": "n s d", "prf.null": "n s",
    "prf.raw": "n s m", "prf.str": "n s m", "prf.arr": "n s m",
    "prf.key": "n s m d", "prf.keystr": "n s m d", "prf.keyarr": "n s m d",
    "prg.new": "s key", "prg.move": "s d", "prg.str0": "s len", "prg.ret0": "s len",
    "prg.str": "s off len", "prg.ret": "s off len", "prg.raw": "s off len", "prg.null": "s off len",
    "prg.sstr0": "s len", "prg.sret0": "s len", "prg.sstr": "s off len", "prg.sret": "s off len",
    "prg.sraw": "s off len", "prg.snull": "s off len", "prg.sarr": "s off len",
    "prg.key": "n s i d", "prg.keys": "n s count i d", "prg.keysdef": "n s count d",
    "prg.skey": "n s i d", "prg.skeys": "n s count i d",
    "cipher.new": "s key", "cipher.move": "s d", "cipher.enc": "s m", "cipher.encalias": "s m",
    "cipher.encarr": "s m", "cipher.dec": "s ct", "cipher.decalias": "s ct", "cipher.decarr": "s ct",
    "cipher.lens": "len",
    "wrapper.new": "s key", "wrapper.move": "s d", "wrapper.assign": "s d",
    "wrapper.wrap": "s ty o", "wrapper.unwrap": "s ty blob d",
    "prp.new": "s key", "prp.rand": "s", "prp.move": "s d", "prp.avail": "",
    "prp.enc32": "s v", "prp.dec32": "s v", "prp.enc64": "s v", "prp.dec64": "s v",
    "prp.table1": "s", "prp.table1d": "s", "prp.table2": "s lo cnt", "prp.table2d": "s lo cnt",
    "set.new": "s", "set.vec": "s *xs", "set.bytes": "s m", "set.copy": "s a", "set.movector": "s a",
    "set.assign": "s a", "set.add": "s x", "set.rem": "s x", "set.addset": "s a", "set.remset": "s a",
    "set.eq": "s a", "set.print": "s",
    "big.prg": "v s off len mid", "big.random": "len mid", "big.cipher": "s m flip", "big.prp": "v s m", "big.str": "h x",
    "strstrn": "h x", "lib.again": "", "lib.twice": "", "proc.fork": "", "proc.exit": "",
    "random.bytes": "len", "random.str": "len", "random.arr": "len", "random.arr64": "len", "random.fork": "len",
    "rc.maxleaf": "h", "rc.new": "n s key h", "rc.height": "n s", "rc.move": "n s d", "rc.eval": "n s l",
    "rc.range": "n s lo hi", "rc.rangecb": "n s lo hi stop", "rc.rangere": "n s lo hi", "rc.crangere": "n s lo hi", "rc.constrain": "n s lo hi d",
    "rc.ceval": "n s l", "rc.crange": "n s lo hi", "rc.cconstrain": "n s lo hi d", "rc.cinfo": "n s",
    "rc.cmove": "n s d", "rc.cassign": "n s d", "rc.leaf": "n d v h l", "rc.inner": "n d key h sh lo hi",
    "rc.assemble": "n d *parts", "rc.eeval": "n s l", "rc.erange": "n s lo hi",
    "tdp.irand": "s", "tdp.isk": "s pem", "tdp.imove": "s d", "tdp.pk": "s pem", "tdp.copy": "s d",
    "tdp.assign": "s d", "tdp.pool": "s pem size", "tdp.pcopy": "s d", "tdp.passign": "s d",
    "tdp.maxorder": "s", "tdp.priv": "s", "tdp.invert": "v s m", "tdp.imult": "v s m k",
    "tdp.peval": "v s m k", "tdp.pub": "kind v s", "tdp.sample": "kind v s", "tdp.eval": "kind v s m",
    "tdp.gen": "kind v s key m",
    "penc.new": "s key", "penc.enc": "s v m", "penc.init": "s d", "penc.inc": "s d m", "pdec.new": "s *xs", "pdec.dec": "s ct",
    "ppke.gen": "s", "ppke.genkey": "s key", "ppke.puncture": "s m", "ppke.asks": "s m", "ppke.shares": "s", "ppke.encpk": "s v m",
    "ppke.encsp": "s v m", "ppke.dec": "s ct", "ppke.decm": "s ct",
    "mem": "", "stackwatch": "", "memscan": "*xs", "stackscan": "*xs", "fault_alloc": "nth", "fault_new": "nth", "fault_nosys": "", "fault_prot": "nth err", "fault_off": "",
}
for _o in ("encstr", "encret", "encalias", "encraw", "decstr", "decret", "decalias", "decraw"):
    FIELDS["prp." + _o] = "s m"
DEFAULTS = {"prg.str0": {"off": "0"}, "prg.ret0": {"off": "0"}, "prg.sstr0": {"off": "0"},
            "prg.sret0": {"off": "0"}, "prg.keysdef": {"i": 0}}
HEXFIELDS = {"m", "k", "ct", "blob", "pem", "x", "h"}


def word(v):
    return "-" if v == "" else str(v)


def line(c):
    op = c["op"]
    out = op.split(".") if not op.startswith("fault") else [op]
    if "rep" in c:
        out = ["rep", str(c["rep"])] + out
    for f in FIELDS[op].split():
        if f.startswith("*"):
            out += [word(x) for x in c[f[1:]]]
        elif f.startswith("?"):
            if f[1:] in c:
                out.append(word(c[f[1:]]))
        else:
            out.append(word(c[f]))
    return " ".join(out)


CALL_TIMEOUT = 120


class Crashed(Exception):
    pass


class Misuse(Exception):
    """The driver was asked for something that makes no sense (it has no such object)."""


class Driver:
    def __init__(self, variant, args=(), env=None, exe=None):
        self.exe = exe or build.build(variant)
        self.variant = variant
        e = dict(os.environ)
        e["LD_BIND_NOW"] = "1"  # lazy binding saves registers on the stack, perhaps with a secret in them
        e.update(env or {})
        if variant.endswith(("asan", "tsan")):
            args = ["--keep-signals", *args]
            e.setdefault("ASAN_OPTIONS", "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:exitcode=77")
            e.setdefault("UBSAN_OPTIONS", "halt_on_error=1:exitcode=78")
        pre = []
        if variant == "memcheck":
            args = ["--keep-signals", *args]
            pre = ["valgrind", "-q", "--exit-on-first-error=yes", "--error-exitcode=79"]
        self.err = open(os.path.join(build.BUILD, "err-%d-%d" % (os.getpid(), id(self))), "w+b")
        self.p = subprocess.Popen([*pre, self.exe, *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=e, start_new_session=True)
        self.buf = b""

    def stderr_tail(self):
        self.err.seek(0)
        return self.err.read()[-3000:].decode("latin1")

    def readline(self, timeout):
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                return None
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                return b""
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return l

    def call(self, text, timeout=None):
        timeout = timeout or CALL_TIMEOUT
        try:
            self.p.stdin.write(text.encode() + b"\n")
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass
        l = self.readline(timeout)
        if l is None:
            self.kill()
            return {"e": "HANG"}
        if l == b"":
            rc = self.p.wait()
            if rc == 90:
                raise Misuse("driver misuse: %s: %s" % (text[:300], self.stderr_tail()))
            return {"e": "CRASH", "status": rc}
        try:
            return json.loads(l)
        except ValueError:
            return {"e": "GARBLED"}

    def finish(self, timeout=120):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        l = self.readline(timeout)
        if l is None:
            self.kill()
            return {"e": "HANG"}
        end = {"e": "CRASH"}
        if l:
            try:
                end = json.loads(l)
            except ValueError:
                end = {"e": "GARBLED"}
        try:
            rc = self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.kill()
            return {"e": "HANG"}
        end["status"] = rc
        return end

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def close(self):
        self.kill()
        for f in (self.p.stdout, self.p.stdin, self.err):
            try:
                f.close()
            except OSError:
                pass
        try:
            os.unlink(self.err.name)
        except OSError:
            pass


class Session:
    """One run of the driver: commands issued, responses recorded."""

    def __init__(self, variant="lock", seed=0, name="", env=None):
        self.variant = variant
        self.name = name
        self.rng = random.Random("%s/%s" % (seed, name))
        self.events = []
        self.d = Driver(variant, env=env)
        self.dead = False
        self.n = 0
        self.end = None
        self.error = None
        self.stderr = ""

    def do(self, op, **f):
        if self.dead:
            raise Crashed()
        c = {"op": op}
        c.update(DEFAULTS.get(op, {}))
        c.update(f)
        text = line(c)
        r = self.d.call(text, 500 if "(" in text or op.startswith("big.") else None)
        self.events.append({"c": c, "r": r})
        if r["e"] in ("CRASH", "HANG", "GARBLED"):
            self.dead = True
            self.stderr = self.d.stderr_tail()
            raise Crashed()
        return r

    def note(self, op, **f):
        """An event evaluated by the specification alone."""
        self.events.append({"c": dict(op=op, **f), "r": {"e": "ok"}})

    def fresh(self, p="s"):
        self.n += 1
        return "%s%d" % (p, self.n)

    # helpers -----------------------------------------------------------
    def bytes(self, n):
        return self.rng.randbytes(n).hex()

    def key(self, n=32, k=None):
        s = self.fresh("k")
        self.do("key.new", n=n, s=s, k=k if k is not None else self.bytes(n))
        return s

    def close(self):
        if not self.dead:
            self.end = self.d.finish()
            if self.end["e"] != "end" or self.end.get("status") != 0:
                self.stderr = self.d.stderr_tail()
        self.d.close()
