"""Scenarios: the runs of the real library, per property.  The commands come
from the generators (spec/Client.tla and the boundary sweeps below); what the
library must answer is decided by the specification alone."""
import hashlib
import itertools
import json
import math
import os
import threading

import build
import craft
import deep
import gen

DATA = os.path.join(build.VERIF, "data")
KEY_SIZES = [16, 17, 18, 20, 24, 25, 31, 32, 33, 48, 63, 64, 65, 100, 112, 127, 128]
PRF_SIZES = [1, 2, 8, 11, 12, 16, 20, 25, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 192, 256, 264, 1000, 2000,
             4097, 16384, 16385, 16448, 20000, 33000, 65535]
PRF_WRAP = [1, 2, 12, 16, 32, 33, 64, 65, 128, 256, 264, 2000]
PRF_KEYS = [16, 20, 25, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128]
OTHER_KEYS = [1, 8, 15, 129, 144, 192, 200, 256, 264, 1000, 2000, 4096, 4097]     # not for HMac
RC_SIZES = [16, 32]
RC_MORE = [1, 11, 20, 33, 64, 100, 272]
NEAR_16 = [17, 18, 20, 24, 48, 80, 144, 272, 528, 1040, 2064, 4112, 8208, 16400, 32784]      # one bit away
EDGE = [0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 111, 112, 113, 127, 128, 129, 191, 192, 193, 255, 256, 257,
        300, 511, 512, 513, 1000, 1023, 1024, 1025]
LONG = [2048, 4095, 4096, 4097, 8191, 16384, 32767, 32768, 65407, 65408, 65535, 65536, 65537, 70000, 131072, 200000]
SLOTS = ("a", "b", "c", "d", "e")


def special(n):
    """Contents that implementations treat specially."""
    return [b"\0" * n, b"\xff" * n, bytes(i & 255 for i in range(n)), (b"\0\1" * n)[:n], (b"\x80" + b"\0" * n)[:n],
            (b"\0" * n + b"\1")[1:][:n]]


def rsa():
    return json.load(open(os.path.join(DATA, "rsa.json")))


def hexs(b):
    return (b if isinstance(b, bytes) else b.encode()).hex()


def split(ctx, name, items, per, body, **kw):
    """One job per slice of items; body(session, item)."""
    for i in range(0, len(items), per):
        def fn(s, part=items[i:i + per]):
            for x in part:
                body(s, x)
            s.do("reset")
        ctx.job("%s-%d" % (name, i // per), fn, **kw)


# ------------------------------------------------ more than 4 GB at once
BIG = threading.Semaphore(2)
GIB4 = 1 << 32


def free_memory():
    try:
        for l in open("/proc/meminfo"):
            if l.startswith("MemAvailable"):
                return int(l.split()[1]) << 10
    except OSError:
        pass
    return 0


def big(ctx, name, fn, need=13, **kw):
    """A run with calls on more than 4 GB, if there is memory for it (need: GB)."""
    def run(s):
        with BIG:
            if free_memory() > (need + 4) << 30:
                fn(s)
            else:
                ctx.assumptions.append("run %s left out: not enough free memory" % name)
    ctx.job("big-" + name, run, **kw)


def long_bytes(s, z=GIB4):
    """A byte string with z zeros inside."""
    return "%s(%d)%s" % (s.bytes(40), z, s.bytes(37))


def sizes(ctx):
    return [GIB4] if ctx.quick else [GIB4, (1 << 31) - 30, GIB4 - 90, 2 * GIB4 - 70]


# ------------------------------------------------------------------ hash, hmac
def H01(ctx):
    for z in sizes(ctx):
        for v in ("raw", "retlen") if ctx.quick else ("raw", "str", "ret", "rawlen", "strlen", "retlen", "sha512"):
            big(ctx, "hash-%s-%d" % (v, z), lambda s, v=v, z=z: s.do("hash", v=v, m=long_bytes(s, z), len=40))

        def big_mac(s, h, op, z=z):
            s.do("mac.new", h=h, n=32, s="m", key=s.key())
            s.do(op, h=h, n=32, s="m", m=long_bytes(s, z))
        for h in "bs":
            for op in ("mac.str",) if ctx.quick else ("mac.str", "mac.raw", "mac.arr"):
                big(ctx, "%s-%s-%d" % (op, h, z), lambda s, h=h, op=op: big_mac(s, h, op))

    ctx.model("MC_Mac")
    lens = list(range(0, ctx.size(270, 600))) + [1000, 1023, 1024, 1025, 4095, 4096, 4097, 65536, 100001]
    if not ctx.quick:
        lens += list(range(600, 3000, 7)) + [1 << 20, (1 << 20) + 1]

    def hashes(s, n):
        for v in ("raw", "str", "ret", "sha512"):
            s.do("hash", v=v, m=s.bytes(n))
        if n <= 600:
            s.do("hash", v="stralias", m=s.bytes(n))
        if n >= 64:
            s.do("hash", v="rawinplace", m=s.bytes(n))
    split(ctx, "hash", lens, ctx.size(60, 100), hashes)

    def trunc(s, ln):
        for v in ("rawlen", "strlen", "retlen"):
            for n in (0, 1, 63, 64, 128, 129, s.rng.randrange(400)):
                s.do("hash", v=v, m=s.bytes(n), len=ln)
    split(ctx, "trunc", list(range(0, 70)) + [100, 127, 128, 129, 255, 256, 257, 1000], 80, trunc)

    def nulls(s):
        for v in ("nullin", "nullout", "nullinlen", "nulloutlen"):
            s.do("hash", v=v, m=s.bytes(5))
        for c in special(64) + special(128) + special(200):
            for v in ("raw", "sha512"):
                s.do("hash", v=v, m=hexs(c))
    ctx.job("nulls", nulls)

    def macs(s, item):
        h, n, kk = item
        k = s.key(n, kk)
        m = s.fresh("m")
        s.do("mac.new", h=h, n=n, s=m, key=k)
        ls = EDGE if ctx.quick else EDGE + list(range(0, 400))
        for i, ln in enumerate(ls):
            x = s.bytes(ln)
            s.do(("mac.raw", "mac.str", "mac.arr")[i % 3], h=h, n=n, s=m, m=x)
        for ln in (0, 1, 12, 31, 32, 33, 63, 64, 65, 100, 128):
            s.do("mac.rawlen", h=h, n=n, s=m, m=s.bytes(40), len=ln)
        if n in (16, 33, 64, 128) and kk is None:
            for i, ln in enumerate(LONG):
                s.do(("mac.raw", "mac.str")[i % 2], h=h, n=n, s=m, m=s.bytes(ln))
                s.do("mac.rawlen", h=h, n=n, s=m, m=s.bytes(ln), len=33)
        s.do("mac.nullin", h=h, n=n, s=m, m="")
        s.do("mac.nullout", h=h, n=n, s=m, m=s.bytes(3))
        d = s.fresh("m")
        s.do("mac.move", h=h, n=n, s=m, d=d)
        s.do("mac.raw", h=h, n=n, s=d, m=s.bytes(33))
        s.do("mac.raw", h=h, n=n, s=m, m=s.bytes(33))
        s.do("reset")
    items = [("b", n, None) for n in KEY_SIZES] + [("s", n, None) for n in (16, 25, 32, 64, 127, 128)]
    items += [(h, n, hexs(c)) for h in "bs" for n in (32, 64, 128) for c in special(n)[:ctx.size(3, 6)]]
    split(ctx, "mac", items, ctx.size(10, 6), macs)

    def like(s, ln):
        for h, n in (("b", 32), ("s", 32), ("b", 64), ("s", 128)):
            k = s.bytes(n)
            s.do("mac.new", h=h, n=n, s="m", key=s.key(n, k))
            s.do("mac.new", h=h, n=n, s="near", key=s.key(n, flip(bytes.fromhex(k), 8 * n - 1).hex()))
            for i, x in enumerate(deep.related(s.rng, ln)):
                s.do(("mac.raw", "mac.str", "mac.arr")[i % 3], h=h, n=n, s="m", m=x.hex())
                if i % 4 == 0:
                    s.do("mac.raw", h=h, n=n, s="near", m=x.hex())
            s.do("reset")
        for i, x in enumerate(deep.related(s.rng, ln)):
            s.do("hash", v=("raw", "str", "ret", "sha512")[i % 4], m=x.hex())
    split(ctx, "like", [1, 20, 64, 128, 600, 5000], 2, like)

    def overlaps(s):
        for h, n in (("b", 32), ("s", 32), ("b", 128)):
            s.do("mac.new", h=h, n=n, s="m", key=s.key(n))
            for ln in (1, 32, 63, 64, 65, 100, 127, 128, 129, 200, 256, 300, 1000):
                for d in (0, 1, 8, 31, 63, 64, ln // 2, ln - 1, ln):
                    s.do("mac.overlap", h=h, n=n, s="m", m=s.bytes(ln), len=d)
                    if n == 32:
                        s.do("hash", v="overlap", m=s.bytes(ln), len=d)
        s.do("reset")
    ctx.job("overlaps", overlaps)

    def many(s, h):
        s.do("mac.new", h=h, n=32, s="m", key=s.key(32))
        for i, x in enumerate(deep.rows(s.rng, ctx.size(1300, 6000), (0, 1, 8, 20, 64, 100, 130))):
            s.do(("mac.raw", "mac.str")[i % 2], h=h, n=32, s="m", m=x.hex())
            if i % 3 == 0:
                s.do("hash", v=("raw", "str", "ret", "sha512")[i % 4], m=x.hex())
        s.do("reset")
    split(ctx, "many", ["b", "s"], 1, many)

    def huge(s, n):
        m = s.bytes(n)
        for v in ("raw", "str", "ret", "sha512"):
            s.do("hash", v=v, m=m)
        for h in "bs":
            s.do("mac.new", h=h, n=32, s="m", key=s.key(32))
            s.do("mac.raw", h=h, n=32, s="m", m=m)
            s.do("mac.str", h=h, n=32, s="m", m=m)
        s.do("reset")
    split(ctx, "huge", deep.HUGE if not ctx.quick else deep.HUGE[1:], 2, huge)
    gen.replay_all(ctx, "macprog", gen.simulate(ctx, ["key", "mac", "misuse"], SLOTS, 60, 12,
                                                ctx.size(12, 100), ctx.seed + 11), per=ctx.size(12, 25))


# ------------------------------------------------------------------ prf
def F01(ctx):
    for z in sizes(ctx):
        def big_prf(s, n, op, z=z):
            s.do("prf.new", n=n, s="f", key=s.key())
            s.do(op, n=n, s="f", m=long_bytes(s, z))
        for n, op in ((32, "prf.str"), (65, "prf.str")) if ctx.quick else ((32, "prf.str"), (65, "prf.str"), (64, "prf.raw"), (128, "prf.raw")):
            big(ctx, "%s-%d-%d" % (op, n, z), lambda s, n=n, op=op: big_prf(s, n, op))

    ctx.model("MC_Mac")
    def prfs(s, n):
        big = n > 1000
        k = s.bytes(32)
        p, q = s.fresh("p"), s.fresh("p")
        s.do("prf.new", n=n, s=p, key=s.key(32, k))
        s.do("prf.new", n=n, s=q, key=s.key(32, k))
        ls = [0, 1, 20, 64, 129] if big else EDGE if ctx.quick else EDGE + list(range(300))
        for i, ln in enumerate(ls):
            x = s.bytes(ln)
            s.do("prf.raw", n=n, s=p, m=x)
            s.do("prf.str", n=n, s=q, m=x)
            if ln in (1, 20, 64, 128):
                s.do("prf.arr", n=n, s=p, m=x)
        if n in (12, 64, 65, 256):
            for ln in LONG:
                x = s.bytes(ln)
                s.do("prf.raw", n=n, s=p, m=x)
                s.do("prf.str", n=n, s=q, m=x)
        s.do("prf.null", n=n, s=p)
        if n in PRF_KEYS or n in OTHER_KEYS:
            for ln in (0, 1, 20, 64, 128) if ctx.quick else EDGE:
                x = s.bytes(ln)
                for op in ("prf.key", "prf.keystr") + (("prf.keyarr",) if ln in (1, 20, 64, 128) else ()):
                    d = s.fresh("k")
                    s.do(op, n=n, s=p, m=x, d=d)
                    s.do("key.probe", n=n, s=d, m=s.bytes(9))
        d = s.fresh("p")
        s.do("prf.move", n=n, s=p, d=d)
        s.do("prf.raw", n=n, s=d, m=s.bytes(10))
        s.do("prf.raw", n=n, s=p, m=s.bytes(10))
        s.do("prf.assign", n=n, s=d, d=q)
        s.do("prf.raw", n=n, s=q, m=s.bytes(10))
        s.do("reset")
    small = [n for n in PRF_SIZES if n <= 1000]
    split(ctx, "prf", small, 4, prfs)
    split(ctx, "prfbig", [n for n in PRF_SIZES if n > 1000], 3, prfs)

    def contents(s):
        for kk in special(32):
            p = s.fresh("p")
            s.do("prf.new", n=100, s=p, key=s.key(32, hexs(kk)))
            for n in (1, 32, 64, 127, 128, 129):
                for m in special(n):
                    s.do("prf.str", n=100, s=p, m=hexs(m))
            s.do("reset")
    ctx.job("contents", contents)

    def like(s, ln):
        for n in (16, 32, 64, 100, 256):
            k = s.bytes(32)
            s.do("prf.new", n=n, s="p", key=s.key(32, k))
            s.do("prf.new", n=n, s="near", key=s.key(32, flip(bytes.fromhex(k), 255).hex()))
            for i, x in enumerate(deep.related(s.rng, ln)):
                s.do(("prf.raw", "prf.str")[i % 2], n=n, s="p", m=x.hex())
                if i % 4 == 0:
                    s.do("prf.str", n=n, s="near", m=x.hex())
                if i % 7 == 0 and n in PRF_KEYS:
                    s.do("prf.key", n=n, s="p", m=x.hex(), d="d")
                    s.do("key.probe", n=n, s="d", m=x.hex())
            s.do("reset")
    split(ctx, "like", [1, 20, 64, 128, 600, 5000], 2, like)

    def many(s, n):
        s.do("prf.new", n=n, s="p", key=s.key(32))
        for i, x in enumerate(deep.rows(s.rng, ctx.size(1300, 6000), (0, 1, 8, 20, 64, 100, 130))):
            s.do(("prf.raw", "prf.str")[i % 2], n=n, s="p", m=x.hex())
            if i % 9 == 0 and n in PRF_KEYS:
                s.do("prf.key", n=n, s="p", m=x.hex(), d="d")
                s.do("key.probe", n=n, s="d", m="00")
        s.do("reset")
    split(ctx, "many", [32, 128, 192], 1, many)

    def huge(s, ln):
        m = s.bytes(ln)
        for n in (32, 100):
            s.do("prf.new", n=n, s="p", key=s.key(32))
            s.do("prf.raw", n=n, s="p", m=m)
            s.do("prf.str", n=n, s="p", m=m)
        s.do("reset")
    split(ctx, "huge", deep.HUGE if not ctx.quick else deep.HUGE[1:], 2, huge)
    gen.replay_all(ctx, "prfprog", gen.simulate(ctx, ["key", "prf", "misuse"], SLOTS, 60, 12,
                                                ctx.size(12, 100), ctx.seed + 12), per=ctx.size(12, 25))


# ------------------------------------------------------------------ prg
PRG_OFFS = [0, 1, 31, 32, 33, 62, 63, 64, 65, 100, 127, 128, 129, 191, 192, 255, 256, 1000, 4095, 4096, 65535, 65536,
            (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 63, (1 << 37), (1 << 38) - 64, (1 << 38) - 1,
            1 << 38, (1 << 38) + 1, (1 << 40) + 7, (1 << 42) + 64, (1 << 48) - 3, (1 << 56) + 65, (1 << 63) - 1, 1 << 63,
            (1 << 63) + 130, (1 << 64) - 8192, (1 << 64) - 400]


def G01(ctx):
    for z in sizes(ctx):
        def big_prg(s, off, v, z=z):
            s.do("prg.new", s="g", key=s.key())
            s.do("big.prg", v=v, s="g", off=str(off), len=str(z + 333), mid=str(z - 32))
        for off, v in ((0, "raw"), (37, "str"), ((1 << 38) - 128, "raw")):
            big(ctx, "prg-%d-%s-%d" % (off, v, z), lambda s, off=off, v=v: big_prg(s, off, v), need=9)

    ctx.model("MC_Prg")
    lens = [0, 1, 2, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 192, 200, 256, 257, 300]

    def windows(s, off):
        k = s.bytes(32)
        g = s.fresh("g")
        s.do("prg.new", s=g, key=s.key(32, k))
        for i, ln in enumerate(lens):
            s.do("prg.raw", s=g, off=str(off), len=ln)
            s.do(("prg.str", "prg.ret")[i % 2], s=g, off=str(off), len=ln)
            s.do(("prg.sraw", "prg.sret", "prg.sstr")[i % 3], s=s.key(32, k), off=str(off), len=ln)
        for ln in (1, 16, 63, 64, 65, 200):
            s.do("prg.sarr", s=s.key(32, k), off=str(off), len=ln)
        s.do("reset")
    offs = PRG_OFFS + [ctx.rng.randrange(1 << 20) for _ in range(ctx.size(3, 40))]
    if not ctx.quick:
        offs += list(range(0, 200))
    split(ctx, "windows", offs, ctx.size(6, 12), windows)

    def starts(s, ln):
        k = s.bytes(32)
        g = s.fresh("g")
        s.do("prg.new", s=g, key=s.key(32, k))
        s.do("prg.str0", s=g, len=ln)
        s.do("prg.ret0", s=g, len=ln)
        s.do("prg.sstr0", s=s.key(32, k), len=ln)
        s.do("prg.sret0", s=s.key(32, k), len=ln)
        s.do("prg.null", s=g, off="0", len=ln)
        s.do("prg.raw", s=g, off="0", len=ln)
        s.do("reset")
    split(ctx, "starts", lens + [1000, 4096, 10000] + ([] if ctx.quick else list(range(300)) + [100000]),
          ctx.size(8, 40), starts)

    def grid(s, off):       # every length against every alignment
        k = s.bytes(32)
        g = s.fresh("g")
        s.do("prg.new", s=g, key=s.key(32, k))
        for ln in range(1, 131, ctx.size(5, 1)):
            s.do("prg.raw", s=g, off=str(off), len=ln)
        s.do("reset")
    split(ctx, "grid", list(range(0, 66)), ctx.size(22, 11), grid)

    def history(s):
        # the same windows again and again, in another order, between other uses
        k = s.bytes(32)
        g = s.fresh("g")
        s.do("prg.new", s=g, key=s.key(32, k))
        for i in range(ctx.size(150, 800)):
            off = s.rng.choice((0, 64, 100, 1000, s.rng.randrange(5000), s.rng.randrange(1 << 33)))
            s.do(s.rng.choice(("prg.raw", "prg.str", "prg.ret")), s=g, off=str(off), len=s.rng.randrange(0, 150))
            if i % 20 == 19:
                d = s.fresh("g")
                s.do("prg.move", s=g, d=d)
                s.do("prg.raw", s=g, off="0", len=5)
                g = d
            if i % 7 == 0:
                s.do("prg.key", n=32, s=g, i=s.rng.randrange(5), d="dk")
        for kk in special(32):
            s.do("prg.new", s="sp", key=s.key(32, hexs(kk)))
            s.do("prg.raw", s="sp", off="3", len=150)
        s.do("prg.snull", s=s.key(32), off="0", len=10)
        s.do("reset")
    for j in range(ctx.size(2, 6)):
        ctx.job("history-%d" % j, history)

    def huge(s, ln):
        k = s.bytes(32)
        s.do("prg.new", s="g", key=s.key(32, k))
        for i, off in enumerate((0, 1, 63, 64, 1000, (1 << 32) - 100, (1 << 38) - (ln // 2) - 3)):
            if ln < 300000 or i in (0, 2, 6):
                s.do(("prg.raw", "prg.str", "prg.ret")[i % 3], s="g", off=str(off), len=ln)
                s.do(("prg.sraw", "prg.sret", "prg.sstr")[i % 3], s=s.key(32, k), off=str(off), len=ln)
        s.do("prg.raw", s="g", off="5", len=100)
        s.do("reset")
    split(ctx, "huge", (65535, 65536) + deep.HUGE, 2, huge)

    def near(s):
        # windows one after the other that have an end, a length or a block in common; keys alike
        k = s.bytes(32)
        s.do("prg.new", s="g", key=s.key(32, k))
        s.do("prg.new", s="near", key=s.key(32, flip(bytes.fromhex(k), 255).hex()))
        for off, ln in ((0, 64), (64, 64), (0, 128), (1, 64), (0, 64), (63, 2), (64, 1), (63, 1), (128, 64), (128, 65),
                        (127, 64), (0, 64), ((1 << 32), 64), (0, 64), ((1 << 38), 64), (64, 64), ((1 << 38) + 64, 64)):
            for d in (0, 64, 4096):
                for g in ("g", "near", "g"):
                    s.do("prg.raw", s=g, off=str(off + d), len=ln)
        s.do("reset")
        s.do("prg.new", s="g", key=s.key(32))
        for i in range(ctx.size(1300, 6000)):
            s.do(("prg.raw", "prg.str", "prg.ret")[i % 3], s="g", off=str(i * 17 % 4001), len=1 + i * 29 % 200)
        s.do("reset")
    ctx.job("near", near)
    gen.replay_all(ctx, "prgprog", gen.simulate(ctx, ["key", "prg"], SLOTS, 60, 14,
                                                ctx.size(12, 100), ctx.seed + 13), per=ctx.size(12, 25))


def G02(ctx):
    def one(s, n):
        k = s.bytes(32)
        g = s.fresh("g")
        s.do("prg.new", s=g, key=s.key(32, k))
        for i in (0, 1, 2, 3, 7, 8, 100, 255, 256, 257, 1000, 65535):
            s.do("prg.key", n=n, s=g, i=i, d="d")
            s.do("key.probe", n=n, s="d", m=s.bytes(5))
            s.do("prg.skey", n=n, s=s.key(32, k), i=i, d="d")
            s.do("key.probe", n=n, s="d", m=s.bytes(5))
        for cnt, i in ((0, 0), (1, 0), (2, 0), (3, 1), (5, 7), (17, 0), (40, 3), (41, 0), (100, 1),
                       (2, 255), (1, 256), (2, 1000), (3, 4095), (2, 65534), (1, 65535), (3, 65535)) \
                + (((260, 0), (600, 9)) if n in (17, 33, 128) else ((2100, 0),) if n == 32 else ((4200, 1),) if n == 16 else ()):
            s.do("prg.keys", n=n, s=g, count=cnt, i=i, d="v")
            probe(s, n, cnt, "v")
            s.do("prg.skeys", n=n, s=s.key(32, k), count=cnt, i=i, d="w")
            probe(s, n, cnt, "w")
            s.do("prg.keysdef", n=n, s=g, count=cnt, d="x")
            probe(s, n, cnt, "x")
        d = s.fresh("g")
        s.do("prg.move", s=g, d=d)
        s.do("prg.key", n=n, s=g, i=0, d="no")
        s.do("prg.keys", n=n, s=g, count=2, i=0, d="no")
        s.do("prg.keys", n=n, s=g, count=0, i=0, d="no")
        k0 = s.key(32, k)
        s.do("prg.skey", n=n, s=k0, i=0, d="no")
        s.do("prg.skey", n=n, s=k0, i=0, d="no")
        s.do("prg.skeys", n=n, s=k0, count=2, i=0, d="no")
        s.do("reset")

    def probe(s, n, cnt, d):
        idx = range(cnt) if (cnt <= 5 or not ctx.quick) else [0, 1, cnt // 2, cnt - 2, cnt - 1]
        for i in idx:
            if i < 40 or i == cnt - 1:
                s.do("key.probe", n=n, s="%s%s" % (d, i if i < 40 else "L"), m="6d")
    split(ctx, "sizes", KEY_SIZES, 2, one)
    split(ctx, "others", OTHER_KEYS, 3, one)

    def agree(s):
        # derived keys are windows of the same stream the strings come from
        for n in (16, 32, 64):
            k = s.bytes(32)
            s.do("prg.new", s="g", key=s.key(32, k))
            for i in range(6):
                s.do("prg.raw", s="g", off=str(i * n), len=n)
                s.do("prg.key", n=n, s="g", i=i, d="d")
                s.do("key.probe", n=n, s="d", m="00")
            # keys derived from derived keys
            s.do("prg.key", n=32, s="g", i=3, d="d")
            for depth in range(5):
                s.do("prg.new", s="g%d" % depth, key="d")
                s.do("prg.raw", s="g%d" % depth, off="10", len=70)
                s.do("prg.key", n=32, s="g%d" % depth, i=depth, d="d")
            s.do("key.probe", n=32, s="d", m="")
            s.do("reset")
    ctx.job("agree", agree)
    gen.replay_all(ctx, "prgkeys", gen.simulate(ctx, ["key", "prg", "mac"], SLOTS, 60, 16,
                                                ctx.size(12, 100), ctx.seed + 14), per=ctx.size(12, 25))


# ------------------------------------------------------------------ cipher
ARR = [1, 2, 15, 16, 17, 32, 63, 64, 65, 100, 127, 128, 129, 256]


def flip(b, i):
    x = bytearray(b)
    x[i // 8] ^= 1 << (i % 8)
    return bytes(x)


def E01(ctx):
    for z in sizes(ctx):
        def big_cipher(s, z=z):
            s.do("cipher.new", s="c", key=s.key())
            s.do("big.cipher", s="c", m=long_bytes(s, z), flip=str(z + s.rng.randrange(80)))
        big(ctx, "cipher-%d" % z, big_cipher, need=14 if z <= GIB4 else 26)

    ctx.model("MC_Seal", "MC_Seal.cfg" if ctx.quick else "MC_Seal_big.cfg", timeout=800 if ctx.quick else 3000)
    lens = list(range(1, ctx.size(140, 400))) + [200, 255, 256, 257, 1000, 4096, 16384, 70000]

    def trips(s, n):
        k = s.bytes(32)
        s.do("cipher.new", s="c", key=s.key(32, k))
        s.do("cipher.new", s="c2", key=s.key(32, k))
        m = s.bytes(n)
        r1 = s.do("cipher.enc", s="c", m=m)
        r2 = s.do("cipher.encalias", s="c", m=m)
        for r in (r1, r2):
            if r["e"] == "ok":
                s.do("cipher.dec", s="c2", ct=r["out"])
                s.do("cipher.decalias", s="c", ct=r["out"])
                s.do("cipher.dec", s="c", ct=flip(bytes.fromhex(r["out"]), s.rng.randrange(8 * (n + 32))).hex())
        if n in ARR:
            r = s.do("cipher.encarr", s="c", m=m)
            if r["e"] == "ok":
                s.do("cipher.decarr", s="c2", ct=r["out"])
                s.do("cipher.dec", s="c2", ct=r["out"])
                for _ in range(4):
                    s.do("cipher.decarr", s="c", ct=flip(bytes.fromhex(r["out"]), s.rng.randrange(8 * (n + 32))).hex())
            s.do("cipher.decarr", s="c2", ct=r1.get("out", "00" * (n + 32)))
        s.do("cipher.enc", s="c", m="")
        s.do("reset")
    split(ctx, "trips", lens, ctx.size(30, 40), trips)

    def tamper(s, n):
        k = s.bytes(32)
        s.do("cipher.new", s="c", key=s.key(32, k))
        s.do("cipher.new", s="o", key=s.key(32))
        s.do("cipher.new", s="near", key=s.key(32, flip(bytes.fromhex(k), s.rng.randrange(256)).hex()))
        m = s.bytes(n)
        a = s.do("cipher.enc", s="c", m=m)
        b = s.do("cipher.enc", s="c", m=s.bytes(n))
        if a["e"] != "ok" or b["e"] != "ok":
            return
        a, b = bytes.fromhex(a["out"]), bytes.fromhex(b["out"])
        for i in range(8 * len(a)) if (n <= 17 or not ctx.quick) else s.rng.sample(range(8 * len(a)), 150):
            s.do("cipher.dec", s="c", ct=flip(a, i).hex())
        for i in range(len(a)):
            s.do("cipher.dec", s="c", ct=a[:i].hex())
            s.do("cipher.dec", s="c", ct=a[i:].hex())
        for x in (b"\0", b"\xff", a, a[:16], a[-16:]):
            s.do("cipher.dec", s="c", ct=(a + x).hex())
            s.do("cipher.dec", s="c", ct=(x + a).hex())
        for i in (1, 4, 8, 12, 13, 15, 16, 16 + n // 2, 16 + n, 16 + n + 8, len(a) - 1):
            s.do("cipher.dec", s="c", ct=(a[:i] + b[i:]).hex())
            s.do("cipher.dec", s="c", ct=(b[:i] + a[i:]).hex())
        s.do("cipher.dec", s="o", ct=a.hex())
        s.do("cipher.dec", s="near", ct=a.hex())
        s.do("cipher.decalias", s="o", ct=a.hex())
        s.do("cipher.dec", s="c", ct=s.bytes(len(a)))
        s.do("cipher.dec", s="c", ct="00" * len(a))
        s.do("cipher.dec", s="c", ct=a.hex())          # still works afterwards
        s.do("cipher.dec", s="c", ct=b.hex())
        s.do("reset")
    split(ctx, "tamper", ctx.size([1, 16, 40], [1, 2, 15, 16, 17, 31, 32, 33, 64, 65, 100]), 1, tamper)

    def lengths(s):
        for x in list(range(0, 70)) + [1000, (1 << 32) - 1, 1 << 32, (1 << 40)]:
            s.do("cipher.lens", len=str(x))
    ctx.job("lengths", lengths)

    def like(s, n):
        # messages alike one after the other under keys alike; each ciphertext opens to its own message
        k = s.bytes(32)
        s.do("cipher.new", s="c", key=s.key(32, k))
        s.do("cipher.new", s="near", key=s.key(32, flip(bytes.fromhex(k), 255).hex()))
        cts = []
        for i, x in enumerate(deep.related(s.rng, n)):
            if not x:
                continue
            r = s.do(("cipher.enc", "cipher.encalias")[i % 2], s="c", m=x.hex())
            if r["e"] != "ok":
                continue
            c = r["out"]
            s.do("cipher.dec", s="c", ct=c)
            s.do("cipher.dec", s="near", ct=c)
            s.do("cipher.dec", s="c", ct=flip(bytes.fromhex(c), s.rng.randrange(4 * len(c))).hex())
            s.do("cipher.dec", s="c", ct=c)
            if cts:
                o = s.rng.choice(cts)
                s.do("cipher.decalias", s="c", ct=o)
                if len(o) == len(c):
                    s.do("cipher.dec", s="c", ct=c[:-32] + o[-32:])
                    s.do("cipher.dec", s="c", ct=o[:32] + c[32:])
            cts.append(c)
        s.do("reset")
    split(ctx, "like", [1, 20, 64, 600, 5000], 2, like)

    def many(s):
        s.do("cipher.new", s="c", key=s.key(32))
        cts = []
        for i, x in enumerate(deep.rows(s.rng, ctx.size(1100, 5000), (1, 8, 20, 64, 100, 130))):
            r = s.do(("cipher.enc", "cipher.encalias")[i % 2], s="c", m=x.hex())
            if r["e"] == "ok":
                cts.append(r["out"])
                s.do("cipher.dec", s="c", ct=s.rng.choice(cts))
        s.do("reset")
    ctx.job("many", many)

    def huge(s, n):
        s.do("cipher.new", s="c", key=s.key(32))
        r = s.do("cipher.enc", s="c", m=s.bytes(n))
        if r["e"] == "ok":
            c = bytes.fromhex(r["out"])
            s.do("cipher.dec", s="c", ct=c.hex())
            s.do("cipher.decalias", s="c", ct=c.hex())
            for i in (0, 8 * 15, 8 * 16, 4 * n, 8 * len(c) - 1):
                s.do("cipher.dec", s="c", ct=flip(c, i).hex())
            for cut in (1, 16, n // 2):
                s.do("cipher.dec", s="c", ct=c[:-cut].hex())
            s.do("cipher.dec", s="c", ct=(c + b"\0").hex())
        s.do("reset")
    split(ctx, "huge", deep.HUGE[1:], 2, huge)
    gen.replay_all(ctx, "cipherprog", gen.simulate(ctx, ["key", "cipher"], SLOTS, 70, 10,
                                                   ctx.size(14, 120), ctx.seed + 15), per=ctx.size(14, 25))


# ------------------------------------------------------------------ wrapper
def make(s, t, n=32, h=5, key=None):
    """Creates an object of a wrappable class in a fresh slot; returns it with
    the fields wrapper commands carry."""
    o = s.fresh("o")
    if t == "cipher":
        s.do("cipher.new", s=o, key=s.key(32, key))
        ty = "cipher"
    elif t == "prf":
        s.do("prf.new", n=n, s=o, key=s.key(32, key))
        ty = "prf%d" % n
    elif t == "prg":
        s.do("prg.new", s=o, key=s.key(32, key))
        ty = "prg"
    elif t == "prp":
        s.do("prp.new", s=o, key=s.key(48, key))
        ty = "prp"
    elif t == "rc":
        s.do("rc.new", n=n, s=o, key=s.key(32, key), h=h)
        ty = "rcprf%d" % n
    elif t == "cr":
        root = s.fresh("o")
        s.do("rc.new", n=n, s=root, key=s.key(32, key), h=h)
        top = (1 << (h - 1)) - 1
        lo = s.rng.randint(0, top)
        hi = s.rng.randint(lo, top - 1 if lo == 0 else top)
        s.do("rc.constrain", n=n, s=root, lo=str(lo), hi=str(hi), d=o)
        ty = "crcprf%d" % n
    elif t == "tinv":
        s.do("tdp.isk", s=o, pem=hexs(rsa()[key or "a"]["priv"]), bad=False)
        ty = "tinv"
    return o, {"t": t, "ty": ty, "n": n}


def use(s, o, d, t, n, h=5):
    """Observes an object."""
    if t == "cipher":
        r = s.do("cipher.enc", s=o, m=s.bytes(9))
        if r["e"] == "ok":
            s.do("cipher.dec", s=d, ct=r["out"])
    elif t == "prf":
        s.do("prf.raw", n=n, s=d, m=s.bytes(7))
    elif t == "prg":
        s.do("prg.raw", s=d, off="5", len=70)
    elif t == "prp":
        m = s.bytes(16)
        r = s.do("prp.encstr", s=o, m=m)
        s.do("prp.encstr", s=d, m=m)
        if r["e"] == "ok":
            s.do("prp.decstr", s=d, m=r["out"])
        m = s.bytes(21)
        r = s.do("prp.encret", s=d, m=m)
        s.do("prp.encret", s=o, m=m)
    elif t == "rc":
        s.do("rc.height", n=n, s=d)
        for l in {0, 1, (1 << (h - 1)) - 1, (1 << (h - 1)) // 2}:
            s.do("rc.eval", n=n, s=d, l=str(l))
        s.do("rc.eval", n=n, s=d, l=str(1 << (h - 1)))
    elif t == "cr":
        r = s.do("rc.cinfo", n=n, s=d)
        if r["e"] == "ok":
            lo, hi = int(r["min"]), int(r["max"])
            for l in sorted({lo, hi, (lo + hi) // 2, s.rng.randint(lo, hi)}):
                s.do("rc.ceval", n=n, s=d, l=str(l))
            if hi < (1 << 64) - 1:
                s.do("rc.ceval", n=n, s=d, l=str(hi + 1))
            if lo > 0:
                s.do("rc.ceval", n=n, s=d, l=str(lo - 1))
    elif t == "tinv":
        s.do("tdp.priv", s=d)
        m = "00" + s.bytes(255)
        s.do("tdp.eval", kind="i", v="ret", s=d, m=m)
        s.do("tdp.invert", v="ret", s=d, m=m)


ALL_TYPES = ([("cipher", 32, 0), ("prg", 32, 0), ("prp", 32, 0)] + [("prf", n, 0) for n in PRF_WRAP]
             + [(t, n, h) for t in ("rc", "cr") for n in RC_SIZES for h in (2, 3, 5, 8, 17, 33, 48, 64)]
             + [("rc", n, 1) for n in RC_SIZES]
             + [(t, n, h) for t in ("rc", "cr") for i, n in enumerate(RC_MORE) for h in (2 + i, 9 * i + 4)])


def W01(ctx):
    def trip(s, item):
        t, n, h = item
        k = s.bytes(32)
        s.do("wrapper.new", s="w", key=s.key(32, k))
        s.do("wrapper.new", s="w2", key=s.key(32, k))
        for rep in range(ctx.size(2, 5)):
            o, f = make(s, t, n, h)
            r = s.do("wrapper.wrap", s="w", o=o, **f)
            r2 = s.do("wrapper.wrap", s="w", o=o, **f)
            for x, w in ((r, "w"), (r2, "w2")):
                if x["e"] == "ok":
                    d = s.fresh("d")
                    s.do("wrapper.unwrap", s=w, blob=x["out"], d=d, **f)
                    use(s, o, d, t, n, h)
                    use(s, d, o, t, n, h)
                    # what was unwrapped can be wrapped again
                    y = s.do("wrapper.wrap", s="w2", o=d, **f)
                    if y["e"] == "ok":
                        e = s.fresh("d")
                        s.do("wrapper.unwrap", s="w", blob=y["out"], d=e, **f)
                        use(s, o, e, t, n, h)
            # the second opening of the same blob works too
            if r["e"] == "ok":
                d = s.fresh("d")
                s.do("wrapper.unwrap", s="w2", blob=r["out"], d=d, **f)
                use(s, o, d, t, n, h)
        s.do("reset")
    split(ctx, "trip", ALL_TYPES + [("tinv", 32, 0)], 5, trip)

    def ranges(s, item):
        # constrained keys of every shape, and constrained again after unwrapping
        n, h = item
        s.do("wrapper.new", s="w", key=s.key(32))
        top = (1 << (h - 1)) - 1
        s.do("rc.new", n=n, s="r", key=s.key(32), h=h)
        rs = [(a, b) for a in range(top + 1) for b in range(a, top + 1) if (a, b) != (0, top)] if h <= 4 else \
            [sorted((s.rng.randint(0, top), s.rng.randint(0, top))) for _ in range(ctx.size(12, 60))]
        for a, b in rs:
            s.do("rc.constrain", n=n, s="r", lo=str(a), hi=str(b), d="c")
            f = {"t": "cr", "ty": "crcprf%d" % n, "n": n}
            r = s.do("wrapper.wrap", s="w", o="c", **f)
            if r["e"] != "ok":
                continue
            s.do("wrapper.unwrap", s="w", blob=r["out"], d="d", **f)
            use(s, "c", "d", "cr", n, h)
            x, y = sorted((s.rng.randint(a, b), s.rng.randint(a, b)))
            s.do("rc.cconstrain", n=n, s="d", lo=str(x), hi=str(y), d="e")
            use(s, "e", "e", "cr", n, h)
        s.do("reset")
    split(ctx, "ranges", [(n, h) for n in RC_SIZES for h in (2, 3, 4, 6, 20, 40, 64)]
          + [(n, 3 + i % 3) for i, n in enumerate(RC_MORE)], 2, ranges)

    def many(s, item):
        # every wrapping opens, whatever the initialisation vector and the tag happen to be
        t, n, h = item
        s.do("wrapper.new", s="w", key=s.key(32))
        o, f = make(s, t, n, h)
        for i in range(ctx.size(560, 3000)):
            r = s.do("wrapper.wrap", s="w", o=o, **f)
            if r["e"] == "ok":
                s.do("wrapper.unwrap", s="w", blob=r["out"], d="x", **f)
        use(s, o, "x", t, n, h)
        s.do("reset")
    split(ctx, "many", [("cipher", 32, 0), ("prg", 32, 0), ("prp", 32, 0), ("prf", 32, 0), ("prf", 264, 0), ("rc", 16, 5),
                        ("cr", 16, 9), ("cr", 32, 6)], 1, many)

    def nested(s):
        # wrappers made of keys that were derived, wrapped objects used to derive
        s.do("wrapper.new", s="w", key=s.key(32))
        o, f = make(s, "prg")
        r = s.do("wrapper.wrap", s="w", o=o, **f)
        for depth in range(6):
            if r["e"] != "ok":
                break
            s.do("wrapper.unwrap", s="w", blob=r["out"], d="g", **f)
            s.do("prg.key", n=32, s="g", i=depth, d="k")
            s.do("wrapper.new", s="w", key="k")
            s.do("prg.raw", s="g", off="1", len=40)
            s.do("wrapper.move", s="w", d="w1")
            s.do("wrapper.wrap", s="w", o="g", **f)
            s.do("wrapper.move", s="w1", d="w")
            r = s.do("wrapper.wrap", s="w", o="g", **f)
        s.do("reset")
    ctx.job("nested", nested)
    gen.replay_all(ctx, "wrapprog", gen.simulate(ctx, ["key", "wrapper", "prf", "prg", "cipher", "rc", "prp"],
                                                 ("a", "b", "c", "d", "e", "f"), 90, 20,
                                                 ctx.size(24, 150), ctx.seed + 16), per=ctx.size(8, 20))


def W02(ctx):
    ctx.model("MC_Seal", "MC_Seal.cfg")
    def forge(s, item):
        t, n, h = item
        k = s.bytes(32)
        s.do("wrapper.new", s="w", key=s.key(32, k))
        s.do("wrapper.new", s="o", key=s.key(32))
        s.do("wrapper.new", s="near", key=s.key(32, flip(bytes.fromhex(k), s.rng.randrange(256)).hex()))
        o, f = make(s, t, n, h)
        o2, _ = make(s, t, n, h)
        r = s.do("wrapper.wrap", s="w", o=o, **f)
        q = s.do("wrapper.wrap", s="w", o=o2, **f)
        if r["e"] != "ok" or q["e"] != "ok":
            return
        a, b = bytes.fromhex(r["out"]), bytes.fromhex(q["out"])
        bits = range(8 * len(a))
        for i in bits if not ctx.quick or len(a) < 61 else s.rng.sample(bits, 160):
            s.do("wrapper.unwrap", s="w", blob=flip(a, i).hex(), d="x", **f)
        cuts = range(len(a)) if len(a) < 80 or not ctx.quick else list(range(40)) + s.rng.sample(range(len(a)), 20)
        for i in cuts:
            s.do("wrapper.unwrap", s="w", blob=a[:i].hex(), d="x", **f)
            if i:
                s.do("wrapper.unwrap", s="w", blob=a[i:].hex(), d="x", **f)
        for x in (b"\0", b"\xff", a[:16], a[-12:], a):
            s.do("wrapper.unwrap", s="w", blob=(a + x).hex(), d="x", **f)
            s.do("wrapper.unwrap", s="w", blob=(x + a).hex(), d="x", **f)
        for i in (1, 8, 12, 15, 16, 17, len(a) // 2, len(a) - 13, len(a) - 12, len(a) - 1):
            s.do("wrapper.unwrap", s="w", blob=(a[:i] + b[min(i, len(b)):]).hex(), d="x", **f)
            s.do("wrapper.unwrap", s="w", blob=(b[:i] + a[i:]).hex(), d="x", **f)
        for w in ("o", "near"):
            s.do("wrapper.unwrap", s=w, blob=a.hex(), d="x", **f)
        s.do("wrapper.unwrap", s="w", blob=s.bytes(len(a)), d="x", **f)
        s.do("wrapper.unwrap", s="w", blob="00" * len(a), d="x", **f)
        s.do("wrapper.unwrap", s="w", blob=a.hex(), d="x", **f)
        use(s, o, "x", t, n, h)
        s.do("reset")
    kinds = [("cipher", 32, 0), ("prg", 32, 0), ("prp", 32, 0), ("prf", 32, 0), ("prf", 16, 0), ("rc", 16, 5),
             ("rc", 32, 9), ("cr", 16, 5), ("cr", 32, 8)]
    if not ctx.quick:
        kinds = ALL_TYPES
    split(ctx, "forge", kinds, 2, forge)

    def confuse(s, item):
        # every blob offered to every type and context
        t, n, h = item
        s.do("wrapper.new", s="w", key=s.key(32))
        o, f = make(s, t, n, h)
        r = s.do("wrapper.wrap", s="w", o=o, **f)
        if r["e"] != "ok":
            return
        others = [("cipher", "cipher", 32), ("prg", "prg", 32), ("prp", "prp", 32), ("tinv", "tinv", 32)]
        others += [("prf", "prf%d" % x, x) for x in PRF_WRAP]
        others += [("rc", "rcprf%d" % x, x) for x in RC_SIZES] + [("cr", "crcprf%d" % x, x) for x in RC_SIZES]
        if n == 16:
            others += [(k, y + str(x), x) for x in NEAR_16 for k, y in (("prf", "prf"), ("rc", "rcprf"), ("cr", "crcprf"))]
        for t2, ty2, n2 in others:
            s.do("wrapper.unwrap", s="w", blob=r["out"], d="x", t=t2, ty=ty2, n=n2)
        s.do("reset")
    split(ctx, "confuse", ALL_TYPES + [("tinv", 32, 0)], 8, confuse)

    def crafted(s):
        # payloads with a right tag that stand for no object: rejected, whoever made them
        k = s.rng.randbytes(32)
        s.do("wrapper.new", s="w", key=s.key(32, k.hex()))

        def offer(t, n, payload):
            ty = {"prf": "prf%d" % n, "rc": "rcprf%d" % n, "cr": "crcprf%d" % n}.get(t, t)
            s.do("wrapper.unwrap", s="w", blob=craft.wrap(k, s.rng.randbytes(16), t, n, payload).hex(), d="x",
                 t=t, ty=ty, n=n)
        v = s.rng.randbytes(32)
        for n in (1, 16, 31, 33, 40, 64, 112):
            for t in ("cipher", "prg", "prf"):
                offer(t, 32, s.rng.randbytes(n))
            if n != 112:
                offer("prp", 32, s.rng.randbytes(n))
        for t in ("cipher", "prg", "prf"):
            offer(t, 32, v)
        for h in (0, 1, 2, 63, 64, 65, 66, 128, 255):
            offer("rc", 16, bytes([h]) + v)
        offer("rc", 16, b"\x05" + v[:31])
        offer("rc", 16, b"\x05" + v + b"\0")
        offer("rc", 16, b"\x05")
        leaf = s.rng.randbytes(16)
        good = craft.elem(1, 3, 3, leaf)
        for h, es, cnt in ((5, [good], None), (5, [good], 0), (5, [good], 2), (5, [good], 200), (5, [good, good], None),
                           (5, [craft.elem(1, 3, 4, v)], None), (5, [craft.elem(2, 2, 3, v)], None),
                           (5, [craft.elem(2, 2, 4, v)], None), (5, [craft.elem(3, 4, 7, v), craft.elem(2, 2, 3, v)], None),
                           (5, [craft.elem(2, 2, 3, v), craft.elem(3, 4, 7, v)], None),
                           (5, [craft.elem(2, 0, 1, v), craft.elem(3, 4, 7, v)], None),
                           (5, [craft.elem(0, 3, 3, leaf)], None), (5, [craft.elem(5, 0, 15, v)], None),
                           (5, [craft.elem(6, 0, 31, v)], None), (1, [good], None), (0, [good], None),
                           (5, [craft.elem(2, 3, 2, v)], None),
                           (5, [good[:-1]], None), (5, [good + b"\0"], None), (5, [], None), (5, [], 1)):
            offer("cr", 16, craft.cr(h, es, cnt))
        s.do("reset")
    ctx.job("crafted", crafted)

    def cutoff(s, n):
        # payloads with a right tag that end before or after they should
        k = s.rng.randbytes(32)
        s.do("wrapper.new", s="w", key=s.key(32, k.hex()))
        v = [s.rng.randbytes(32) for _ in range(3)]
        lf = [s.rng.randbytes(n) for _ in range(2)]
        whole = [("cipher", 32, v[0]), ("prg", 32, v[0]), ("prf", 16, v[0]), ("rc", n, b"\x05" + v[0])]
        for es in ([craft.elem(1, 3, 3, lf[0])], [craft.elem(2, 2, 3, v[0])], [craft.elem(1, 3, 3, lf[0]), craft.elem(2, 4, 5, v[0])],
                   [craft.elem(2, 2, 3, v[0]), craft.elem(1, 4, 4, lf[0])],
                   [craft.elem(1, 1, 1, lf[0]), craft.elem(2, 2, 3, v[0]), craft.elem(1, 4, 4, lf[1])]):
            for cnt in {len(es), len(es) + 1, len(es) - 1, 0xffffff} if len(es) == 2 else {len(es), len(es) + 1}:
                whole.append(("cr", n, craft.cr(5, es, cnt)))
        for t, n2, pay in whole:
            ty = {"prf": "prf%d" % n2, "rc": "rcprf%d" % n2, "cr": "crcprf%d" % n2}.get(t, t)
            for p in [pay[:i] for i in range(1, len(pay))] + [pay + s.rng.randbytes(i) for i in (0, 1, 2, 16, 17, 18, 32, 33, 49, 100)]:
                s.do("wrapper.unwrap", s="w", blob=craft.wrap(k, s.rng.randbytes(16), t, n2, p).hex(), d="x", t=t, ty=ty, n=n2)
        s.do("reset")
    split(ctx, "cutoff", RC_SIZES + [1, 33, 100], 1, cutoff)

    def almost(s):
        # made with the right keys, with a tag that is right but for one bit, or for something else
        k = s.rng.randbytes(32)
        s.do("wrapper.new", s="w", key=s.key(32, k.hex()))
        v = s.rng.randbytes(32)
        for t, n, pay in (("prf", 32, v), ("cipher", 32, v), ("prg", 32, v), ("rc", 16, b"\x05" + v),
                          ("prp", 32, s.rng.randbytes(112)), ("cr", 16, craft.cr(5, [craft.elem(1, 3, 3, v[:16])]))):
            ty = {"prf": "prf%d" % n, "rc": "rcprf%d" % n, "cr": "crcprf%d" % n}.get(t, t)

            def offer(**kw):
                iv = s.rng.randbytes(16)
                if "tagged" in kw:
                    kw["tagged"] = kw["tagged"](iv)
                s.do("wrapper.unwrap", s="w", blob=craft.wrap(k, iv, t, n, pay, **kw).hex(), d="x", t=t, ty=ty, n=n)
            for i in range(96):
                offer(tag=lambda g, i=i: flip(g, i))
            for i in range(1, 12):
                offer(tag=lambda g, i=i: g[:i] + s.rng.randbytes(12 - i))
                offer(tag=lambda g, i=i: s.rng.randbytes(i) + g[i:])
            offer(tag=lambda g: g[::-1])
            offer(tag=lambda g: bytes(12))
            ctxb = n.to_bytes(2, "big") if t in ("prf", "rc", "cr") else b""
            ty0 = craft.TYPE[t]
            for x in range(0, 9):
                if x != ty0:
                    offer(header=bytes([x]) + ctxb)
            for h in (b"", bytes([ty0]), ctxb, bytes([ty0]) + ctxb[::-1] + b"\0", bytes([ty0]) + b"\0\0", bytes([ty0]) + ctxb + b"\0",
                      bytes([ty0]) + b"\1" + ctxb[1:], bytes([ty0]) + ctxb[:1] + b"\x7f", ctxb + bytes([ty0])):
                if h != bytes([ty0]) + ctxb:
                    offer(header=h)
            hd = bytes([ty0]) + ctxb
            for f in (lambda iv: hd + pay, lambda iv: iv + hd, lambda iv: iv + hd + pay[:-1], lambda iv: iv + hd + pay + b"\0",
                      lambda iv: iv + pay, lambda iv: hd + iv + pay, lambda iv: bytes(16) + hd + pay, lambda iv: iv[:8] + hd + pay,
                      lambda iv: iv[:15] + b"\0" + hd + pay):
                offer(tagged=f)
            offer()
        s.do("reset")
    ctx.job("almost", almost)
    gen.replay_all(ctx, "forgeprog", gen.simulate(ctx, ["key", "wrapper", "prf", "prg", "cipher", "rc", "prp"],
                                                  ("a", "b", "c", "d"), 90, 20,
                                                  ctx.size(16, 150), ctx.seed + 17), per=ctx.size(8, 20))


# ------------------------------------------------------------------ range-constrained PRF
def leaves_sample(s, lo, hi, k):
    if hi - lo < k:
        return list(range(lo, hi + 1))
    x = {lo, hi, lo + 1, hi - 1, (lo + hi) // 2, (lo + hi) // 2 + 1}
    for b in range(64):
        for d in (-1, 0):
            v = (1 << b) + d
            if lo <= v <= hi and s.rng.random() < 0.5:
                x.add(v)
    x = sorted(x)
    while len(x) < k:
        x.append(s.rng.randint(lo, hi))
    return x[:k] if len(x) <= k else s.rng.sample(x, k)


def R01(ctx):
    def every_leaf(s, item):
        n, h = item
        s.do("rc.new", n=n, s="r", key=s.key(32), h=h)
        s.do("rc.height", n=n, s="r")
        top = (1 << (h - 1)) - 1
        for l in leaves_sample(s, 0, top, ctx.size(24, 130)):
            s.do("rc.eval", n=n, s="r", l=str(l))
        for _ in range(ctx.size(3, 12)):
            a = s.rng.randint(0, top)
            b = min(top, a + s.rng.choice((0, 1, 2, 5, 17)))
            s.do("rc.range", n=n, s="r", lo=str(a), hi=str(b))
        for a, b in ((0, min(top, 3)), (max(0, top - 3), top), (top, top), (0, 0)):
            s.do("rc.range", n=n, s="r", lo=str(a), hi=str(b))
        if h > 1:
            s.do("rc.rangecb", n=n, s="r", lo="0", hi=str(min(top, 9)), stop=2)
            a = s.rng.randint(0, top)
            s.do("rc.rangere", n=n, s="r", lo=str(a), hi=str(min(top, a + 6)))
            s.do("rc.eval", n=n, s="r", l="0")
        s.do("rc.move", n=n, s="r", d="q")
        s.do("rc.eval", n=n, s="q", l=str(top))
        s.do("rc.eval", n=n, s="r", l="0")
        s.do("reset")
    split(ctx, "heights", [(n, h) for h in range(1, 65) for n in [*RC_SIZES, RC_MORE[h % 7]]], ctx.size(24, 8), every_leaf)

    def all_ranges(s, item):
        # every range of a small tree, every leaf of it, through both evaluations
        n, h = item
        s.do("rc.new", n=n, s="r", key=s.key(32), h=h)
        top = (1 << (h - 1)) - 1
        s.do("rc.range", n=n, s="r", lo="0", hi=str(top))
        for a in range(top + 1):
            for b in range(a, top + 1):
                if h <= 4 or not ctx.quick:
                    s.do("rc.range", n=n, s="r", lo=str(a), hi=str(b))
                if (a, b) == (0, top):
                    continue
                s.do("rc.constrain", n=n, s="r", lo=str(a), hi=str(b), d="c")
                for l in range(a, b + 1):
                    if h <= 4 or l in (a, b) or not ctx.quick:
                        s.do("rc.ceval", n=n, s="c", l=str(l))
                s.do("rc.crange", n=n, s="c", lo=str(a), hi=str(b))
                x, y = sorted((s.rng.randint(a, b), s.rng.randint(a, b)))
                s.do("rc.crange", n=n, s="c", lo=str(x), hi=str(y))
                if h <= 4 or not ctx.quick:
                    s.do("rc.rangere", n=n, s="r", lo=str(a), hi=str(b))
                    s.do("rc.crangere", n=n, s="c", lo=str(a), hi=str(b))
        s.do("reset")
    split(ctx, "ranges", [(n, h) for n in RC_SIZES for h in (1, 2, 3, 4, 5) + (() if ctx.quick else (6,))], 1, all_ranges)
    split(ctx, "ranges-more", [(n, h) for n in RC_MORE for h in (1, 2, 3, 4)], 4, all_ranges)

    def again(s, item):
        # every range of every range
        n, h = item
        s.do("rc.new", n=n, s="r", key=s.key(32), h=h)
        top = (1 << (h - 1)) - 1
        rs = [(a, b) for a in range(top + 1) for b in range(a, top + 1) if (a, b) != (0, top)]
        for a, b in rs if not ctx.quick or h < 4 else s.rng.sample(rs, 12):
            s.do("rc.constrain", n=n, s="r", lo=str(a), hi=str(b), d="c")
            for x in range(a, b + 1):
                for y in range(x, b + 1):
                    s.do("rc.cconstrain", n=n, s="c", lo=str(x), hi=str(y), d="d")
                    s.do("rc.crange", n=n, s="d", lo=str(x), hi=str(y))
        s.do("reset")
    split(ctx, "again", [(n, h) for n in RC_SIZES for h in (2, 3, 4)], 1, again)
    split(ctx, "again-more", [(n, 3) for n in RC_MORE], 4, again)

    def deep(s, item):
        # chains of constraints of tall trees
        n, h = item
        top = (1 << (h - 1)) - 1
        s.do("rc.new", n=n, s="r", key=s.key(32), h=h)
        for _ in range(ctx.size(3, 12)):
            a, b = sorted((s.rng.randint(0, top), s.rng.randint(0, top)))
            if (a, b) == (0, top):
                continue
            s.do("rc.constrain", n=n, s="r", lo=str(a), hi=str(b), d="c0")
            for i in range(5):
                for l in leaves_sample(s, a, b, 6):
                    s.do("rc.ceval", n=n, s="c%d" % i, l=str(l))
                z = min(b, a + s.rng.randrange(9))
                s.do("rc.crange", n=n, s="c%d" % i, lo=str(a), hi=str(z))
                s.do("rc.crange", n=n, s="c%d" % i, lo=str(max(a, b - s.rng.randrange(9))), hi=str(b))
                x = s.rng.randint(a, a + (b - a) // 3)
                y = s.rng.randint(max(x, b - (b - a) // 3), b)
                s.do("rc.cconstrain", n=n, s="c%d" % i, lo=str(x), hi=str(y), d="c%d" % (i + 1))
                a, b = x, y
            s.do("rc.cmove", n=n, s="c5", d="m")
            s.do("rc.ceval", n=n, s="m", l=str(a))
            s.do("rc.cinfo", n=n, s="m")
        s.do("reset")
    split(ctx, "deep", [(n, h) for n in RC_SIZES for h in (5, 6, 7, 9, 16, 17, 24, 31, 32, 33, 34, 47, 62, 63, 64)]
          + [(n, 7 + 8 * i) for i, n in enumerate(RC_MORE)], 5, deep)

    def by_hand(s):
        # a constrained PRF assembled from elements made by hand
        for n in RC_SIZES + RC_MORE:
            for h, spans in ((5, [(2, 2), (4, 1), (5, 1)]), (5, [(0, 4), (4, 2)]), (6, [(1, 1), (2, 2), (4, 4), (8, 8)]),
                             (9, [(16, 16), (32, 32), (64, 1)]), (64, [(0, 1 << 60), (1 << 60, 1)]),
                             (4, [(3, 1), (4, 2)]), (3, [(1, 1)]), (3, [(0, 2)])):
                parts = []
                for lo, cnt in spans:
                    e = s.fresh("e")
                    if cnt == 1:
                        s.do("rc.leaf", n=n, d=e, v=s.bytes(n), h=h, l=str(lo))
                    else:
                        s.do("rc.inner", n=n, d=e, key=s.key(32), h=h, sh=cnt.bit_length(), lo=str(lo), hi=str(lo + cnt - 1))
                    s.do("rc.eeval", n=n, s=e, l=str(lo))
                    s.do("rc.eeval", n=n, s=e, l=str(lo + cnt - 1))
                    s.do("rc.eeval", n=n, s=e, l=str(lo + cnt))
                    s.do("rc.erange", n=n, s=e, lo=str(lo), hi=str(min(lo + cnt - 1, lo + 3)))
                    parts.append(e)
                s.rng.shuffle(parts)
                s.do("rc.assemble", n=n, d="c", parts=parts)
                lo, hi = spans[0][0], spans[-1][0] + spans[-1][1] - 1
                s.do("rc.cinfo", n=n, s="c")
                for l in leaves_sample(s, lo, hi, 12):
                    s.do("rc.ceval", n=n, s="c", l=str(l))
                s.do("rc.crange", n=n, s="c", lo=str(max(lo, hi - 5)), hi=str(hi))
                if hi > lo:
                    s.do("rc.cconstrain", n=n, s="c", lo=str(lo + 1), hi=str(hi), d="d")
                    s.do("rc.crange", n=n, s="d", lo=str(max(lo + 1, hi - 5)), hi=str(hi))
                    s.do("rc.ceval", n=n, s="d", l=str(lo + 1))
                s.do("reset")
    ctx.job("by-hand", by_hand)
    gen.replay_all(ctx, "rcprog", gen.simulate(ctx, ["key", "rc", "wrapper"], SLOTS, 80, 8, ctx.size(16, 120),
                                               ctx.seed + 18), per=ctx.size(8, 20))


def R02(ctx):
    ctx.model("MC_Rc")

    def outside(s, item):
        n, h = item
        s.do("rc.new", n=n, s="r", key=s.key(32), h=h)
        top = (1 << (h - 1)) - 1
        far = [top + 1, top + 2, 2 * top + 1, 2 * top + 2, (1 << 63) - 1, 1 << 63, (1 << 64) - 1] + \
              [1 << b for b in range(h - 1, 64, 7)]
        far = sorted({x for x in far if top < x < (1 << 64)})
        for l in far:
            s.do("rc.eval", n=n, s="r", l=str(l))
            s.do("rc.range", n=n, s="r", lo=str(top), hi=str(l))
            s.do("rc.range", n=n, s="r", lo=str(l), hi=str(l))
            s.do("rc.constrain", n=n, s="r", lo="0", hi=str(l), d="x")
            s.do("rc.constrain", n=n, s="r", lo=str(l), hi=str(l), d="x")
        s.do("rc.constrain", n=n, s="r", lo="0", hi=str(top), d="x")
        if top >= 1:
            s.do("rc.constrain", n=n, s="r", lo="1", hi="0", d="x")
            s.do("rc.range", n=n, s="r", lo="1", hi="0")
            s.do("rc.range", n=n, s="r", lo=str(top), hi=str(top - 1))
            s.do("rc.constrain", n=n, s="r", lo=str(top), hi=str(top - 1), d="x")
        s.do("rc.eval", n=n, s="r", l=str(top))
        s.do("reset")
    split(ctx, "outside", [(n, h) for n in RC_SIZES for h in range(1, 65, ctx.size(3, 1))] + [(n, 5 + i) for i, n in enumerate(RC_MORE)], ctx.size(11, 16), outside)

    def confined(s, item):
        # what every constrained key of a small tree answers on every leaf of the
        # domain and beyond, and which keys it holds
        n, h = item
        s.do("wrapper.new", s="w", key=s.key(32))
        s.do("rc.new", n=n, s="r", key=s.key(32), h=h)
        top = (1 << (h - 1)) - 1
        rs = [(a, b) for a in range(top + 1) for b in range(a, top + 1) if (a, b) != (0, top)]
        for a, b in rs if h < 5 or not ctx.quick else s.rng.sample(rs, 40):
            s.do("rc.constrain", n=n, s="r", lo=str(a), hi=str(b), d="c")
            s.do("rc.cinfo", n=n, s="c")
            s.do("wrapper.wrap", s="w", o="c", t="cr", ty="crcprf%d" % n, n=n)
            for l in range(top + 3):
                if not (a < l < b):
                    s.do("rc.ceval", n=n, s="c", l=str(l))
            for x, y in ((a - 1, b), (a, b + 1), (a - 1, a - 1), (b + 1, b + 1), (0, top), (a, top), (0, b), (b, a)):
                if 0 <= x and 0 <= y and (x, y) != (a, b):
                    s.do("rc.crange", n=n, s="c", lo=str(x), hi=str(y))
                    s.do("rc.cconstrain", n=n, s="c", lo=str(x), hi=str(y), d="d")
            x, y = sorted((s.rng.randint(a, b), s.rng.randint(a, b)))
            s.do("rc.cconstrain", n=n, s="c", lo=str(x), hi=str(y), d="d")
            s.do("rc.cinfo", n=n, s="d")
            s.do("wrapper.wrap", s="w", o="d", t="cr", ty="crcprf%d" % n, n=n)
            for l in (x - 1, y + 1, a, b):
                if l >= 0:
                    s.do("rc.ceval", n=n, s="d", l=str(l))
        s.do("reset")
    split(ctx, "confined", [(n, h) for n in RC_SIZES for h in (2, 3, 4, 5)], 1, confined)
    split(ctx, "confined-more", [(n, 3 + i % 2) for i, n in enumerate(RC_MORE)], 4, confined)

    def tall(s, item):
        n, h = item
        top = (1 << (h - 1)) - 1
        s.do("wrapper.new", s="w", key=s.key(32))
        s.do("rc.new", n=n, s="r", key=s.key(32), h=h)
        edges = sorted({0, 1, 2, top, top - 1, top // 2, top // 2 + 1, top // 4} |
                       {s.rng.randint(0, top) for _ in range(ctx.size(3, 10))})
        for _ in range(ctx.size(8, 40)):
            a, b = sorted((s.rng.choice(edges), s.rng.choice(edges)))
            s.do("rc.constrain", n=n, s="r", lo=str(a), hi=str(b), d="c")
            if (a, b) == (0, top):
                continue
            s.do("rc.cinfo", n=n, s="c")
            s.do("wrapper.wrap", s="w", o="c", t="cr", ty="crcprf%d" % n, n=n)
            for l in {a - 1, b + 1, 0, top, top + 1, (1 << 64) - 1, s.rng.randint(0, top)}:
                if l >= 0 and not a <= l <= b:
                    s.do("rc.ceval", n=n, s="c", l=str(l))
                    s.do("rc.crange", n=n, s="c", lo=str(min(l, b)), hi=str(max(l, b)))
                    s.do("rc.cconstrain", n=n, s="c", lo=str(min(l, a)), hi=str(max(l, a)), d="x")
            x, y = sorted((s.rng.randint(a, b), s.rng.randint(a, b)))
            s.do("rc.cconstrain", n=n, s="c", lo=str(x), hi=str(y), d="d")
            s.do("wrapper.wrap", s="w", o="d", t="cr", ty="crcprf%d" % n, n=n)
            s.do("rc.cassign", n=n, s="c", d="d")
            for l in (a, b, a - 1, b + 1):
                if l >= 0:
                    s.do("rc.ceval", n=n, s="d", l=str(l))
        s.do("reset")
    split(ctx, "tall", [(n, h) for n in RC_SIZES for h in (6, 8, 9, 16, 17, 32, 33, 34, 48, 63, 64)], 4, tall)

    def construction(s):
        for h in list(range(0, 70)) + [127, 128, 255]:
            s.do("rc.maxleaf", h=h)
        for n in RC_SIZES:
            for h in (0, 65, 66, 127, 128, 200, 255, 1, 64):
                k = s.key(32)
                s.do("rc.new", n=n, s="r", key=k, h=h)
            v = s.bytes(n)
            for h, l in ((1, 0), (2, 0), (2, 1), (5, 3), (0, 0), (64, (1 << 62))):
                s.do("rc.leaf", n=n, d="e", v=v, h=h, l=str(l))
            for h, sh, lo, hi in ((5, 2, 0, 1), (5, 2, 2, 4), (5, 2, 3, 2), (5, 3, 4, 7), (5, 3, 4, 8), (5, 4, 0, 7),
                                  (5, 5, 0, 15), (5, 6, 0, 31), (5, 0, 0, 0), (5, 1, 3, 3), (64, 63, 0, (1 << 62) - 1),
                                  (64, 64, 0, (1 << 63) - 1)):
                s.do("rc.inner", n=n, d="e", key=s.key(32), h=h, sh=sh, lo=str(lo), hi=str(hi))
            # gaps, overlaps, different trees
            for spec in ([(5, 0), (5, 2)], [(5, 3), (5, 3)], [(5, 3), (6, 4)], [(5, 4), (5, 3), (5, 5)], [(5, 1)],
                         [(6, 7), (6, 9), (6, 8)], [(6, 7), (6, 10), (6, 8)]):
                parts = []
                for h, l in spec:
                    e = s.fresh("e")
                    s.do("rc.leaf", n=n, d=e, v=s.bytes(n), h=h, l=str(l))
                    parts.append(e)
                s.do("rc.assemble", n=n, d="c", parts=parts)
            s.do("reset")
    ctx.job("construction", construction)
    gen.replay_all(ctx, "rcprog", gen.simulate(ctx, ["key", "rc", "wrapper"], SLOTS, 80, 8, ctx.size(16, 120),
                                               ctx.seed + 19), per=ctx.size(8, 20))


# ------------------------------------------------------------------ set hash
def S01(ctx):
    def big_set(s):
        x = long_bytes(s)
        s.do("set.new", s="a")
        s.do("set.add", s="a", x=x)
        s.do("set.rem", s="a", x=s.bytes(5))
        s.do("set.rem", s="a", x=x)
    big(ctx, "set", big_set, need=9)

    ctx.model("MC_Set", "MC_Set.cfg" if ctx.quick else "MC_Set_big.cfg")
    # every transition of two set hashes over two elements, by a shortest program
    gen.replay_all(ctx, "setall", sample(ctx, gen.explore(ctx, ["set"], ("a", "b"), ctx.size(6, 9), 1),
                                         ctx.size(500, 6000)), per=100)
    gen.replay_all(ctx, "setprog", gen.simulate(ctx, ["set"], SLOTS, 120, 1, ctx.size(10, 120), ctx.seed + 20), per=10)

    def elements(s):
        # every element counts, whatever its length and content
        lens = list(range(0, 140)) + [200, 255, 256, 257, 1000, 5000]
        s.do("set.new", s="a")
        xs = [s.bytes(n) for n in lens]
        for x in xs:
            s.do("set.add", s="a", x=x)
        s.do("set.vec", s="b", xs=[x for x in xs if x])
        s.do("set.add", s="b", x="")
        s.do("set.eq", s="a", a="b", same=True)
        s.rng.shuffle(xs)
        for x in xs[:-1]:
            s.do("set.rem", s="a", x=x)
            s.do("set.eq", s="a", a="b", same=False)
        s.do("set.rem", s="a", x=xs[-1])
        s.do("set.new", s="c")
        s.do("set.eq", s="a", a="c", same=True)
        s.do("reset")
        # close elements are different elements
        for x in (b"a", b"ab", b"abc", b"\0", b"\0\0", b"a\0", b"\0a", b"aa", b"A", b"", b"b", b"ba"):
            for y in (b"a", b"ab", b"\0", b"a\0", b"", b"ba", b"abc"):
                s.do("set.new", s="a")
                s.do("set.new", s="b")
                s.do("set.add", s="a", x=hexs(x))
                s.do("set.add", s="b", x=hexs(y))
                s.do("set.eq", s="a", a="b", same=x == y)
        # concatenation is not union
        s.do("set.vec", s="a", xs=[hexs(b"ab"), hexs(b"c")])
        s.do("set.vec", s="b", xs=[hexs(b"a"), hexs(b"bc")])
        s.do("set.vec", s="c", xs=[hexs(b"abc")])
        for x, y in ("ab", "ac", "bc"):
            s.do("set.eq", s=x, a=y, same=False)
    ctx.job("elements", elements)

    def multiplicity(s):
        x, y = s.bytes(5), s.bytes(6)
        s.do("set.new", s="z")
        s.do("set.new", s="a")
        for i in range(40):
            s.do("set.add", s="a", x=x)
            s.do("set.eq", s="a", a="z", same=False)
        s.do("set.vec", s="b", xs=[x] * 40)
        s.do("set.eq", s="a", a="b", same=True)
        for i in range(3):      # doubling
            s.do("set.addset", s="a", a="a")
            s.do("set.eq", s="a", a="b", same=False)
            s.do("set.addset", s="b", a="b")
            s.do("set.eq", s="a", a="b", same=True)
        s.do("set.remset", s="a", a="a")
        s.do("set.eq", s="a", a="z", same=True)
        s.do("set.rem", s="a", x=y)         # below zero and back
        s.do("set.remset", s="z", a="a")
        s.do("set.vec", s="c", xs=[y])
        s.do("set.eq", s="z", a="c", same=True)
        s.do("set.addset", s="a", a="c")
        s.do("set.new", s="n")
        s.do("set.eq", s="a", a="n", same=True)
        s.do("reset")
    ctx.job("multiplicity", multiplicity)


    def like(s, n):
        # elements alike are different elements; nothing of one stays for the next
        xs = list(dict.fromkeys(deep.related(s.rng, n)))
        s.do("set.new", s="z")
        s.do("set.new", s="a")
        for x in xs:
            s.do("set.new", s="b")
            s.do("set.add", s="b", x=x.hex())
            s.do("set.add", s="a", x=x.hex())
            s.do("set.eq", s="a", a="b", same=x == xs[0])
            s.do("set.new", s="c")
            s.do("set.add", s="c", x=xs[0].hex())
            s.do("set.eq", s="b", a="c", same=x == xs[0])
            s.do("set.rem", s="b", x=x.hex())
            s.do("set.eq", s="b", a="z", same=True)
        for x in reversed(xs):
            s.do("set.rem", s="a", x=x.hex())
        s.do("set.eq", s="a", a="z", same=True)
        s.do("reset")
    split(ctx, "like", [1, 20, 64, 128, 600, 5000], 2, like)

    def huge(s, n):
        b = s.rng.randbytes(n)
        for y in (flip(b, 8 * n - 1), flip(b, 4 * n), flip(b, 0), b[:-1], b[:65535], b[:65536], b[:n // 2]):
            s.do("set.new", s="a")
            s.do("set.new", s="b")
            s.do("set.add", s="a", x=b.hex())
            s.do("set.add", s="b", x=y.hex())
            s.do("set.eq", s="a", a="b", same=y == b)
            s.do("set.rem", s="a", x=b.hex())
            s.do("set.add", s="a", x=y.hex())
            s.do("set.eq", s="a", a="b", same=True)
        s.do("reset")
    split(ctx, "huge", [65536] + list(deep.HUGE[:4] if ctx.quick else deep.HUGE), 2, huge)

    def crowd(s):
        # large sets, in any order, by lists and one by one
        xs = [s.bytes(s.rng.randrange(1, 24)) for _ in range(ctx.size(1100, 5000))]
        s.do("set.vec", s="a", xs=xs)
        s.do("set.new", s="b")
        for x in s.rng.sample(xs, len(xs)):
            s.do("set.add", s="b", x=x)
        s.do("set.eq", s="a", a="b", same=True)
        s.do("set.vec", s="c", xs=xs[:300])
        s.do("set.vec", s="d", xs=xs[300:])
        s.do("set.addset", s="c", a="d")
        s.do("set.eq", s="c", a="b", same=True)
        s.do("set.remset", s="c", a="d")
        for x in xs[:300]:
            s.do("set.rem", s="c", x=x)
        s.do("set.new", s="z")
        s.do("set.eq", s="c", a="z", same=True)
        s.do("reset")
    ctx.job("crowd", crowd)


def sample(ctx, xs, k):
    return xs if len(xs) <= k else ctx.rng.sample(xs, k)


def S02(ctx):
    import ed

    def encodings(s):
        for b in ed.encodings():
            s.do("set.bytes", s="a", m=b.hex())
        s.do("set.bytes", s="a", m="01" + "00" * 31)
        s.do("set.add", s="a", x=s.bytes(4))
        s.do("reset")
    ctx.job("encodings", encodings)

    def random(s):
        for _ in range(ctx.size(150, 800)):
            s.do("set.bytes", s="a", m=s.bytes(32))
        s.do("reset")
    for i in range(ctx.size(2, 6)):
        ctx.job("random-%d" % i, random)

    def survive(s):
        # a stored set hash comes back as the same set, and an invalid one never does
        for _ in range(ctx.size(25, 150)):
            xs = [s.bytes(s.rng.randrange(30)) for _ in range(s.rng.randrange(1, 6))]
            r = s.do("set.vec", s="a", xs=[x for x in xs if x] or ["00"])
            if r["e"] != "ok":
                return
            b = bytes.fromhex(r["out"])
            s.do("set.bytes", s="b", m=b.hex())
            s.do("set.eq", s="a", a="b", same=True)
            y = s.bytes(3)
            s.do("set.add", s="a", x=y)
            s.do("set.add", s="b", x=y)
            s.do("set.eq", s="a", a="b", same=True)
            s.do("set.print", s="b")
            for i in s.rng.sample(range(256), ctx.size(6, 24)) + [255]:
                s.do("set.bytes", s="c", m=flip(b, i).hex())
            p = ed.dec(b)
            if p is not None:
                for t in s.rng.sample(ed.torsion()[1:], 2):
                    s.do("set.bytes", s="c", m=ed.enc(ed.add(p, t)).hex())
        s.do("reset")
    for i in range(ctx.size(2, 6)):
        ctx.job("survive-%d" % i, survive)


# ------------------------------------------------------------------ permutation
def P01(ctx):
    def big_prp(s):
        s.do("prp.new", s="p", key=s.key(48))
        m = long_bytes(s)
        s.do("big.prp", v="encstr", s="p", m=m)
        s.do("big.prp", v="decstr", s="p", m=m)
        s.do("prp.encstr", s="p", m=s.bytes(20))
        if not ctx.quick:
            s.do("big.prp", v="both", s="p", m=long_bytes(s, GIB4 - 78))
            s.do("big.prp", v="both", s="p", m=long_bytes(s, (1 << 31) + 5))
    big(ctx, "prp", big_prp)

    ctx.model("MC_Perm")
    def tables(s):
        for kk in [None] + [hexs(c) for c in special(48)[:ctx.size(2, 6)]]:
            s.do("prp.new", s="p", key=s.key(48, kk))
            s.do("prp.table1", s="p")
            s.do("prp.table1d", s="p")
            for _ in range(5):
                x = s.bytes(1)
                s.do("prp.encstr", s="p", m=x)
                s.do("prp.decret", s="p", m=x)
            s.do("reset")
    ctx.job("tables", tables)

    def table2(s):
        s.do("prp.new", s="p", key=s.key(48))
        cnt = ctx.size(4096, 65536)
        s.do("prp.table2", s="p", lo=0, cnt=cnt)
        s.do("prp.table2d", s="p", lo=1000, cnt=cnt // 2)
        s.do("reset")
    ctx.job("table2", table2)

    def lengths(s, n):
        k = s.bytes(48)
        s.do("prp.new", s="p", key=s.key(48, k))
        s.do("prp.new", s="q", key=s.key(48, k))
        s.do("prp.new", s="o", key=s.key(48))
        ms = [s.bytes(n)]
        ms += [flip(bytes.fromhex(ms[0]), s.rng.randrange(8 * n)).hex() for _ in range(3)]
        ms += [hexs(c) for c in special(n)[:2]]
        for i, m in enumerate(ms):
            r = s.do(("prp.encstr", "prp.encret", "prp.encraw", "prp.encalias")[i % 4], s="p", m=m)
            if r["e"] != "ok":
                continue
            s.do(("prp.decret", "prp.decraw", "prp.decalias", "prp.decstr")[i % 4], s="q", m=r["out"])
            s.do(("prp.encraw", "prp.encalias", "prp.encstr", "prp.encret")[i % 4], s="q", m=m)
            s.do("prp.encstr", s="o", m=m)
            r = s.do(("prp.decalias", "prp.decstr", "prp.decret", "prp.decraw")[i % 4], s="p", m=m)
            if r["e"] == "ok":
                s.do("prp.encret", s="q", m=r["out"])
        s.do("reset")
    split(ctx, "lengths", list(range(1, ctx.size(100, 300))) + [127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4097, 20000],
          ctx.size(19, 30), lengths)

    def ints(s):
        s.do("prp.new", s="p", key=s.key(48))
        s.do("prp.avail")
        for w in (32, 64):
            vals = [0, 1, 2, 255, 256, (1 << w) - 1, (1 << w) - 2, 1 << (w - 1)] + [1 << b for b in range(0, w, 5)]
            vals += [s.rng.getrandbits(w) for _ in range(ctx.size(30, 300))]
            for v in vals:
                r = s.do("prp.enc%d" % w, s="p", v=str(v))
                if r["e"] == "ok":
                    s.do("prp.dec%d" % w, s="p", v=r["out"])
                s.do("prp.dec%d" % w, s="p", v=str(v))
                # the integer is the little-endian string
                s.do("prp.encstr", s="p", m=v.to_bytes(w // 8, "little").hex())
        s.do("prp.move", s="p", d="q")
        s.do("prp.encstr", s="q", m="0011")
        s.do("prp.encstr", s="p", m="0011")
        s.do("prp.enc32", s="q", v="7")
        s.do("reset")
    ctx.job("ints", ints)

    def collide(s):
        # a short domain is filled without collision; keys are different permutations
        s.do("prp.new", s="p", key=s.key(48))
        for n in (2, 3):
            for i in range(ctx.size(200, 1500)):
                s.do("prp.encstr", s="p", m=i.to_bytes(n, "big").hex())
        s.do("reset")
    ctx.job("collide", collide)
    ctx.job("golden", prp_golden)

    def like(s, n):
        k = s.bytes(48)
        s.do("prp.new", s="p", key=s.key(48, k))
        s.do("prp.new", s="near", key=s.key(48, flip(bytes.fromhex(k), 383).hex()))
        for i, x in enumerate(deep.related(s.rng, n)):
            if not x:
                continue
            r = s.do(("prp.encstr", "prp.encret", "prp.encraw", "prp.encalias")[i % 4], s="p", m=x.hex())
            if r["e"] == "ok":
                s.do(("prp.decret", "prp.decraw", "prp.decalias", "prp.decstr")[i % 4], s="p", m=r["out"])
                s.do("prp.decstr", s="near", m=r["out"])
            s.do("prp.decstr", s="p", m=x.hex())
        s.do("reset")
    split(ctx, "like", [1, 2, 15, 20, 64, 128, 600, 5000], 2, like)

    def many(s):
        s.do("prp.new", s="p", key=s.key(48))
        for i, x in enumerate(deep.rows(s.rng, ctx.size(1100, 5000), (1, 4, 8, 16, 20, 40, 100))):
            s.do(("prp.encstr", "prp.decstr", "prp.encraw", "prp.decret")[i % 4], s="p", m=x.hex())
            if i % 5 == 0:
                s.do(("prp.enc32", "prp.dec32")[i % 2], s="p", v=str(i))
                s.do(("prp.enc64", "prp.dec64")[i % 2], s="p", v=str(i << 33 | i))
        s.do("reset")
    ctx.job("many", many)

    def huge(s, n):
        s.do("prp.new", s="p", key=s.key(48))
        r = s.do("prp.encstr", s="p", m=s.bytes(n))
        if r["e"] == "ok":
            s.do("prp.decret", s="p", m=r["out"])
            s.do("prp.decraw", s="p", m=flip(bytes.fromhex(r["out"]), 8 * n - 1).hex())
        s.do("reset")
    split(ctx, "huge", deep.HUGE[1:4] if ctx.quick else deep.HUGE, 1, huge)
    gen.replay_all(ctx, "prpprog", gen.simulate(ctx, ["key", "prp", "rand", "wrapper"], SLOTS, 70, 12, ctx.size(16, 120),
                                                ctx.seed + 21), per=ctx.size(8, 20))


def prp_golden(s):
    """Images recorded when this check was made: stored data stays decipherable."""
    g = json.load(open(os.path.join(DATA, "golden.json")))["prp"]
    for k in sorted({e["key"] for e in g}):
        s.do("prp.new", s="p", key=s.key(48, k))
        for e in g:
            if e["key"] == k:
                s.do("prp.encstr", s="p", m=e["x"])
                s.do("prp.decstr", s="p", m=e["y"])
        s.do("drop", s="p")


# ------------------------------------------------------------------ utilities
def U01(ctx):
    def big_str(s):
        h = long_bytes(s)
        s.do("big.str", h=h, x=h[-60:])
        if not ctx.quick:
            s.do("big.str", h=h, x="000000" + h[-74:])
            s.do("big.str", h=h, x=h[-74:] + "00")
            s.do("big.str", h=h, x="00" * 30)
    big(ctx, "str", big_str, need=5)

    ctx.model("MC_Str")

    def body(s, n):
        for h in itertools.product(b"ab\0", repeat=n) if n <= 4 else [bytes(s.rng.choice(b"ab\0") for _ in range(n))
                                                                       for _ in range(60)]:
            h = bytes(h)
            needles = {h[i:j] for i in range(n) for j in range(i + 1, min(n, i + 4) + 1)} | {b"a", b"ab", b"aa", b"\0", b"ba\0"}
            needles |= {h + b"a", b"a" + h}
            for x in s.rng.sample(sorted(needles), min(len(needles), 6)):
                if x:
                    s.do("strstrn", h=h.hex(), x=x.hex())
    split(ctx, "search", list(range(1, ctx.size(12, 30))), 4, body)

    def longer(s):
        for _ in range(ctx.size(150, 1000)):
            n = s.rng.randrange(1, 60)
            h = bytes(s.rng.choice(b"aab") for _ in range(n))
            i = s.rng.randrange(n)
            x = h[i:i + s.rng.randrange(1, 12)]
            s.do("strstrn", h=h.hex(), x=x.hex())
            s.do("strstrn", h=h.hex(), x=(x + b"c").hex())
            s.do("strstrn", h=h[:i].hex() or "00", x=h[i:].hex())
    ctx.job("longer", longer)

    def huge(s, n):
        h = bytearray(s.rng.choices(b"ab", k=n))
        for i in (0, 1, n // 2, 65535, 65536, n - 40):
            if i + 30 <= n:
                s.do("strstrn", h=h.hex(), x=bytes(h[i:i + 30]).hex())
                s.do("strstrn", h=h.hex(), x=bytes(h[i:i + 29] + b"c").hex())
        s.do("strstrn", h=h.hex(), x=h.hex())
        s.do("strstrn", h=h.hex(), x=bytes(h[1:] + b"c").hex())
        s.do("strstrn", h=h.hex(), x=bytes(h[n // 2:]).hex())
    split(ctx, "huge", (300, 1000, 4097, 70000), 2, huge)


# ------------------------------------------------------- trapdoor permutations
def be(x, n=256):
    return x.to_bytes(n, "big").hex()


TDP_V = ("str", "ret", "arr", "alias")


def tdp_messages(s, n, more):
    """Messages where modular arithmetic has its edges, and random ones."""
    ms = [0, 1, 2, 3, n - 1, n - 2, (n - 1) // 2, (n + 1) // 2, 1 << 2047, (1 << 2047) + 1, 1 << 64, (1 << 2040) - 1]
    ms += [s.rng.randrange(n) for _ in range(more)]
    ms += [s.rng.randrange(1 << s.rng.randrange(1, 2040)) for _ in range(2)]
    return [m for m in ms if m < n]


def beyond(s, n):
    top = (1 << 2048) - 1
    return [m for m in (n, n + 1, top, top - 1, s.rng.randrange(n, top)) if n <= m <= top]


def T01(ctx):
    ctx.model("MC_Tdp")
    keys = rsa()
    full = [k for k in sorted(keys) if int_of(keys[k]["n"]).bit_length() == 2048]

    def num(k, f):
        return int_of(keys[k][f])

    def forward(s, kn):
        """Evaluation, inversion, iterated inversion and pools agree with x^e mod n."""
        k = keys[kn]
        n, e = num(kn, "n"), int(k["e"])
        s.do("tdp.pk", s="t", pem=hexs(k["pub"]), bad=False)
        s.do("tdp.isk", s="i", pem=hexs(k["priv"]), bad=False)
        pools = {}
        for size in (1, 2, 3, 5, 9, 17, 64, 127, 128, 200, 255):
            if e.bit_length() * size < 2048 and size <= ctx.size(24, 255):
                pools["p%d" % size] = size
                s.do("tdp.pool", s="p%d" % size, pem=hexs(k["pub"]), size=size, bad=False)
                s.do("tdp.maxorder", s="p%d" % size)
        for j, m in enumerate(tdp_messages(s, n, ctx.size(4, 30))):
            m = be(m)
            r = s.do("tdp.eval", kind="t", v=TDP_V[j % 4], s="t", m=m)
            s.do("tdp.eval", kind="i", v=TDP_V[(j + 1) % 4], s="i", m=m)
            s.do("tdp.invert", v=TDP_V[(j + 2) % 4], s="i", m=r["out"])
            back = s.do("tdp.invert", v=TDP_V[(j + 3) % 4], s="i", m=m)
            if back["e"] == "ok":
                s.do("tdp.eval", kind="t", v=TDP_V[(j + 3) % 4], s="t", m=back["out"])
            for order in (0, 1, 2, s.rng.randrange(3, 40)) + ((1000, 65535, 65536, 65537, (1 << 24) + j, (1 << 31) + 1, (1 << 32) - 1) if j < 3 else ()):
                s.do("tdp.imult", v=TDP_V[(j + order) % 4], s="i", m=m, k=str(order))
            for p, size in pools.items():
                orders = {1, size} | ({s.rng.randint(1, size)} if size > 1 else set())
                for order in orders:
                    r = s.do("tdp.peval", v=("str", "ret", "arr")[(j + order) % 3], s=p, m=m, k=order)
                    if r["e"] == "ok" and j % 4 == 0:
                        s.do("tdp.imult", v="ret", s="i", m=r["out"], k=str(order))
                if j % 5 == 0:
                    s.do("tdp.eval", kind="p", v=TDP_V[j % 4], s=p, m=m)
        for m in beyond(s, n):
            m = be(m)
            for v in TDP_V:
                s.do("tdp.eval", kind="t", v=v, s="t", m=m)
            s.do("tdp.eval", kind="i", v="ret", s="i", m=m)
            s.do("tdp.invert", v="ret", s="i", m=m)
            s.do("tdp.imult", v="ret", s="i", m=m, k="3")
            for p, size in pools.items():
                s.do("tdp.peval", v="ret", s=p, m=m, k=size)
        if kn in ("a", "e3"):       # the same for long
            x = be(s.rng.randrange(n))
            s.do("tdp.invert", v="ret", s="i", m=x, rep=ctx.size(300, 1500))
            s.do("tdp.imult", v="arr", s="i", m=x, k="2", rep=ctx.size(300, 1500))
            s.do("tdp.peval", v="ret", s=max(pools, key=pools.get), m=x, k=pools[max(pools, key=pools.get)], rep=ctx.size(300, 1500))
        # copies, assignments and moves are the same permutation, and stay it
        # when the original goes
        x = be(s.rng.randrange(n))
        other = [o for o in full if o != kn][s.rng.randrange(len(full) - 1)]
        s.do("tdp.copy", s="t", d="t2")
        s.do("tdp.pk", s="t3", pem=hexs(keys[other]["pub"]), bad=False)
        s.do("tdp.eval", kind="t", v="ret", s="t3", m=x)
        s.do("tdp.assign", s="t", d="t3")
        s.do("tdp.assign", s="t", d="t")
        s.do("drop", s="t")
        for t in ("t2", "t3"):
            s.do("tdp.eval", kind="t", v="ret", s=t, m=x)
            s.do("tdp.pub", kind="t", v="-", s=t)
        # to and from permutations that were used, and that never were
        for used in ("", "t", "u", "tu"):
            for a, b in ((kn, other), (other, kn)):
                y = be(s.rng.randrange(min(num(kn, "n"), num(other, "n"))))
                for kd, new, asg in (("t", "tdp.pk", "tdp.assign"), ("p", "tdp.pool", "tdp.passign")):
                    extra = {"size": 1} if kd == "p" else {}
                    s.do(new, s="tt", pem=hexs(keys[a]["pub"]), bad=False, **extra)
                    s.do(new, s="uu", pem=hexs(keys[b]["pub"]), bad=False, **extra)
                    if "t" in used:
                        s.do("tdp.eval", kind=kd, v="ret", s="tt", m=y)
                    if "u" in used:
                        s.do("tdp.eval", kind=kd, v="ret", s="uu", m=y)
                    s.do(asg, s="tt", d="uu")
                    s.do({"t": "tdp.copy", "p": "tdp.pcopy"}[kd], s="uu", d="vv")
                    for o in ("vv", "uu", "tt"):
                        s.do("tdp.eval", kind=kd, v="ret", s=o, m=y)
        s.do("tdp.imove", s="i", d="i2")
        s.do("tdp.invert", v="ret", s="i2", m=x)
        s.do("tdp.imult", v="ret", s="i2", m=x, k="5")
        s.do("tdp.eval", kind="i", v="ret", s="i2", m=x)
        for p in list(pools):
            size = pools[p]
            s.do("tdp.pcopy", s=p, d="q")
            small = 2 if int(keys[other]["e"]).bit_length() * 2 < 2048 else 1
            s.do("tdp.pool", s="q2", pem=hexs(keys[other]["pub"]), size=small, bad=False)
            s.do("tdp.peval", v="ret", s="q2", m=x, k=small)
            s.do("tdp.passign", s=p, d="q2")
            s.do("tdp.passign", s="q2", d="q2")
            s.do("drop", s=p)
            for q in ("q", "q2"):
                s.do("tdp.maxorder", s=q)
                for order in {1, size, (size + 1) // 2}:
                    s.do("tdp.peval", v="str", s=q, m=x, k=order)
                s.do("tdp.peval", v="str", s=q, m=x, k=size + 1) if size < 255 else None
                s.do("tdp.eval", kind="p", v="str", s=q, m=x)
                s.do("tdp.pub", kind="p", v="-", s=q)
        s.do("reset")
    for kn in full:
        ctx.job("key-" + kn, lambda s, kn=kn: forward(s, kn))

    def generated(s):
        """A generated key: known once shown."""
        for _ in range(ctx.size(1, 4)):
            s.do("tdp.irand", s="i")
            pub = s.do("tdp.pub", kind="i", v="-", s="i")["out"]
            s.do("tdp.pk", s="t", pem=pub, bad=False)
            s.do("tdp.pool", s="p", pem=pub, size=7, bad=False)
            for j in range(ctx.size(4, 20)):
                x = s.do("tdp.sample", kind="tip"[j % 3], v=("str", "arr")[j % 2], s="tip"[j % 3])["out"]
                y = s.do("tdp.peval", v="ret", s="p", m=x, k=1 + j % 7)["out"]
                s.do("tdp.imult", v="ret", s="i", m=y, k=str(1 + j % 7))
                s.do("tdp.invert", v="arr", s="i", m=y)
                s.do("tdp.eval", kind="i", v="ret", s="i", m=x)
                s.do("tdp.eval", kind="t", v="ret", s="t", m=x)
            s.do("tdp.priv", s="i")
            x = s.do("tdp.sample", kind="i", v="arr", s="i")["out"]
            s.do("tdp.imult", v="ret", s="i", m=x, k="77")
            s.do("reset")
    ctx.job("generated", generated)
    if not ctx.quick:
        for i in range(6):
            ctx.job("generated%d" % i, generated)
    small = ["a"]
    ctx.job("sanitized", lambda s: forward(s, small[0]), variant="asan")


def T02(ctx):
    keys = rsa()

    def same(s, a, ka, b, kb, n):
        """Two objects hold the same key."""
        for j in range(3):
            x = s.bytes(256) if n is None else be(s.rng.randrange(n))
            s.do("tdp.eval", kind=ka, v="ret", s=a, m=x)
            s.do("tdp.eval", kind=kb, v="arr", s=b, m=x)

    def export(s):
        """generate -> show -> rebuild -> show: nothing changes."""
        for _ in range(ctx.size(1, 4)):
            s.do("tdp.irand", s="i")
            pub = s.do("tdp.pub", kind="i", v="-", s="i")["out"]
            priv = s.do("tdp.priv", s="i")["out"]
            s.do("tdp.isk", s="i2", pem=priv, bad=False)
            s.do("tdp.pub", kind="i", v="-", s="i2")
            s.do("tdp.priv", s="i2")
            s.do("tdp.pk", s="t", pem=pub, bad=False)
            s.do("tdp.pool", s="p", pem=pub, size=3, bad=False)
            for o, k in (("i", "i"), ("t", "t"), ("p", "p")):
                s.do("tdp.pub", kind=k, v="-", s=o)
            same(s, "i", "i", "i2", "i", None)
            same(s, "t", "t", "p", "p", None)
            for j in range(3):
                x = s.do("tdp.sample", kind="i", v="str", s="i")["out"]
                s.do("tdp.invert", v="ret", s="i", m=x)
                s.do("tdp.invert", v="ret", s="i2", m=x)
                s.do("tdp.imult", v="ret", s="i2", m=x, k=str(3 + j))
            s.do("wrapper.new", s="w", key=s.key(32))
            b = s.do("wrapper.wrap", s="w", ty="tinv", o="i", t="tinv", n=0)
            if b["e"] == "ok":
                s.do("wrapper.unwrap", s="w", ty="tinv", blob=b["out"], d="i3", t="tinv", n=0)
                s.do("tdp.pub", kind="i", v="-", s="i3")
                s.do("tdp.priv", s="i3")
                x = s.do("tdp.sample", kind="i", v="str", s="i3")["out"]
                s.do("tdp.invert", v="ret", s="i3", m=x)
            s.do("reset")
    for i in range(ctx.size(2, 8)):
        ctx.job("export%d" % i, export)

    def stored(s, kn):
        """Keys made elsewhere are read and shown as they are."""
        k = keys[kn]
        for pem in (k["pub"], k["pub"] + "\n", k["pub"].rstrip("\n") + "\n"):
            s.do("tdp.pk", s="t", pem=hexs(pem), bad=False)
            s.do("tdp.pub", kind="t", v="-", s="t")
        s.do("tdp.pool", s="p", pem=hexs(k["pub"]), size=1, bad=False)
        s.do("tdp.pub", kind="p", v="-", s="p")
        s.do("tdp.copy", s="t", d="t2")
        s.do("tdp.pub", kind="t", v="-", s="t2")
        s.do("tdp.pcopy", s="p", d="p2")
        s.do("tdp.pub", kind="p", v="-", s="p2")
        s.do("tdp.isk", s="i", pem=hexs(k["priv"]), bad=False)
        priv = s.do("tdp.priv", s="i")
        s.do("tdp.pub", kind="i", v="-", s="i")
        if priv["e"] == "ok":
            s.do("tdp.isk", s="i2", pem=priv["out"], bad=False)
            s.do("tdp.priv", s="i2")
        x = s.bytes(256)
        for o, kd in (("t", "t"), ("t2", "t"), ("p", "p"), ("p2", "p"), ("i", "i"), ("i2", "i")):
            s.do("tdp.eval", kind=kd, v="ret", s=o, m=x)
        s.do("reset")
    split(ctx, "stored", [k for k in sorted(keys) if int_of(keys[k]["n"]).bit_length() == 2048], 3, stored)

    def drawn(s, kn):
        """Messages generated from a key and a seed are a function of the modulus, the key and the seed."""
        k = keys[kn]
        s.do("tdp.pk", s="t", pem=hexs(k["pub"]), bad=False)
        s.do("tdp.isk", s="i", pem=hexs(k["priv"]), bad=False)
        s.do("tdp.pool", s="p", pem=hexs(k["pub"]), size=1, bad=False)
        for ln in (0, 1, 2, 31, 32, 63, 64, 65, 100, 1000) + tuple(s.rng.randrange(200) for _ in range(ctx.size(2, 20))):
            seed = s.bytes(ln)
            key = s.bytes(32)
            s.do("prf.new", n=264, s="f", key=s.key(32, key))
            for kd in "tip":
                s.do("tdp.gen", kind=kd, v="prf", s=kd, key="f", m=seed)
                s.do("tdp.gen", kind=kd, v="prfarr", s=kd, key="f", m=seed)
                for v in ("key", "keyarr"):
                    kk = s.key(32, key)
                    s.do("tdp.gen", kind=kd, v=v, s=kd, key=kk, m=seed)
                    if ln == 2:
                        s.do("tdp.gen", kind=kd, v=v, s=kd, key=kk, m=seed)     # consumed
                        s.do("key.probe", n=32, s=kk, m="aa")
        key = s.bytes(32)
        s.do("prf.new", n=264, s="f", key=s.key(32, key))
        for j, seed in enumerate(deep.related(s.rng, 40) + [b"", b"\0", b"\0\0", b"a\0b", b"a\0c", b"a"]
                                 + [s.rng.randbytes(n) for n in (300, 5000, 65537)]):
            kd = "tip"[j % 3]
            s.do("tdp.gen", kind=kd, v=("prf", "prfarr")[j % 2], s=kd, key="f", m=seed.hex())
            s.do("tdp.gen", kind=kd, v=("key", "keyarr")[j % 2], s=kd, key=s.key(32, key), m=seed.hex())
        for j in range(ctx.size(30, 200)):
            for kd in "tip":
                s.do("tdp.sample", kind=kd, v=("str", "arr")[j % 2], s=kd)
        s.do("reset")
    for kn in ("a", "b", "e3", "ebig"):
        ctx.job("generate-" + kn, lambda s, kn=kn: drawn(s, kn), fresh=True)


def int_of(v):
    return v if isinstance(v, int) else int(v, 16)


def mangle_pem(rng, pem):
    """A key that is certainly malformed."""
    lines = pem.strip().split("\n")
    body = lines[1:-1]
    i = rng.randrange(10)
    if i == 0:
        return ""
    if i == 1:
        return "\n".join(body)                                 # no header
    if i == 2:
        return "\n".join(lines[:-1]) + "\n"                    # no footer
    if i == 3:
        return "\n".join(lines[:1 + rng.randrange(len(body))] + lines[-1:]) + "\n"     # truncated
    if i == 4:
        return lines[0] + "\n" + lines[-1] + "\n"
    if i == 5:
        return "-----BEGIN CERTIFICATE-----\n" + "\n".join(body) + "\n-----END CERTIFICATE-----\n"
    if i == 6:
        return "\n".join(lines[:2] + ["!!!!" + body[1][4:]] + lines[3:]) + "\n"
    if i == 7:
        return "A" * rng.choice((1, 31, 300, 4000))
    if i == 8:
        return "-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n"
    return lines[0] + "\n" + "\n".join("A" * 64 for _ in body) + "\n" + lines[-1] + "\n"


def T03(ctx):
    keys = rsa()
    a, b = keys["a"], keys["b"]

    def malformed(s):
        for _ in range(ctx.size(60, 500)):
            for op, pem, kw in (("tdp.pk", a["pub"], {}), ("tdp.isk", a["priv"], {}), ("tdp.pool", b["pub"], {"size": 3})):
                s.do(op, s="x", pem=hexs(mangle_pem(s.rng, pem)), bad=True, **kw)
        # the other kind of key
        s.do("tdp.pk", s="x", pem=hexs(a["priv"]), bad=True)
        s.do("tdp.isk", s="x", pem=hexs(a["pub"]), bad=True)
        s.do("tdp.pool", s="x", pem=hexs(a["priv"]), size=2, bad=True)
        s.do("reset")

    def flipped(s):
        """A key with a damaged character: refused, or usable without harm."""
        for _ in range(ctx.size(40, 400)):
            for op, pem, kw in (("tdp.pk", a["pub"], {}), ("tdp.isk", a["priv"], {}), ("tdp.pool", b["pub"], {"size": 3})):
                i = s.rng.randrange(30, len(pem) - 30)
                bad = pem[:i] + s.rng.choice("ABCDwxyz0189+/=\n ") + pem[i + 1:]
                s.do(op, s="x", pem=hexs(bad), bad=False, maybe=True, **kw)
        s.do("reset")

    def inconsistent(s, kn):
        """Keys that are well encoded and whose numbers do not fit together."""
        k = keys[kn]
        n, e, d, p, q = (int_of(k["n"]), int(k["e"]), *(int_of(k[f]) for f in "dpq"))
        good = craft.private_ints(n, e, d, p, q)
        lam = (p - 1) * (q - 1) // math.gcd(p - 1, q - 1)
        o = keys[s.rng.choice([x for x in "abc" if x != kn])]
        on, od, op, oq = (int_of(o[f]) for f in "ndpq")
        other = craft.private_ints(on, int(o["e"]), od, op, oq)
        bads = []
        for i in range(9):
            for v in (good[i] + 1, good[i] + 2, abs(good[i] - 2), 0, 1, 2, good[i] ^ 1 << s.rng.randrange(good[i].bit_length() + 1),
                      good[i] >> 1, s.rng.getrandbits(max(good[i].bit_length(), 2)), other[i]):
                if v != good[i]:
                    bads.append((i, v))
        s.do("tdp.isk", s="i", pem=hexs(k["priv"]), bad=False)
        for i, v in bads if not ctx.quick else s.rng.sample(bads, 40):
            x = list(good)
            x[i] = v
            s.do("tdp.isk", s="x", pem=hexs(craft.private_of(x)), bad=True)
        for x in ([0, n, e, d, q, p, *good[6:]], [0, n, e, d, p, q, good[7], good[6], good[8]], good[:8], good + [1],
                  [0, n, e, d, n, 1, d % (n - 1), 0, 1], [0, n, d, e, p, q, *good[6:]], good[1:], [0] + good,
                  [1, *good[1:]], [0, on, *good[2:]], [*good[:4], op, oq, *other[6:]]):
            s.do("tdp.isk", s="x", pem=hexs(craft.private_of(x)), bad=True)
        # numbers that fit: another private exponent, the primes the other way round
        m = be(s.rng.randrange(n))
        for x in (good, craft.private_ints(n, e, d % lam, p, q), craft.private_ints(n, e, d % lam + lam, p, q),
                  craft.private_ints(n, e, d, q, p)):
            s.do("tdp.isk", s="i", pem=hexs(craft.private_of(x)), bad=False)
            s.do("tdp.invert", v="ret", s="i", m=m)
            s.do("tdp.imult", v="ret", s="i", m=m, k="2")
            s.do("tdp.priv", s="i")
        # public keys
        for n2, e2 in ((n, 0), (n, 1), (n, 2), (n, 65536), (n, n), (n, n + 2), (n - 1, e), (n + 1, e), (n, e + 1), (n, n - 1), (0, e), (1, e), (3, e), (e, n),
                       ((1 << 127) - 1, 3), ((1 << 64) + 1, e), (n << 1, e), ((1 << 2048) - 2, e), (1 << 2047, e)):
            s.do("tdp.pk", s="x", pem=hexs(craft.public(n2, e2)), bad=True)
            s.do("tdp.pool", s="x", pem=hexs(craft.public(n2, e2)), size=2, bad=True)
        for e2 in (3, 5, 257, 65535, 65537, (1 << 64) + 1, n - 2):      # odd
            s.do("tdp.pk", s="t", pem=hexs(craft.public(n, e2)), bad=False)
            s.do("tdp.eval", kind="t", v="ret", s="t", m=m)
            s.do("tdp.pub", kind="t", v="-", s="t")
        s.do("tdp.invert", v="ret", s="i", m=m)
        s.do("reset")

    def sizes(s):
        s.do("tdp.pk", s="t", pem=hexs(a["pub"]), bad=False)
        s.do("tdp.isk", s="i", pem=hexs(a["priv"]), bad=False)
        s.do("tdp.pool", s="p", pem=hexs(a["pub"]), size=5, bad=False)
        x = s.bytes(256)
        for n in list(range(0, 20)) + list(range(240, 280)) + [31, 32, 64, 100, 128, 200, 384, 511, 512, 513, 1024, 5000]:
            if n == 256:
                continue
            m = s.bytes(n)
            for v in ("str", "ret", "alias"):
                s.do("tdp.eval", kind="t", v=v, s="t", m=m)
                s.do("tdp.eval", kind="i", v=v, s="i", m=m)
                s.do("tdp.eval", kind="p", v=v, s="p", m=m)
                s.do("tdp.invert", v=v, s="i", m=m)
                for k in ("0", "1", "5"):
                    s.do("tdp.imult", v=v, s="i", m=m, k=k)
                for k in (0, 1, 5, 6, 255):
                    s.do("tdp.peval", v="str" if v == "alias" else v, s="p", m=m, k=k)
        # still sound afterwards
        s.do("tdp.eval", kind="t", v="ret", s="t", m=x)
        s.do("tdp.peval", v="ret", s="p", m=x, k=5)
        s.do("tdp.imult", v="ret", s="i", m=be(5), k="5")
        s.do("reset")

    def orders(s):
        x = s.bytes(256)
        for size in list(range(0, 33)) + [64, 100, 127, 128, 254, 255]:
            s.do("tdp.pool", s="p", pem=hexs(keys["e3"]["pub"]), size=size, bad=False)
            if size == 0:
                continue
            s.do("tdp.maxorder", s="p")
            for k in {0, 1, size - 1, size, size + 1, size + 2, 2 * size, 128, 255} if size > 20 else range(0, size + 3):
                if 0 <= k <= 255:
                    for v in ("str", "ret", "arr"):
                        s.do("tdp.peval", v=v, s="p", m=x, k=k)
        s.do("reset")

    def otherlen(s):
        """Keys whose modulus is not 2048 bits long never compute out of bounds."""
        for kn in ("k1024", "k3072", "k2040"):
            if kn not in keys:
                continue
            k = keys[kn]
            nb = (int_of(k["n"]).bit_length() + 7) // 8
            for op, pem, kd in (("tdp.pk", k["pub"], "t"), ("tdp.isk", k["priv"], "i"), ("tdp.pool", k["pub"], "p")):
                kw = {"size": 3} if op == "tdp.pool" else {}
                r = s.do(op, s=kd, pem=hexs(pem), bad=False, **kw)
                if r["e"] != "ok":
                    continue
                for n in {nb, 256}:
                    for v in ("str", "ret"):
                        s.do("tdp.eval", kind=kd, v=v, s=kd, m=s.bytes(n))
                s.do("tdp.eval", kind=kd, v="arr", s=kd, m=s.bytes(256))
            s.do("reset")
    for v in ("lock", "asan"):
        ctx.job("malformed-" + v, malformed, variant=v)
        ctx.job("flipped-" + v, flipped, variant=v)
        split(ctx, "inconsistent-" + v, ["a", "b", "e3"] if v == "lock" else ["c"], 1, inconsistent, variant=v)
        ctx.job("sizes-" + v, sizes, variant=v)
        ctx.job("orders-" + v, orders, variant=v)
        ctx.job("otherlen-" + v, otherlen, variant=v)


# ------------------------------------------------------------------ puncturable encryption
NULLTAG = "00010203040506070810111213141500"


def tags_around(s, t):
    """Tags that are easily taken for the tag t."""
    out = []
    for i in (0, 1, 7, 8, 15):
        b = bytearray.fromhex(t)
        b[i] ^= 1 << s.rng.randrange(8)
        out.append(b.hex())
    return out


def punctured(s, p, tags):
    """The shares of p's key punctured on the tags, in this order."""
    xs = [s.do("penc.inc", s=p, d=i + 1, m=t)["out"] for i, t in enumerate(tags)]
    return [s.do("penc.init", s=p, d=len(tags))["out"]] + xs


def Q01(ctx):
    ctx.model("MC_Punct")

    def new(s, k=None, slot="p"):
        s.do("penc.new", s=slot, key=s.key(32, k))

    def grow(s):
        """One puncture after the other, ciphertexts from before and after, each opened with every key there was."""
        new(s)
        base = s.bytes(16)
        pool = [base, *tags_around(s, base), *tags_around(s, NULLTAG), "00" * 16, "ff" * 16, s.bytes(16)]
        s.rng.shuffle(pool)
        n = ctx.size(13, 40)
        tags, cts, xs = [], [], []
        for d in range(n + 1):
            if d > 0:
                tags.append(pool[d % len(pool)] if s.rng.random() < 0.9 else s.rng.choice(pool))
                xs.append(s.do("penc.inc", s="p", d=d, m=tags[-1])["out"])
            for v in (0, (1 << 64) - 1, s.rng.getrandbits(64))[:1 if d % 3 else 3]:
                cts.append(s.do("penc.enc", s="p", v=str(v), m=pool[s.rng.randrange(len(pool))])["out"])
            key = [s.do("penc.init", s="p", d=d)["out"], *xs]
            if d % 2:
                s.rng.shuffle(key)
            s.do("pdec.new", s="d%d" % d, xs=key)
            for c in (cts if len(cts) < 12 else s.rng.sample(cts, 9) + cts[-3:]):
                s.do("pdec.dec", s="d%d" % d, ct=c)
        for d in range(n + 1):
            s.do("pdec.dec", s="d%d" % d, ct=cts[-1])
            s.do("pdec.dec", s="d%d" % d, ct=cts[0])

    def every(s, q):
        """A sequence of punctures over three tags."""
        new(s)
        base = s.bytes(16)
        tags = [base, tags_around(s, base)[4], s.bytes(16)]
        cts = [s.do("penc.enc", s="p", v=str(s.rng.getrandbits(64)), m=t)["out"] for t in tags]
        s.do("pdec.new", s="d", xs=punctured(s, "p", [tags[i] for i in q]))
        for c in cts:
            s.do("pdec.dec", s="d", ct=c)

    def public(s, how):
        """The public-key scheme: keys made at random or from a key, punctured with the public key."""
        for j in range(ctx.size(3, 12)):
            if how == "random":
                s.do("ppke.gen", s="g")
            else:
                s.do("ppke.genkey", s="g", key=s.key(32))
            base = s.bytes(16)
            pool = [base, *tags_around(s, base), s.bytes(16)]
            cts = []
            for d in range(ctx.size(5, 12)):
                t = s.rng.choice(pool)
                if d > 0:
                    s.do("ppke.puncture", s="g", m=t)
                s.do("ppke.shares", s="g")
                for x in pool[:4] + [NULLTAG]:
                    s.do("ppke.asks", s="g", m=x)
                for op in ("ppke.encpk", "ppke.encsp"):
                    cts.append(s.do(op, s="g", v=str(s.rng.getrandbits(64)), m=s.rng.choice(pool))["out"])
                for c in cts:
                    s.do("ppke.dec" if s.rng.random() < 0.5 else "ppke.decm", s="g", ct=c)
                s.do("ppke.puncture", s="g", m=NULLTAG)
                s.do("ppke.encpk", s="g", v="1", m=NULLTAG)
                s.do("ppke.encsp", s="g", v="1", m=NULLTAG)
            if j == 0:
                s.do("ppke.gen", s="o")
                s.do("ppke.decm", s="o", ct=cts[0])

    def together(s):
        """A master key used through both interfaces, and keys that are not each other's."""
        k = s.bytes(32)
        new(s, k)
        new(s, None, "q")
        s.do("ppke.genkey", s="g", key=s.key(32, k))
        tags = [s.bytes(16) for _ in range(3)]
        mine = punctured(s, "p", tags[:2])
        other = punctured(s, "q", tags[:2])
        s.do("pdec.new", s="d", xs=mine)
        s.do("pdec.new", s="e", xs=other)
        for x in ("p", "q"):
            for t in tags:
                c = s.do("penc.enc", s=x, v=str(s.rng.getrandbits(64)), m=t)["out"]
                for d in "de":
                    s.do("pdec.dec", s=d, ct=c)
                s.do("ppke.dec", s="g", ct=c)
        c = s.do("ppke.encpk", s="g", v="5", m=tags[2])["out"]
        s.do("pdec.dec", s="d", ct=c)
        s.do("drop", s="p")
        s.do("pdec.dec", s="d", ct=c)

    for v in ("pair-lock", "pair-release"):
        for j in range(ctx.size(1, 4)):
            ctx.job("grow-%s-%d" % (v, j), grow, variant=v, memory=True)
    seqs = [q for n in range(ctx.size(4, 6)) for q in itertools.product(range(3), repeat=n)]
    split(ctx, "every", seqs, ctx.size(8, 40), every, variant="pair-lock")
    for how in ("random", "key"):
        ctx.job("public-" + how, lambda s, how=how: public(s, how), variant="pair-lock")
    ctx.job("together", together, variant="pair-lock", memory=True)
    ctx.job("sanitized", grow, variant="pair-asan")


def Q02(ctx):
    ctx.model("MC_Punct")

    def fixed(s):
        """Shares are a fixed function of master key, number and tag, whatever was done before."""
        k = s.bytes(32)
        for j in range(ctx.size(2, 6)):
            s.do("penc.new", s="p%d" % j, key=s.key(32, k))
        s.do("penc.new", s="o", key=s.key(32))
        t = s.bytes(16)
        for d in (0, 1, 2, 3, 9, 10, 11, 19, 99, 100, 101, 127, 128, 255, 256, 257, 1000, 65535, 65536, 65537, 1 << 24, (1 << 31) - 1):
            for p in ("p0", "p1", "o"):
                s.do("penc.init", s=p, d=d)
                if d > 0:
                    s.do("penc.inc", s=p, d=d, m=t)
                    s.do("penc.inc", s=p, d=d, m=s.rng.choice(tags_around(s, t)))
            s.do("penc.enc", s="p1", v="7", m=t)
        for x in [t, "00" * 16, "ff" * 16, *tags_around(s, t), *tags_around(s, NULLTAG)]:
            s.do("penc.inc", s="p0", d=4, m=x)
            s.do("penc.enc", s="p0", v=str(s.rng.getrandbits(64)), m=x)

    def refused(s):
        """The reserved tag is refused everywhere; a consumed key makes nothing."""
        k = s.key(32)
        s.do("penc.new", s="p", key=k)
        s.do("penc.new", s="q", key=k)
        for d in (1, 2, 50):
            s.do("penc.inc", s="p", d=d, m=NULLTAG)
        for v in (0, 1 << 63):
            s.do("penc.enc", s="p", v=str(v), m=NULLTAG)
        s.do("penc.inc", s="p", d=1, m=s.bytes(16))
        s.do("penc.init", s="p", d=1)
        s.do("key.probe", n=32, s=k, m="00")

    def partial(s):
        """Keys with a share missing, of different numbers or of different master keys open nothing they should not."""
        s.do("penc.new", s="p", key=s.key(32))
        s.do("penc.new", s="q", key=s.key(32))
        tags = [s.bytes(16) for _ in range(5)]
        c = [s.do("penc.enc", s="p", v=str(s.rng.getrandbits(64)), m=t)["out"] for t in tags]
        full = punctured(s, "p", tags[:4])
        old = punctured(s, "p", tags[:2])
        theirs = punctured(s, "q", tags[:4])
        for i in range(5):
            s.do("pdec.new", s="m%d" % i, xs=full[:i] + full[i + 1:])
            s.do("pdec.new", s="x%d" % i, xs=full[:i] + [theirs[i]] + full[i + 1:])
        s.do("pdec.new", s="o", xs=[old[0], *full[1:]])
        s.do("pdec.new", s="n", xs=[full[0], *old[1:]])
        s.do("pdec.new", s="one", xs=[full[0]])
        s.do("pdec.new", s="twice", xs=full + [full[2]])
        for d in ["m%d" % i for i in range(5)] + ["x%d" % i for i in range(5)] + ["o", "n", "one", "twice"]:
            for x in (c[0], c[1], c[4]):
                s.do("pdec.dec", s=d, ct=x)

    def altered(s):
        """Altered ciphertexts are opened as what they say, nothing breaks."""
        s.do("penc.new", s="p", key=s.key(32))
        tags = [s.bytes(16) for _ in range(3)]
        s.do("pdec.new", s="d", xs=punctured(s, "p", tags[:2]))
        c = s.do("penc.enc", s="p", v="123456789", m=tags[2])["out"]
        b = bytes.fromhex(c)
        for i in (0, 7, 20, 55, 74, 80, 89):
            s.do("pdec.dec", s="d", ct=flip(b, 8 * i + s.rng.randrange(8)).hex())
        for t in tags + [NULLTAG]:
            s.do("pdec.dec", s="d", ct=c[:148] + t)

    for v in ("pair-lock", "pair-release"):
        ctx.job("fixed-" + v, fixed, variant=v, memory=True)
        ctx.job("refused-" + v, refused, variant=v, memory=True)
    ctx.job("partial", partial, variant="pair-lock")
    ctx.job("altered", altered, variant="pair-lock")
    ctx.job("sanitized", refused, variant="pair-asan")
    ctx.job("sanitized-altered", altered, variant="pair-asan")


# ------------------------------------------------------------------ randomness
def N01(ctx):
    def big_random(s):
        s.do("big.random", len=str(GIB4 + 200), mid=str(GIB4 - 8))
    big(ctx, "random", big_random, need=5, fresh=True)

    """Every draw of the library, in both builds, within a process, across
    processes and across fork."""
    many = ctx.size(72, 400)

    def columns(s, kind, least=64):
        s.note("draws.check", kind=kind, min=least)

    def raw(s):
        for n in (8, 12, 16, 32, 33, 48, 64, 100, 256, 257, 264, 600, 1025):
            for op in ("random.bytes", "random.str"):
                for _ in range(many):
                    s.do(op, len=n)
                columns(s, "%s/%d" % (op, n))
        for op in ("random.arr", "random.arr64"):
            for _ in range(many):
                s.do(op, len=32)
            columns(s, "%s/32" % op)
        for n in (0, 1, 2, 7, 4096, 4097, 10000):
            s.do("random.bytes", len=n)
            s.do("random.str", len=n)
        for _ in range(ctx.size(4, 30)):
            s.do("random.fork", len=32)
            s.do("random.fork", len=16)

    def nonces(s):
        k = s.bytes(32)
        for i, m in enumerate(("", "00", s.bytes(32), s.bytes(1000))):
            s.do("cipher.new", s="c", key=s.key(32, k))
            for j in range(many if i == 2 else 20):
                s.do(("cipher.enc", "cipher.encalias")[j % 2], s="c", m=m)
                if j % 10 == 9:
                    s.do("cipher.new", s="c", key=s.key(32, k))     # another object, the same key
                if j % 15 == 14:
                    s.do("cipher.move", s="c", d="c2")
                    s.do("cipher.move", s="c2", d="c")
            for _ in range(10):
                s.do("cipher.encarr", s="c", m="ab" * 16)
        columns(s, "nonce")

    def short_nonces(s):
        """Whatever the length of the plaintext and the overload, all of the nonce is drawn."""
        s.do("cipher.new", s="c", key=s.key(32))
        for n in list(range(1, 18)) + [31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1024, 4096, 65536]:
            for op in ("cipher.enc", "cipher.encalias") if n < 64 else ("cipher.enc",):
                for _ in range(16):
                    s.do(op, s="c", m="00" * n)
                columns(s, "nonce/%s/%d" % (op, n), 16)
        for n in ARR:
            for _ in range(16):
                s.do("cipher.encarr", s="c", m="00" * n)
            columns(s, "nonce/cipher.encarr/%d" % n, 16)

    def ivs(s):
        k = s.bytes(32)
        s.do("wrapper.new", s="w", key=s.key(32, k))
        o, f = make(s, "prg")
        for j in range(many):
            s.do("wrapper.wrap", s="w", o=o, **f)
            if j % 12 == 11:
                s.do("wrapper.new", s="w", key=s.key(32, k))
        for t in ("cipher", "prf", "prp", "rc", "cr"):
            for n in (1, 16, 32, 264) if t == "prf" else (16, 32) if t in ("rc", "cr") else (16,):
                o, f = make(s, t, n)
                for j in range(16):
                    s.do("wrapper.wrap", s="w", o=o, **f)
                columns(s, "iv/" + f["ty"], 16)
        columns(s, "iv")

    def lengths(s):
        """Every length up to 64, and some more: every byte is drawn."""
        for n in list(range(1, 65)) + [72, 80, 96, 112, 127, 128, 129, 255]:
            for op in ("random.bytes", "random.str"):
                for _ in range(16):
                    s.do(op, len=n)
                columns(s, "%s/%d" % (op, n), 16)

    def objects(s):
        """Random keys and contexts, disclosed by wrapping them."""
        s.do("wrapper.new", s="w", key=s.key(32))
        for j in range(many):
            s.do("prf.rand", n=32, s="f")
            s.do("prf.raw", n=32, s="f", m="aa")
            s.do("wrapper.wrap", s="w", o="f", t="prf", ty="prf32", n=32)
            s.do("prf.raw", n=32, s="f", m="aa")
            s.do("prp.rand", s="p")
            s.do("wrapper.wrap", s="w", o="p", t="prp", ty="prp", n=32)
            s.do("key.rand", n=32, s="k")
            s.do(("prg.new", "cipher.new")[j % 2], s="g", key="k")
            s.do("wrapper.wrap", s="w", o="g", t=("prg", "cipher")[j % 2], ty=("prg", "cipher")[j % 2], n=32)
            s.do("key.rand", n=32, s="k")
            s.do("rc.new", n=32, s="r", key="k", h=7)
            s.do("rc.eval", n=32, s="r", l="3")
            s.do("wrapper.wrap", s="w", o="r", t="rc", ty="rcprf32", n=32)
        s.do("drop", s="r")
        for kind in ("object/prf32", "object/prp"):
            columns(s, kind)
        for kind in ("object/prg", "object/cipher", "object/rcprf32"):
            s.note("draws.check", kind=kind, min=many // 2, vary=False)
        for n in (1, 16, 64, 128, 264):
            for j in range(12):
                s.do("prf.rand", n=n, s="f")
                s.do("prf.str", n=n, s="f", m="0102")

    def keys(s):
        for n in KEY_SIZES:
            for j in range(many if n in (16, 32, 33, 48, 64, 112, 128) else 12):
                s.do("key.rand", n=n, s="k")
                if s.variant == "lock":
                    s.do("key.peek", n=n, s="k")
                s.do("key.probe", n=n, s="k", m="aa")
                if j < 12:
                    for h in "bs" if n in (16, 25, 32, 64, 127, 128) else "b":
                        s.do("mac.rand", h=h, n=n, s="m")
                        s.do("mac.raw", h=h, n=n, s="m", m="bb")
                        s.do("mac.str", h=h, n=n, s="m", m="bb")
        for n in OTHER_KEYS:                # these are read as they are
            for j in range(16):
                s.do("key.rand", n=n, s="k")
                s.do("key.probe", n=n, s="k", m="")
            s.note("draws.check", kind="read/%d" % n, min=16)
        if s.variant == "lock":
            for n in (16, 32, 33, 48, 64, 112, 128):
                s.note("draws.check", kind="key/%d" % n, min=0)
        s.do("reset")

    def rsa_keys(s):
        for j in range(ctx.size(3, 10)):
            s.do("tdp.irand", s="i")
            pub = s.do("tdp.pub", kind="i", v="-", s="i")
            s.do("tdp.priv", s="i")
            if j == 0 and pub["e"] == "ok":
                s.do("tdp.pk", s="t", pem=pub["out"], bad=False)
                s.do("tdp.pool", s="p", pem=pub["out"], size=2, bad=False)
        for j in range(many):
            for kd in "tip":
                for v in ("str", "arr"):
                    s.do("tdp.sample", kind=kd, v=v, s=kd)
        columns(s, "message")

    def harvest(s, variant, i):
        """The same program in another process."""
        import tk
        z = tk.Session(variant, seed=0, name="other")
        r = []
        try:
            z.do("key.new", n=32, s="k", k="11" * 32)
            z.do("cipher.new", s="c", key="k")
            z.do("key.new", n=32, s="k", k="12" * 32)
            z.do("wrapper.new", s="w", key="k")
            z.do("key.new", n=32, s="k", k="13" * 32)
            z.do("prg.new", s="g", key="k")
            z.do("prf.rand", n=32, s="f")
            z.do("key.rand", n=32, s="k")
            z.do("mac.rand", h="b", n=32, s="m")
            z.do("prp.rand", s="p")
            for _ in range(3):
                r.append(("random", z.do("random.bytes", len=32)["out"]))
                r.append(("nonce", z.do("cipher.enc", s="c", m="aa")["out"][:32]))
                r.append(("iv", z.do("wrapper.wrap", s="w", o="g", t="prg", ty="prg", n=0)["out"][:32]))
            r.append(("prf", z.do("prf.raw", n=32, s="f", m="aa")["out"]))
            r.append(("mac", z.do("mac.raw", h="b", n=32, s="m", m="aa")["out"]))
            r.append(("probe", z.do("key.probe", n=32, s="k", m="aa")["out"]))
            r.append(("prp", z.do("prp.encret", s="p", m="00" * 16)["out"]))
            if i < 2:
                z.do("tdp.irand", s="i")
                r.append(("rsa", z.do("tdp.sample", kind="i", v="str", s="i")["out"]))
                r.append(("pub", z.do("tdp.pub", kind="i", v="-", s="i")["out"]))
        except (KeyError, tk.Crashed):
            s.note("draws.add", kind="process", v="failed")
            s.note("draws.check", kind="process", min=9)
        finally:
            z.close()
        for kind, v in r:
            s.note("draws.add", kind="process/" + kind, v=v)

    def processes(s):
        for i in range(ctx.size(6, 40)):
            harvest(s, s.variant, i)

    FIRST = {
        "random8": [("random.bytes", {"len": 8})], "random16": [("random.bytes", {"len": 16})],
        "random32": [("random.str", {"len": 32})], "randomarr": [("random.arr", {"len": 32})],
        "nonce": [("key.new", {"n": 32, "s": "k", "k": "21" * 32}), ("cipher.new", {"s": "c", "key": "k"}),
                  ("cipher.enc", {"s": "c", "m": "aabb"})],
        "iv": [("key.new", {"n": 32, "s": "k", "k": "22" * 32}), ("wrapper.new", {"s": "w", "key": "k"}),
               ("key.new", {"n": 32, "s": "k", "k": "23" * 32}), ("prg.new", {"s": "g", "key": "k"}),
               ("wrapper.wrap", {"s": "w", "o": "g", "t": "prg", "ty": "prg", "n": 0})],
        "key": [("key.rand", {"n": 32, "s": "k"}), ("key.probe", {"n": 32, "s": "k", "m": "aa"})],
    }

    def first(s, kind, outs):
        for o in outs:
            s.note("draws.add", kind="first/" + kind, v=o[:32] if kind in ("nonce", "iv") else o, raw="y")
        s.note("draws.check", kind="first/" + kind, min=len(outs))

    def first_of_process(s):
        """The first draw of a process."""
        import tk
        for kind, cmds in FIRST.items():
            outs = []
            for i in range(ctx.size(20, 64)):
                z = tk.Session(s.variant, seed=0, name="other")
                try:
                    for op, f in cmds:
                        r = z.do(op, **f)
                    outs.append(r.get("out", ""))
                except tk.Crashed:
                    outs.append("")
                finally:
                    z.close()
            first(s, kind, outs)

    def first_of_thread(s):
        """The first draws of a thread, of many threads."""
        import threads
        for kind, cmds in FIRST.items():
            scripts = []
            for t in range(ctx.size(32, 64)):
                sc = threads.Script(t, "first", "first", s.variant)
                for op, f in cmds + [cmds[-1]] * 3:
                    sc.do(op, **f)
                scripts.append(sc.commands)
            run = threads.execute(s.variant, scripts)
            for j in range(4):
                outs = [e["r"].get("out", "") for e in run.events[len(scripts) * (len(cmds) - 1 + j):][:len(scripts)]]
                if kind != "key" or j == 0:
                    first(s, kind, outs + [""] * (len(scripts) - len(outs)))

    def forks(s):
        """Parent and child go on from the same state, whatever was drawn before; also a child's child."""
        s.do("cipher.new", s="c", key=s.key(32))
        s.do("wrapper.new", s="w", key=s.key(32))
        s.do("prg.new", s="g", key=s.key(32))
        if s.variant == "lock":
            s.do("tdp.irand", s="i")
        draws = {
            "nonce": lambda: s.do("cipher.enc", s="c", m="00"),
            "noncearr": lambda: s.do("cipher.encarr", s="c", m="ab" * 16),
            "iv": lambda: s.do("wrapper.wrap", s="w", o="g", t="prg", ty="prg", n=0),
            "prf": lambda: (s.do("prf.rand", n=32, s="f"), s.do("prf.raw", n=32, s="f", m="aa")),
            "mac": lambda: (s.do("mac.rand", h="b", n=32, s="m"), s.do("mac.raw", h="b", n=32, s="m", m="aa")),
            "key": lambda: (s.do("key.rand", n=32, s="k"), s.do("key.probe", n=32, s="k", m="aa")),
            "key16": lambda: (s.do("key.rand", n=16, s="k"), s.do("key.probe", n=16, s="k", m="aa")),
            "prp": lambda: (s.do("prp.rand", s="p"), s.do("wrapper.wrap", s="w", o="p", t="prp", ty="prp", n=32)),
            "bytes": lambda: s.do("random.bytes", len=16), "str": lambda: s.do("random.str", len=32),
            "arr": lambda: s.do("random.arr", len=32),
        }
        if s.variant == "lock":
            draws["sample"] = lambda: s.do("tdp.sample", kind="i", v="str", s="i")
        for kind, draw in draws.items():
            for before in ctx.size((0, 1, 2, 5, 7, 15), tuple(range(40))):
                for _ in range(before):
                    draw()
                s.do("proc.fork")
                for _ in range(s.rng.randrange(1, 4)):
                    draw()
                if before % 3 == 1:
                    s.do("proc.fork")
                    draw()
                    s.do("proc.exit")
                    draw()
                s.do("proc.exit")
                for _ in range(s.rng.randrange(2, 5)):
                    draw()
        for _ in range(ctx.size(30, 200)):          # forks anywhere
            depth = 0
            for _ in range(s.rng.randrange(4, 12)):
                x = s.rng.random()
                if x < 0.25 and depth < 3:
                    s.do("proc.fork")
                    depth += 1
                elif x < 0.4 and depth:
                    s.do("proc.exit")
                    depth -= 1
                else:
                    draws[s.rng.choice(list(draws))]()
            for _ in range(depth):
                s.do("proc.exit")
        s.do("proc.fork")
        if s.variant == "lock":                     # generated RSA keys
            s.do("tdp.irand", s="j")
            s.do("tdp.pub", kind="i", v="-", s="j")
        s.do("proc.exit")
        if s.variant == "lock":
            s.do("tdp.irand", s="j")
            s.do("tdp.pub", kind="i", v="-", s="j")
            s.do("tdp.priv", s="j")

    def long_run(s):
        """Thousands of draws of each kind."""
        for i in range(ctx.size(2500, 12000)):
            s.do(("random.bytes", "random.str", "random.arr")[i % 3], len=32)
            s.do("random.bytes", len=16)
        s.do("cipher.new", s="c", key=s.key(32))
        s.do("wrapper.new", s="w", key=s.key(32))
        s.do("prg.new", s="g", key=s.key(32))
        for i in range(ctx.size(1500, 6000)):
            s.do("cipher.enc", s="c", m="00")
            s.do("wrapper.wrap", s="w", o="g", t="prg", ty="prg", n=0)
    for v in ("lock", "nolock"):
        for f in (raw, lengths, nonces, short_nonces, ivs, objects, keys, rsa_keys, processes, first_of_process, first_of_thread, forks, long_run):
            if v == "lock" or f is not long_run:
                ctx.job("%s-%s" % (f.__name__, v), f, variant=v, fresh=True)


# -------------------------------------------------------------- secure memory
ALL_FAMILIES = ["key", "misuse", "mac", "prf", "prg", "cipher", "wrapper", "prp", "rc"]
RAND_FAMILIES = ["key", "rand", "misuse", "mac", "prf", "prg", "cipher", "wrapper", "prp"]
FAMILIES = (ALL_FAMILIES, RAND_FAMILIES)


def chunks(b):
    return [b[i:i + 16] for i in range(0, len(b) - 15, 16)]


def scan(s, *secrets, op="memscan"):
    """None of these byte strings is in memory the program can read."""
    xs = [bytes(x ^ 0x5a for x in c).hex() for k in secrets for c in chunks(k)]
    if xs:
        s.do(op, xs=xs)


def padded(k):
    """The two forms HMAC gives to a key."""
    return [bytes(x ^ p for x in k) for p in (0x36, 0x5c)]


def stream(k, off, n):
    first = off // 64
    b = b"".join(craft.chacha_block(k, first + i, bytes(12)) for i in range((off % 64 + n + 63) // 64))
    return b[off % 64:off % 64 + n]


def path_keys(k, h, leaf):
    """The keys of the inner nodes from the root to a leaf."""
    out = [k]
    for d in range(h - 2):
        k = stream(k, 32 * ((leaf >> (h - 2 - d)) & 1), 32)
        out.append(k)
    return out


def K01(ctx):
    def hidden(s, item):
        """Secrets are searched for in readable memory after each step of their life."""
        i = item
        k = {n: s.rng.randbytes(n) for n in (16, 32, 48, 64, 128)}
        for n in k:
            s.do("key.new", n=n, s="k%d" % n, k=k[n].hex())
        scan(s, *k.values())
        s.do("key.move", n=32, s="k32", d="x")
        s.do("key.move", n=32, s="x", d="k32")
        s.do("key.new", n=32, s="y", k=s.bytes(32))
        s.do("key.assign", n=32, s="k32", d="y")
        scan(s, k[32])
        s.do("prf.new", n=32, s="f", key="y")
        m = s.bytes(20)
        s.do("prf.raw", n=32, s="f", m=m)
        scan(s, k[32])
        m2 = s.bytes(21)
        d32 = craft.prf(k[32], 32, bytes.fromhex(m2))
        s.do(("prf.key", "prf.keystr")[i % 2], n=32, s="f", m=m2, d="d")
        scan(s, d32)
        s.do("prg.new", s="g", key="d")
        s.do("prg.raw", s="g", off="4096", len=100)
        s.do("prg.str", s="g", off="8000", len=100)
        s.do("prg.key", n=32, s="g", i=1, d="e")
        dk = stream(d32, 32, 32)
        scan(s, d32, dk, stream(d32, 0, 32))
        s.do("prg.keys", n=32, s="g", count=4, i=2, d="v")
        scan(s, *[stream(d32, 32 * j, 32) for j in range(2, 6)])
        s.do("cipher.new", s="c", key="e")
        r = s.do("cipher.enc", s="c", m=s.bytes(50))
        scan(s, dk)
        if r["e"] == "ok":
            s.do("cipher.dec", s="c", ct=r["out"])
            bad = flip(bytes.fromhex(r["out"]), s.rng.randrange(8 * len(r["out"]) // 2)).hex()
            s.do("cipher.dec", s="c", ct=bad)
        scan(s, dk)
        # permutation: the key and the context made of it
        s.do("prp.new", s="p", key="k48")
        s.do("prp.encstr", s="p", m=s.bytes(33))
        s.do("prp.decret", s="p", m=s.bytes(5))
        scan(s, k[48])
        wk = s.rng.randbytes(32)
        s.do("wrapper.new", s="w", key=s.key(32, wk.hex()))
        scan(s, wk, craft.prf(wk, 32, b"\1"), craft.prf(wk, 32, b"\2"))
        for o, f, secret in (("c", {"t": "cipher", "ty": "cipher", "n": 32}, dk), ("g", {"t": "prg", "ty": "prg", "n": 32}, d32),
                             ("f", {"t": "prf", "ty": "prf32", "n": 32}, k[32]), ("p", {"t": "prp", "ty": "prp", "n": 32}, None)):
            b = s.do("wrapper.wrap", s="w", o=o, **f)
            if b["e"] != "ok":
                continue
            blob = bytes.fromhex(b["out"])
            if secret is None:
                secret = craft.chacha_xor(craft.prf(wk, 32, b"\2"), blob[-12:], blob[16:-12])
            scan(s, secret, wk)
            s.do("wrapper.unwrap", s="w", blob=b["out"], d="u", **f)
            scan(s, secret)
            bad = flip(blob, s.rng.randrange(8 * len(blob))).hex()
            s.do("wrapper.unwrap", s="w", blob=bad, d="u2", **f)
            s.do("drop", s="u")
            scan(s, secret, craft.prf(wk, 32, b"\1"), craft.prf(wk, 32, b"\2"))
        # trees
        rk = s.rng.randbytes(32)
        h = (8, 12, 20)[i % 3]
        s.do("rc.new", n=32, s="r", key=s.key(32, rk.hex()), h=h)
        leaf = s.rng.randrange(1 << (h - 1))
        s.do("rc.eval", n=32, s="r", l=str(leaf))
        scan(s, *path_keys(rk, h, leaf))
        lo = s.rng.randrange(1 << (h - 2))
        hi = lo + s.rng.randrange(1, 1 << (h - 2))
        s.do("rc.range", n=32, s="r", lo=str(lo), hi=str(min(hi, lo + 9)))
        scan(s, *path_keys(rk, h, lo))
        s.do("rc.constrain", n=32, s="r", lo=str(lo), hi=str(hi), d="cr")
        mid = (lo + hi) // 2
        for x in (lo, mid, hi):
            scan(s, *path_keys(rk, h, x))
            s.do("rc.ceval", n=32, s="cr", l=str(x))
            scan(s, *path_keys(rk, h, x))
        b = s.do("wrapper.wrap", s="w", o="cr", t="cr", ty="crcprf32", n=32)
        scan(s, *path_keys(rk, h, mid))
        if b["e"] == "ok":
            s.do("wrapper.unwrap", s="w", blob=b["out"], d="cr2", t="cr", ty="crcprf32", n=32)
            scan(s, *path_keys(rk, h, mid))
            s.do("rc.cconstrain", n=32, s="cr2", lo=str(lo), hi=str(mid), d="cr3")
            scan(s, *path_keys(rk, h, lo))
        s.do("reset")
        scan(s, rk, wk, dk, d32, *k.values())
    split(ctx, "hidden", list(range(ctx.size(12, 100))), ctx.size(3, 10), hidden, memory=True)

    def stack(s, item):
        """What each call leaves on the stack (and on the heap).  The driver erases what libsodium's Blake2b leaves in its
        own frames; AEZ is left out, since its compiled code keeps round keys in its frames."""
        rng = s.rng

        def call(op, secrets, **f):
            r = s.do(op, **f)
            scan(s, *secrets, op="stackscan")
            return r
        s.do("stackwatch")
        for n in (16, 32, 48, 64, 128):
            k = rng.randbytes(n)
            call("key.new", [k], n=n, s="k", k=k.hex())
            call("key.move", [k], n=n, s="k", d="x")
            call("key.new", [], n=n, s="k", k=s.bytes(n))
            call("key.assign", [k], n=n, s="x", d="k")
            for h in "bs" if n in (16, 32, 64, 128) else "b":
                s.do("key.new", n=n, s="k", k=k.hex())
                call("mac.new", [k] + padded(k), h=h, n=n, s="m", key="k")
                for op in ("mac.raw", "mac.str", "mac.arr"):
                    m = rng.randbytes(40) if op == "mac.arr" else rng.randbytes(rng.choice((0, 1, 20, 63, 64, 100, 200, 3000)))
                    call(op, [k] + padded(k), h=h, n=n, s="m", m=m.hex())
                for ln in (0, 1, 16, 63, 64, 65):
                    call("mac.rawlen", [k] + padded(k), h=h, n=n, s="m", m=s.bytes(10), len=ln)
                call("mac.move", [k] + padded(k), h=h, n=n, s="m", d="m2")
                scan(s, k, *padded(k))
        for n in (1, 16, 32, 64, 65, 100, 128, 1000):
            k = rng.randbytes(32)
            s.do("key.new", n=32, s="k", k=k.hex())
            call("prf.new", [k] + padded(k), n=n, s="f", key="k")
            for op in ("prf.raw", "prf.str"):
                call(op, [k] + padded(k), n=n, s="f", m=s.bytes(rng.choice((0, 1, 50, 130))))
            if n >= 16:
                for op in ("prf.key", "prf.keystr", "prf.keyarr"):
                    m = rng.randbytes(20)
                    d = craft.prf(k, n, m)
                    call(op, [k, d] + padded(k), n=n, s="f", m=m.hex(), d="d")
                    scan(s, d)
            scan(s, k, *padded(k))
        k = rng.randbytes(32)
        s.do("key.new", n=32, s="k", k=k.hex())
        call("prg.new", [k], s="g", key="k")
        for op in ("prg.raw", "prg.str", "prg.ret"):
            for off, ln in ((0, 10), (0, 64), (5, 59), (5, 60), (63, 2), (4096, 100), (8000, 1000)):
                call(op, [k], s="g", off=str(off), len=ln)
        for op in ("prg.sraw", "prg.sstr", "prg.sret"):
            for off, ln in ((0, 0), (0, 10), (64, 64), (5, 60), (63, 2), (4096, 100)):
                call(op, [k], s=s.key(32, k.hex()), off=str(off), len=ln)
        for n in (16, 32, 48, 64):
            for i in (0, 1, 3, 200):
                call("prg.key", [k, stream(k, n * i, n)], n=n, s="g", i=i, d="e")
                call("prg.keys", [k] + [stream(k, n * (i + j), n) for j in range(3)], n=n, s="g", count=3, i=i, d="v")
                call("prg.skey", [k, stream(k, n * i, n)], n=n, s=s.key(32, k.hex()), i=i, d="e")
                call("prg.skeys", [k] + [stream(k, n * (i + j), n) for j in range(3)], n=n, s=s.key(32, k.hex()), count=3, i=i, d="v")
        scan(s, k, stream(k, 0, 200))
        s.do("key.new", n=32, s="k", k=k.hex())
        call("cipher.new", [k], s="c", key="k")
        for ln in (1, 15, 16, 50, 64, 200, 5000):
            r = s.do("cipher.enc", s="c", m=s.bytes(ln))
            if r["e"] == "ok":
                ct = bytes.fromhex(r["out"])
                sub = hashlib.blake2b(b"", digest_size=32, key=k, salt=ct[:16], person=b"encryption_key\0\0").digest()
                scan(s, k, sub, op="stackscan")
                call("cipher.dec", [k, sub], s="c", ct=r["out"])
                for bit in (0, 8 * 20, 8 * len(ct) - 1):
                    call("cipher.dec", [k, sub], s="c", ct=flip(ct, bit).hex())
                call("cipher.decalias", [k, sub], s="c", ct=r["out"])
                scan(s, k, sub)
        wk = rng.randbytes(32)
        subs = [craft.prf(wk, 32, b"\1"), craft.prf(wk, 32, b"\2")]
        call("wrapper.new", [wk] + subs + padded(wk), s="w", key=s.key(32, wk.hex()))
        s.do("key.new", n=32, s="k", k=k.hex())
        s.do("prf.new", n=32, s="f", key="k")
        rk = rng.randbytes(32)
        h = (6, 12, 20)[item % 3]
        call("rc.new", [rk], n=32, s="r", key=s.key(32, rk.hex()), h=h)
        leaf = rng.randrange(1 << (h - 1))
        call("rc.eval", path_keys(rk, h, leaf), n=32, s="r", l=str(leaf))
        lo = rng.randrange(1 << (h - 2))
        hi = lo + rng.randrange(1, 1 << (h - 2))
        call("rc.range", path_keys(rk, h, lo), n=32, s="r", lo=str(lo), hi=str(min(hi, lo + 5)))
        mid = (lo + hi) // 2
        held = path_keys(rk, h, lo) + path_keys(rk, h, mid) + path_keys(rk, h, hi)
        call("rc.constrain", held, n=32, s="r", lo=str(lo), hi=str(hi), d="cr")
        for x in (lo, mid, hi, hi + 1):
            call("rc.ceval", held, n=32, s="cr", l=str(x))
        call("rc.crange", held, n=32, s="cr", lo=str(mid), hi=str(min(hi, mid + 5)))
        call("rc.cconstrain", held, n=32, s="cr", lo=str(lo), hi=str(mid), d="cr3")
        call("rc.cmove", held, n=32, s="cr3", d="cr4")
        for o, f, secrets in (("c", {"t": "cipher", "ty": "cipher", "n": 32}, [k]), ("g", {"t": "prg", "ty": "prg", "n": 32}, [k]),
                              ("f", {"t": "prf", "ty": "prf32", "n": 32}, [k]), ("r", {"t": "rc", "ty": "rcprf32", "n": 32}, [rk]),
                              ("cr", {"t": "cr", "ty": "crcprf32", "n": 32}, held)):
            b = call("wrapper.wrap", secrets + [wk] + subs + padded(wk) + padded(subs[0]), s="w", o=o, **f)
            if b["e"] != "ok":
                continue
            blob = bytes.fromhex(b["out"])
            call("wrapper.unwrap", secrets + [wk] + subs + padded(wk) + padded(subs[0]), s="w", blob=b["out"], d="u", **f)
            for bit in (0, 8 * 20, 8 * len(blob) - 1):
                call("wrapper.unwrap", secrets + [wk] + subs + padded(subs[0]), s="w", blob=flip(blob, bit).hex(), d="u2", **f)
            scan(s, *secrets, wk, *subs)
        call("reset", held + [k, wk])
    split(ctx, "stack", list(range(ctx.size(4, 30))), 1, stack, memory=True)

    def failing(s, item):
        """Calls that fail leave everything locked and nothing behind."""
        k = s.rng.randbytes(32)
        for op, n in (("mac", 32), ("prf", 32), ("prg", 0), ("cipher", 0), ("wrapper", 0)):
            s.do(op + ".new", s=op, n=n, h="b", key=s.key(32, k.hex()))
        s.do("prp.new", s="prp", key=s.key(48))
        s.do("rc.new", n=16, s="rc", key=s.key(32), h=6)
        s.do("rc.constrain", n=16, s="rc", lo="3", hi="17", d="cr")
        s.do("mac.nullin", h="b", n=32, s="mac", m="aa")
        s.do("mac.nullout", h="b", n=32, s="mac", m="aa")
        s.do("mac.rawlen", h="b", n=32, s="mac", m="aa", len=65)
        s.do("prf.null", n=32, s="prf")
        s.do("prg.null", s="prg", off="0", len=10)
        s.do("prg.snull", s=s.key(32), off="0", len=10)
        for m in ("", "00" * 27, "00" * 28, "00" * 29, "00" * 100):
            for op in ("cipher.dec", "cipher.decalias"):
                s.do(op, s="cipher", ct=m)
            for t, ty, n in (("prf", "prf32", 32), ("prp", "prp", 0), ("rc", "rcprf16", 16), ("cr", "crcprf16", 16),
                             ("cipher", "cipher", 0), ("prg", "prg", 0)):
                s.do("wrapper.unwrap", s="wrapper", blob=m, d="u", t=t, ty=ty, n=n)
        for pay in (b"", b"\0" * 31, b"\1" * 33, b"\x40" + b"\0" * 32, b"\xff" + b"\0" * 32, b"\5" + b"\xff" * 60, b"\0" * 200):
            for t, ty, n in (("prf", "prf32", 32), ("rc", "rcprf16", 16), ("cr", "crcprf16", 16), ("cipher", "cipher", 0), ("prg", "prg", 0)):
                s.do("wrapper.unwrap", s="wrapper", blob=craft.wrap(k, bytes(16), t, n, pay).hex(), d="u", t=t, ty=ty, n=n)
        s.do("rc.eval", n=16, s="rc", l="32")
        s.do("rc.range", n=16, s="rc", lo="9", hi="32")
        s.do("rc.range", n=16, s="rc", lo="9", hi="8")
        for stop in range(1, 15):
            s.do("rc.rangecb", n=16, s="rc", lo="2", hi="13", stop=stop)
        s.do("rc.constrain", n=16, s="rc", lo="0", hi="31", d="x")
        s.do("rc.constrain", n=16, s="rc", lo="5", hi="32", d="x")
        s.do("rc.ceval", n=16, s="cr", l="2")
        s.do("rc.crange", n=16, s="cr", lo="2", hi="20")
        s.do("rc.cconstrain", n=16, s="cr", lo="2", hi="5", d="x")
        s.do("rc.new", n=16, s="x", key=s.key(32), h=0)
        s.do("rc.new", n=16, s="x", key=s.key(32), h=65)
        s.do("rc.inner", n=16, d="x", key=s.key(32), h=5, sh=3, lo="0", hi="4")
        s.do("key.null", n=32)
        for op, key in (("mac", 32), ("prf", 32), ("wrapper", 32), ("prp", 48)):
            kk = s.key(key)
            s.do("key.erase", n=key, s=kk)
            s.do(op + ".new", s="x", n=32, h="b", key=kk)
        # everything still works
        s.do("mac.raw", h="b", n=32, s="mac", m="aa")
        s.do("prf.raw", n=32, s="prf", m="aa")
        s.do("prg.raw", s="prg", off="3", len=10)
        s.do("cipher.enc", s="cipher", m="aa")
        s.do("prp.encstr", s="prp", m="aabb")
        s.do("rc.eval", n=16, s="rc", l="31")
        s.do("rc.ceval", n=16, s="cr", l="17")
        s.do("reset")
    split(ctx, "failing", list(range(ctx.size(2, 10))), 1, failing, memory=True)
    for j in range(ctx.size(3, 12)):
        gen.replay_all(ctx, "memprog%d" % j, gen.simulate(ctx, FAMILIES[j % 2], SLOTS + ("f",), 110, 30, ctx.size(10, 60),
                                                          ctx.seed + 40 + j), per=ctx.size(5, 10), memory=True)


def K02(ctx):
    """Every ownership transition of the bounded client, and long programs."""
    ctx.model("MC_Mac")
    sets = [(["key"], ("a", "b"), 6, 2), (["key", "prf"], ("a", "b"), 5, 2), (["key", "mac"], ("a", "b"), 5, 2),
            (["key", "prg"], ("a", "b"), 5, 2), (["key", "cipher"], ("a", "b"), 5, 1), (["key", "prp"], ("a", "b"), 5, 1),
            (["key", "rc"], ("a", "b"), 4, 1), (["key", "rand", "prf", "mac"], ("a", "b"), 4, 2)]
    if ctx.quick:
        sets.append((["key", "wrapper", "prg"], ("a", "b", "c"), 4, 2))
    else:
        sets += [(["key", "wrapper", "prg"], ("a", "b", "c"), 5, 2), (["key", "rc"], ("a", "b"), 5, 1),
                 (["key", "wrapper", "prf"], ("a", "b", "c"), 5, 2), (["key", "wrapper", "cipher"], ("a", "b", "c"), 5, 2),
                 (["key", "prf", "mac", "prg"], ("a", "b", "c"), 4, 2), (["key", "prg"], ("a", "b", "c"), 6, 2),
                 (["key"], ("a", "b", "c"), 8, 3)]
    for fam, slots, ml, ms in sets:
        hs = gen.explore(ctx, fam, slots, ml, ms)
        if ctx.quick and len(hs) > 700:
            ctx.rng.shuffle(hs)
            hs = hs[:700]
        name = "own-" + "-".join(fam) + "-%d" % ml
        gen.replay_all(ctx, name, hs, per=ctx.size(180, 400), memory=True)
        if len(hs) > 300:
            hs = [h for i, h in enumerate(hs) if i % 3 == 0]
        gen.replay_all(ctx, "nolock-" + name, hs, variant="nolock", per=ctx.size(180, 400), memory="leaks")
    for v, mem in (("lock", True), ("nolock", "leaks")):
        gen.replay_all(ctx, "long-" + v, gen.simulate(ctx, ALL_FAMILIES, SLOTS, 120, 40, ctx.size(10, 80), ctx.seed + 60),
                       variant=v, per=ctx.size(5, 10), memory=mem)
    if not ctx.quick:
        gen.replay_all(ctx, "long-asan", gen.simulate(ctx, ALL_FAMILIES, SLOTS, 120, 40, 80, ctx.seed + 61), variant="asan",
                       per=10, memory=True)

    def sizes_too(s, n):
        """Keys of sizes that only derivations and contexts have: random walks over their owners."""
        for walk in range(ctx.size(4, 20)):
            have = []
            for sl in SLOTS[:3]:
                k = s.rng.randbytes(n)
                s.do("key.new", n=n, s=sl, k=k.hex())
                have.append(sl)
            for _ in range(12):
                a, b = s.rng.choice(have), s.rng.choice(have)
                op = s.rng.choice(("move", "assign", "assign", "erase", "probe", "new", "null", "rand"))
                if op == "move":
                    s.do("key.move", n=n, s=a, d=b if a != b else "e")
                    if a == b and "e" not in have:
                        have.append("e")
                elif op == "assign":
                    s.do("key.assign", n=n, s=a, d=b)
                elif op == "probe":
                    s.do("key.probe", n=n, s=a, m="aa")
                elif op == "new":
                    s.do("key.new", n=n, s=a, k=s.bytes(n))
                elif op == "null":
                    s.do("key.null", n=n)
                elif op == "rand":
                    s.do("key.rand", n=n, s=a)
                else:
                    s.do("key.erase", n=n, s=a)
            for sl in have:
                s.do("key.probe", n=n, s=sl, m="bb")
            s.do("reset")
    for v, mem in (("lock", True), ("nolock", "leaks")):
        split(ctx, "sizes-" + v, OTHER_KEYS, 5, sizes_too, variant=v, memory=mem)

    def selfs(s):
        """Assignment to itself, from empty, to empty; consumption twice."""
        for t, f in (("key", {"n": 32}), ("mac", {"h": "b", "n": 32}), ("prf", {"n": 32}), ("wrapper", {})):
            def mk(sl):
                if t == "key":
                    s.do("key.new", n=32, s=sl, k=s.bytes(32))
                else:
                    s.do(t + ".new", s=sl, key=s.key(32), **f)

            def probe(sl):
                if t == "key":
                    s.do("key.move", n=32, s=sl, d="pp")
                    s.do("key.probe", n=32, s="pp", m="aa")
                elif t == "mac":
                    s.do("mac.raw", s=sl, m="aa", **f)
                elif t == "prf":
                    s.do("prf.raw", s=sl, m="aa", **f)
                else:
                    s.do("prg.new", s="gg", key=s.key(32))
                    s.do("wrapper.wrap", s=sl, o="gg", t="prg", ty="prg", n=0)
            mk("a")
            s.do(t + ".assign", s="a", d="a", **f)
            probe("a")
            mk("a")
            mk("b")
            s.do(t + ".move", s="a", d="c", **f)
            s.do(t + ".assign", s="a", d="b", **f)          # an empty one is assigned
            probe("b")
            probe("c")
            mk("d")
            s.do(t + ".assign", s="d", d="a", **f)          # to an empty one
            probe("a")
            probe("d")
            s.do(t + ".assign", s="d", d="d", **f)
            s.do(t + ".assign", s="b", d="d", **f)          # both empty
            s.do("reset")
    for v, mem in (("lock", True), ("nolock", "leaks")):
        ctx.job("selfs-" + v, selfs, variant=v, memory=mem)

    def consumers(s):
        """Every call that takes a key, in every way it can be taken, leaves it empty."""
        def gone(sl, n):
            s.do("key.probe", n=n, s=sl, m="aa")

        for h in ("b", "s"):
            for n in (16, 32, 64, 128):
                s.do("key.new", n=n, s="k", k=s.bytes(n))
                s.do("mac.new", h=h, n=n, s="o", key="k")
                gone("k", n)
                s.do("mac.raw", h=h, n=n, s="o", m="00")
        for n in (1, 16, 32, 64, 65, 128, 264):
            s.do("key.new", n=32, s="k", k=s.bytes(32))
            s.do("prf.new", n=n, s="o", key="k")
            gone("k", 32)
            s.do("prf.raw", n=n, s="o", m="")
        for t in ("prg", "cipher", "wrapper"):
            s.do("key.new", n=32, s="k", k=s.bytes(32))
            s.do(t + ".new", s="o", key="k")
            gone("k", 32)
        s.do("key.new", n=48, s="k", k=s.bytes(48))
        s.do("prp.new", s="o", key="k")
        gone("k", 48)
        s.do("prp.encstr", s="o", m="00")
        for n in (16, 32):
            for h in (1, 2, 3, 33, 64):
                s.do("key.new", n=32, s="k", k=s.bytes(32))
                s.do("rc.new", n=n, h=h, s="o", key="k")
                gone("k", 32)
                s.do("rc.eval", n=n, s="o", l="0")
        for op in ("prg.sstr0", "prg.sret0", "prg.sstr", "prg.sret", "prg.sraw"):
            for ln in (0, 1, 31, 32, 64, 65, 200):
                for off in ("0",) if op.endswith("0") else ("0", "1", "63", "64", "128", "274877906880"):
                    s.do("key.new", n=32, s="k", k=s.bytes(32))
                    s.do(op, s="k", len=ln, off=off)
                    gone("k", 32)
        for n in (16, 32):
            for i in (0, 1, 7, 40, 65535):
                s.do("key.new", n=32, s="k", k=s.bytes(32))
                s.do("prg.skey", n=n, s="k", i=i, d="x")
                gone("k", 32)
                for cnt in (0, 1, 2, 33):
                    s.do("key.new", n=32, s="k", k=s.bytes(32))
                    s.do("prg.skeys", n=n, s="k", i=i, count=cnt, d="y")
                    gone("k", 32)

    def tdp_consumers(s):
        k = rsa()["a"]
        pk, sk = hexs(k["pub"]), hexs(k["priv"])
        s.do("tdp.pk", s="t", pem=pk, bad=False)
        s.do("tdp.isk", s="i", pem=sk, bad=False)
        s.do("tdp.pool", s="p", pem=pk, size=3, bad=False)
        for kd in ("t", "i", "p"):
            for v in ("key", "keyarr"):
                for seed in ("", "00", s.bytes(1), s.bytes(32), s.bytes(64), s.bytes(300)):
                    s.do("key.new", n=32, s="k", k=s.bytes(32))
                    s.do("tdp.gen", kind=kd, v=v, s=kd, key="k", m=seed)
                    s.do("key.probe", n=32, s="k", m="aa")
    for v, mem in (("lock", True), ("nolock", "leaks")):
        ctx.job("consumers-" + v, consumers, variant=v, memory=mem)
        ctx.job("tdp-consumers-" + v, tdp_consumers, variant=v, memory=mem)


def K03(ctx):
    """Faults at every allocation and every change of protection of every call."""
    W = {"prf": {"t": "prf", "ty": "prf64", "n": 64}, "prg": {"t": "prg", "ty": "prg", "n": 0},
         "cipher": {"t": "cipher", "ty": "cipher", "n": 0}, "prp": {"t": "prp", "ty": "prp", "n": 0},
         "rc": {"t": "rc", "ty": "rcprf16", "n": 16}, "cr": {"t": "cr", "ty": "crcprf16", "n": 16}}

    def setup(s, t):
        """An object of class t in slot t (and a wrapper with blobs where needed)."""
        if t == "key":
            s.do("key.new", n=32, s="key", k=s.bytes(32))
        elif t == "key48":
            s.do("key.new", n=48, s="key48", k=s.bytes(48))
        elif t in ("mac", "prf", "prg", "cipher", "wrapper"):
            s.do(t + ".new", s=t, n=64 if t == "prf" else 32, h="b", key=s.key(32))
        elif t == "prp":
            s.do("prp.new", s="prp", key=s.key(48))
        elif t == "rc":
            s.do("rc.new", n=16, s="rc", key=s.key(32), h=5)
        elif t == "cr":
            s.do("rc.new", n=16, s="rc0", key=s.key(32), h=5)
            s.do("rc.constrain", n=16, s="rc0", lo="3", hi="12", d="cr")

    def works(s, t):
        """Uses of an object, that must be as ever."""
        if t == "key":
            s.do("key.move", n=32, s="key", d="keyx")
            s.do("key.probe", n=32, s="keyx", m="aa")
        elif t == "mac":
            s.do("mac.raw", h="b", n=32, s="mac", m="aa")
        elif t == "prf":
            s.do("prf.raw", n=64, s="prf", m="aa")
        elif t == "prg":
            s.do("prg.raw", s="prg", off="3", len=40)
        elif t == "cipher":
            r = s.do("cipher.enc", s="cipher", m="aabb")
            if r["e"] == "ok":
                s.do("cipher.dec", s="cipher", ct=r["out"])
        elif t == "wrapper":
            s.do("prg.new", s="gw", key=s.key(32))
            r = s.do("wrapper.wrap", s="wrapper", o="gw", **W["prg"])
            if r["e"] == "ok":
                s.do("wrapper.unwrap", s="wrapper", blob=r["out"], d="gw2", **W["prg"])
                s.do("prg.raw", s="gw2", off="0", len=9)
        elif t == "prp":
            r = s.do("prp.encstr", s="prp", m="aabbcc")
            if r["e"] == "ok":
                s.do("prp.decstr", s="prp", m=r["out"])
        elif t == "rc":
            s.do("rc.eval", n=16, s="rc", l="5")
        elif t == "cr":
            s.do("rc.ceval", n=16, s="cr", l="5")
            s.do("rc.crange", n=16, s="cr", lo="3", hi="12")

    def c(op, **f):
        return lambda s, env: dict(op=op, **f)

    def unwrap(t, damaged=False):
        def f(s, env):
            b = bytes.fromhex(env["blob"])
            if damaged:
                b = flip(b, 8 * 20)
            return dict(op="wrapper.unwrap", s="wrapper", blob=b.hex(), d="new", **W[t])
        f.needs = t
        return f
    # (classes needed, command, classes that must work afterwards)
    calls = [
        ((), c("key.new", n=32, s="new", k="11" * 32), ()), ((), c("key.new", n=128, s="new", k="12" * 128), ()),
        ((), c("key.rand", n=32, s="new"), ()), ((), c("key.rand", n=48, s="new"), ()),
        ((), c("mac.rand", h="b", n=32, s="new"), ()), ((), c("prf.rand", n=32, s="new"), ()), ((), c("prp.rand", s="new"), ()),
        (("key",), c("key.probe", n=32, s="key", m="aa"), ()), (("key",), c("key.move", n=32, s="key", d="new"), ()),
        (("key",), c("mac.new", h="b", n=32, s="new", key="key"), ()), (("key",), c("prf.new", n=32, s="new", key="key"), ()),
        (("key",), c("prg.new", s="new", key="key"), ()), (("key",), c("cipher.new", s="new", key="key"), ()),
        (("key",), c("wrapper.new", s="new", key="key"), ()), (("key48",), c("prp.new", s="new", key="key48"), ()),
        (("key",), c("rc.new", n=16, s="new", key="key", h=5), ()), (("key",), c("rc.inner", n=16, d="new", key="key", h=5, sh=3, lo="4", hi="7"), ()),
        (("mac",), c("mac.raw", h="b", n=32, s="mac", m="aa"), ("mac",)), (("mac",), c("mac.str", h="b", n=32, s="mac", m="aa"), ("mac",)),
        (("mac",), c("mac.rawlen", h="b", n=32, s="mac", m="aa", len=20), ("mac",)),
        (("mac",), c("mac.rawlen", h="b", n=32, s="mac", m="aa", len=200), ("mac",)),
        (("prf",), c("prf.raw", n=64, s="prf", m="aa"), ("prf",)), (("prf",), c("prf.str", n=64, s="prf", m="aa"), ("prf",)),
        (("prf",), c("prf.key", n=64, s="prf", m="ab", d="new"), ("prf",)), (("prf",), c("prf.keystr", n=64, s="prf", m="ab", d="new"), ("prf",)),
        (("prg",), c("prg.raw", s="prg", off="7", len=100), ("prg",)), (("prg",), c("prg.str", s="prg", off="70", len=100), ("prg",)),
        (("prg",), c("prg.ret", s="prg", off="70", len=10), ("prg",)), (("prg",), c("prg.null", s="prg", off="70", len=10), ("prg",)),
        (("prg",), c("prg.key", n=32, s="prg", i=1, d="new"), ("prg",)), (("prg",), c("prg.key", n=16, s="prg", i=3, d="new"), ("prg",)),
        (("prg",), c("prg.keys", n=32, s="prg", count=3, i=1, d="v"), ("prg",)),
        (("prg",), c("prg.keys", n=16, s="prg", count=5, i=0, d="v"), ("prg",)),
        (("key",), c("prg.skey", n=32, s="key", i=1, d="new"), ()), (("key",), c("prg.skeys", n=32, s="key", count=3, i=1, d="v"), ()),
        (("key",), c("prg.sstr", s="key", off="3", len=40), ()), (("key",), c("prg.sraw", s="key", off="3", len=40), ()),
        (("cipher",), c("cipher.enc", s="cipher", m="aabbcc"), ("cipher",)), (("cipher",), c("cipher.dec", s="cipher", ct="00" * 40), ("cipher",)),
        (("prp",), c("prp.encstr", s="prp", m="aabb"), ("prp",)), (("prp",), c("prp.decret", s="prp", m="aabb"), ("prp",)),
        (("prp",), c("prp.enc32", s="prp", v="77"), ("prp",)), (("prp",), c("prp.dec64", s="prp", v="77"), ("prp",)),
        (("rc",), c("rc.eval", n=16, s="rc", l="9"), ("rc",)), (("rc",), c("rc.range", n=16, s="rc", lo="2", hi="9"), ("rc",)),
        (("rc",), c("rc.rangecb", n=16, s="rc", lo="2", hi="9", stop=4), ("rc",)),
        (("rc",), c("rc.constrain", n=16, s="rc", lo="2", hi="9", d="new"), ("rc",)),
        (("rc",), c("rc.constrain", n=16, s="rc", lo="7", hi="7", d="new"), ("rc",)),
        (("rc",), c("rc.constrain", n=16, s="rc", lo="1", hi="14", d="new"), ("rc",)),
        (("cr",), c("rc.ceval", n=16, s="cr", l="9"), ("cr",)), (("cr",), c("rc.crange", n=16, s="cr", lo="4", hi="9"), ("cr",)),
        (("cr",), c("rc.cconstrain", n=16, s="cr", lo="4", hi="9", d="new"), ("cr",)),
        (("cr",), c("rc.cconstrain", n=16, s="cr", lo="3", hi="12", d="new"), ("cr",)),
        (("cr",), c("rc.cmove", n=16, s="cr", d="new"), ()),
    ]
    calls += [(("wrapper", t), c("wrapper.wrap", s="wrapper", o=t, **W[t]), ("wrapper", t)) for t in W]
    calls += [(("wrapper", t), unwrap(t), ("wrapper", t)) for t in W]
    calls += [(("wrapper", t), unwrap(t, True), ("wrapper", t)) for t in ("prf", "cr")]
    kinds = [("fault_alloc", {}), ("fault_prot", {"err": "EACCES"}), ("fault_new", {})]
    if not ctx.quick:
        kinds.append(("fault_prot", {"err": "ENOMEM"}))

    def one(s, item):
        (needs, cmd, after), (kind, kw) = item
        for nth in range(1, 60):
            env = {}
            for t in needs:
                setup(s, t)
            if hasattr(cmd, "needs"):
                r = s.do("wrapper.wrap", s="wrapper", o=cmd.needs, **W[cmd.needs])
                if r["e"] != "ok":
                    return
                env["blob"] = r["out"]
            s.do("mac.new", h="b", n=64, s="by", key=s.key(64))     # a bystander
            s.do(kind, nth=nth, **kw)
            s.do(**cmd(s, env))
            hit = s.do("fault_off").get("hit", 0)
            s.do("mac.raw", h="b", n=64, s="by", m="cc")
            for t in after:
                works(s, t)
            # the same call again, without the fault
            if after and cmd(s, env)["op"] not in ("rc.cmove",):
                s.do(**cmd(s, env))
            s.do("reset")
            if not hit:
                break
    items = [(call, kind) for call in calls for kind in kinds]
    ctx.rng.shuffle(items)
    split(ctx, "faults", items, ctx.size(20, 12), one, memory=True)

    def nosys(s, item):
        """A system without memory protection: everything works as ever."""
        s.do("fault_nosys")
        gen.Replay(s, "nosys/%d" % item[0]).run(item[1])
        s.do("reset")
    hs = gen.simulate(ctx, ALL_FAMILIES, SLOTS, 80, 30, ctx.size(12, 80), ctx.seed + 80)
    split(ctx, "nosys", list(enumerate(hs)), ctx.size(6, 10), nosys, memory=True)


# ------------------------------------------------------------------ threads
def busy(s, what, rounds, keys):
    """One class, used over and over; the keys are those of the other threads too."""
    import threads as _t    # noqa: F401
    sh = s.shared
    if what == "hash":
        for i in range(rounds):
            s.do("hash", v=("raw", "str", "ret", "sha512")[i % 4], m=s.bytes(s.rng.randrange(300)))
            s.do("hash", v="retlen", m=s.bytes(20), len=s.rng.randrange(65))
    elif what == "mac":
        for n in (32, 64, 128):
            s.do("mac.new", h="b", n=n, s="m%d" % n, key=s.key(n, sh.randbytes(n).hex()))
            s.do("mac.new", h="s", n=n, s="x%d" % n, key=s.key(n, sh.randbytes(n).hex()))
        for i in range(rounds):
            n = (32, 64, 128)[i % 3]
            s.do(("mac.raw", "mac.str")[i % 2], h="b", n=n, s="m%d" % n, m=s.bytes(s.rng.randrange(200)))
            s.do("mac.raw", h="s", n=n, s="x%d" % n, m=s.bytes(s.rng.randrange(200)))
    elif what == "prf":
        for n in (20, 64, 192, 1000):
            s.do("prf.new", n=n, s="f%d" % n, key=s.key(32, sh.randbytes(32).hex()))
        for i in range(rounds):
            n = (20, 64, 192, 1000)[i % 4]
            s.do(("prf.raw", "prf.str")[i % 2], n=n, s="f%d" % n, m=s.bytes(s.rng.randrange(100)))
            if n in (20, 64):
                s.do("prf.key", n=n, s="f%d" % n, m=s.bytes(5), d="k")
                s.do("key.probe", n=n, s="k", m="aa")
    elif what == "prg":
        s.do("prg.new", s="g", key=s.key(32, sh.randbytes(32).hex()))
        k = sh.randbytes(32).hex()
        for i in range(rounds):
            s.do(("prg.raw", "prg.str", "prg.ret")[i % 3], s="g", off=str(s.rng.randrange(500)), len=s.rng.randrange(1, 300))
            s.do(("prg.sraw", "prg.sstr", "prg.sret")[i % 3], s=s.key(32, k), off=str(s.rng.randrange(500)), len=s.rng.randrange(1, 300))
            s.do("prg.keys", n=32, s="g", count=3, i=s.rng.randrange(9), d="v")
            s.do("key.probe", n=32, s="v1", m="aa")
            s.do("prg.key", n=16, s="g", i=s.rng.randrange(9), d="w")
            s.do("key.probe", n=16, s="w", m="aa")
    elif what == "cipher":
        k = sh.randbytes(32).hex()
        s.do("cipher.new", s="c", key=s.key(32, k))
        s.do("cipher.new", s="d", key=s.key(32, k))
        for i in range(rounds):
            r = s.do("cipher.enc", s="c", m=s.bytes(s.rng.randrange(1, 200)))
            s.do("cipher.dec", s="d", ct=r["out"])
            s.do("cipher.dec", s="d", ct=r["out"] + "~%d" % s.rng.randrange(2000))
            if i % 5 == 0:
                r = s.do("cipher.encarr", s="c", m=s.bytes(64))
                s.do("cipher.decarr", s="d", ct=r["out"])
    elif what == "wrapper":
        s.do("wrapper.new", s="w", key=s.key(32, sh.randbytes(32).hex()))
        os_ = [make(s, t, 16, 6) for t in ("cipher", "prf", "prg", "prp", "rc", "cr")]
        for i in range(rounds):
            o, f = os_[i % len(os_)]
            r = s.do("wrapper.wrap", s="w", o=o, **f)
            s.do("wrapper.unwrap", s="w", blob=r["out"], d="u%d" % (i % 6), **f)
            s.do("wrapper.unwrap", s="w", blob=r["out"] + "~%d" % s.rng.randrange(2000), d="no", **f)
            if f["t"] not in ("rc", "cr"):
                use(s, o, "u%d" % (i % 6), f["t"], f["n"], 6)
    elif what == "prp":
        k = sh.randbytes(48).hex()
        s.do("prp.new", s="p", key=s.key(48, k))
        s.do("prp.new", s="q", key=s.key(48, k))
        for i in range(rounds):
            m = sh.randbytes((1, 4, 16, 33, 100)[i % 5]).hex()
            r = s.do("prp.encstr", s="p", m=m)
            s.do("prp.decret", s="q", m=r["out"])
            s.do("prp.enc32", s="p", v=str(sh.getrandbits(32)))
            s.do("prp.dec64", s="p", v=str(sh.getrandbits(64)))
    elif what == "rc":
        h = 12
        s.do("rc.new", n=16, s="r", key=s.key(32, sh.randbytes(32).hex()), h=h)
        for i in range(rounds):
            a = s.rng.randrange(1, 1 << 10)
            b = a + s.rng.randrange(1 << 9)
            s.do("rc.eval", n=16, s="r", l=str(s.rng.randrange(1 << 11)))
            s.do("rc.constrain", n=16, s="r", lo=str(a), hi=str(b), d="c")
            s.do("rc.ceval", n=16, s="c", l=str(s.rng.randint(a, b)))
            s.do("rc.ceval", n=16, s="c", l=str(b + 1))
            s.do("rc.range", n=16, s="r", lo=str(a), hi=str(a + 5))
            s.do("rc.cconstrain", n=16, s="c", lo=str(a), hi=str((a + b) // 2), d="e")
            s.do("rc.crange", n=16, s="e", lo=str(a), hi=str(min(a + 3, (a + b) // 2)))
    elif what == "set":
        s.do("set.new", s="a")
        s.do("set.new", s="b")
        for i in range(rounds):
            x = sh.randbytes(8).hex()
            s.do("set.add", s="a", x=x)
            s.do("set.vec", s="c", xs=[x, s.bytes(3)])
            s.do("set.addset", s="b", a="c")
            if i % 3 == 2:
                s.do("set.rem", s="a", x=x)
            s.do("set.bytes", s="d", m=s.bytes(32))
    elif what == "tdp":
        k = rsa()[keys]
        n = int_of(k["n"])
        s.do("tdp.pk", s="t", pem=hexs(k["pub"]), bad=False)
        s.do("tdp.isk", s="i", pem=hexs(k["priv"]), bad=False)
        s.do("tdp.pool", s="p", pem=hexs(k["pub"]), size=4, bad=False)
        s.do("prf.new", n=264, s="f", key=s.key(32, sh.randbytes(32).hex()))
        for i in range(max(2, rounds // 8)):
            m = be(s.rng.randrange(n))
            s.do("tdp.eval", kind="t", v="ret", s="t", m=m)
            r = s.do("tdp.peval", v="ret", s="p", m=m, k=1 + i % 4)
            s.do("tdp.imult", v="ret", s="i", m=r["out"], k=str(1 + i % 4))
            s.do("tdp.invert", v="str", s="i", m=m)
            s.do("tdp.sample", kind="t", v="arr", s="t")
            s.do("tdp.gen", kind="i", v="prf", s="i", key="f", m=s.bytes(5))
            s.do("tdp.pk", s="t2", pem=hexs(k["pub"]), bad=False)
            s.do("tdp.pub", kind="t", v="-", s="t2")
            s.do("tdp.priv", s="i")
            s.do("tdp.copy", s="t", d="t3")
            s.do("tdp.eval", kind="t", v="str", s="t3", m=m)
    elif what == "rsagen":
        s.do("tdp.irand", s="i")
        r = s.do("tdp.sample", kind="i", v="arr", s="i")
        s.do("tdp.invert", v="ret", s="i", m=r["out"])
        s.do("tdp.pub", kind="i", v="-", s="i")
        s.do("tdp.priv", s="i")
    elif what == "alike":
        # inputs like those just given to another object, by this thread or another
        k = sh.randbytes(32)
        for x, kk in (("1", k), ("2", flip(k, 255))):
            s.do("mac.new", h="b", n=32, s="m" + x, key=s.key(32, kk.hex()))
            s.do("prf.new", n=32, s="f" + x, key=s.key(32, kk.hex()))
            s.do("prf.new", n=192, s="l" + x, key=s.key(32, kk.hex()))
            s.do("prg.new", s="g" + x, key=s.key(32, kk.hex()))
            s.do("prp.new", s="p" + x, key=s.key(48, (kk + bytes(16)).hex()))
            s.do("set.new", s="a" + x)
        ms = deep.related(sh, 20) + deep.related(sh, 600)
        for i in range(rounds):
            m = ms[(i // 2) % len(ms)].hex()
            for x in "12":
                s.do("mac.raw", h="b", n=32, s="m" + x, m=m)
                s.do("prf.raw", n=32, s="f" + x, m=m)
                s.do("prf.str", n=192, s="l" + x, m=m)
                s.do("prg.raw", s="g" + x, off=str(64 * (i % 3)), len=64)
                s.do("prp.encstr", s="p" + x, m=m)
                s.do("set.add", s="a" + x, x=m)
            s.do("hash", v="ret", m=m)
    elif what == "random":
        for i in range(rounds):
            s.do(("random.bytes", "random.str", "random.arr")[i % 3], len=32)
            s.do("key.rand", n=32, s="k")
            s.do("key.probe", n=32, s="k", m="aa")
            s.do("prf.rand", n=32, s="f")
            s.do("prf.raw", n=32, s="f", m="aa")
            s.do("prp.rand", s="p")
            s.do("strstrn", h=s.bytes(30), x=s.bytes(1))
            s.do("cipher.lens", len="77")


def burst(s, what, n):
    """The same call over and over, while other threads make others."""
    sh = s.shared
    k = sh.randbytes(32).hex()
    if what == "hash":
        for v in ("raw", "ret", "sha512", "stralias"):
            s.do("hash", v=v, m=s.bytes(100 + s.rng.randrange(100)), rep=n)
        for v in ("rawlen", "strlen", "retlen"):
            s.do("hash", v=v, m=s.bytes(100), len=33, rep=n)
    elif what == "mac":
        for h in "bs":
            s.do("mac.new", h=h, n=32, s="m", key=s.key(32, k))
            for op in ("mac.raw", "mac.str"):
                s.do(op, h=h, n=32, s="m", m=s.bytes(50), rep=n)
            s.do("mac.rawlen", h=h, n=32, s="m", m=s.bytes(50), len=20, rep=n)
    elif what == "prf":
        for z in (20, 64, 192, 1000):
            s.do("prf.new", n=z, s="f", key=s.key(32, k))
            for op in ("prf.raw", "prf.str"):
                s.do(op, n=z, s="f", m=s.bytes(30), rep=n if z < 1000 else n // 4)
    elif what == "prg":
        s.do("prg.new", s="g", key=s.key(32, k))
        for op in ("prg.raw", "prg.str", "prg.ret"):
            s.do(op, s="g", off=str(s.rng.randrange(300)), len=s.rng.randrange(100, 300), rep=n)
            s.do(op, s="g", off="64", len=64, rep=n)
    elif what == "cipher":
        s.do("cipher.new", s="c", key=s.key(32, k))
        r = s.do("cipher.enc", s="c", m=s.bytes(70))
        s.do("cipher.dec", s="c", ct=r["out"], rep=n)
        s.do("cipher.decalias", s="c", ct=r["out"], rep=n)
        s.do("cipher.dec", s="c", ct=r["out"] + "~77", rep=n)
        r = s.do("cipher.encarr", s="c", m=s.bytes(64))
        s.do("cipher.decarr", s="c", ct=r["out"], rep=n)
    elif what == "wrapper":
        s.do("wrapper.new", s="w", key=s.key(32, k))
        for t in ("cipher", "prf", "prp", "cr"):
            o, f = make(s, t, 16, 6)
            r = s.do("wrapper.wrap", s="w", o=o, **f)
            s.do("wrapper.unwrap", s="w", blob=r["out"], d="u", rep=n // 4, **f)
            s.do("wrapper.unwrap", s="w", blob=r["out"] + "~99", d="no", rep=n // 4, **f)
            if t == "prf":
                s.do("prf.raw", n=16, s="u", m="aa", rep=n)
    elif what == "prp":
        s.do("prp.new", s="p", key=s.key(48, sh.randbytes(48).hex()))
        for z in (1, 16, 40, 100):
            m = sh.randbytes(z).hex()
            s.do("prp.encstr", s="p", m=m, rep=n)
            s.do("prp.decret", s="p", m=m, rep=n)
        s.do("prp.enc32", s="p", v="5", rep=n)
        s.do("prp.dec64", s="p", v="5", rep=n)
    elif what == "rc":
        s.do("rc.new", n=16, s="r", key=s.key(32, k), h=10)
        s.do("rc.constrain", n=16, s="r", lo="5", hi="300", d="c")
        s.do("rc.eval", n=16, s="r", l=str(s.rng.randrange(512)), rep=n // 8)
        s.do("rc.ceval", n=16, s="c", l=str(s.rng.randint(5, 300)), rep=n // 8)
        s.do("rc.range", n=16, s="r", lo="3", hi="9", rep=n // 8)
    elif what == "set":
        s.do("set.vec", s="a", xs=[s.bytes(5), s.bytes(6)])
        s.do("set.vec", s="b", xs=[s.bytes(5), s.bytes(6)], rep=n // 4)
        s.do("set.copy", s="c", a="a", rep=n)
        s.do("set.eq", s="a", a="b", same=False, rep=n)
        s.do("set.print", s="a", rep=n)
        s.do("set.bytes", s="d", m=s.bytes(32), rep=n // 4)
    elif what == "tdp":
        key = rsa()["a"]
        s.do("tdp.pk", s="t", pem=hexs(key["pub"]), bad=False)
        s.do("tdp.pool", s="p", pem=hexs(key["pub"]), size=3, bad=False)
        s.do("tdp.isk", s="i", pem=hexs(key["priv"]), bad=False)
        s.do("prf.new", n=264, s="f", key=s.key(32, k))
        m = be(s.rng.randrange(int_of(key["n"])))
        s.do("tdp.eval", kind="t", v="ret", s="t", m=m, rep=n // 10)
        s.do("tdp.peval", v="ret", s="p", m=m, k=2, rep=n // 20)
        s.do("tdp.invert", v="ret", s="i", m=m, rep=max(2, n // 200))
        s.do("tdp.imult", v="ret", s="i", m=m, k="3", rep=max(2, n // 200))
        s.do("tdp.gen", kind="t", v="prf", s="t", key="f", m=s.bytes(9), rep=n // 10)
        s.do("tdp.pub", kind="t", v="-", s="t", rep=n // 10)
        s.do("tdp.priv", s="i", rep=n // 10)
        s.do("tdp.pk", s="t2", pem=hexs(key["pub"]), bad=False, rep=n // 10)
    elif what == "random":
        s.do("strstrn", h=s.bytes(60), x=s.bytes(1), rep=n)
        for z in (16, 32, 64):
            s.do("key.new", n=z, s="k", k=s.bytes(z), rep=n)
        s.do("rc.maxleaf", h=20, rep=n)
        s.do("cipher.lens", len="90", rep=n)


CLASSES = ("hash", "mac", "prf", "prg", "cipher", "wrapper", "prp", "rc", "set", "tdp", "random")


def C01(ctx):
    import threads
    progs = gen.simulate(ctx, ALL_FAMILIES, SLOTS, 70, 20, ctx.size(16, 80), ctx.seed + 90)
    for v in ("tsan", "lock", "nolock") if not ctx.quick else ("tsan", "lock"):
        many = ctx.size(12, 40) * (1 if v == "tsan" else 4)
        # the same class in all the threads, separate objects, shared key values
        for what in CLASSES:
            for rep in range(ctx.size(1, 4)):
                k = ("a", "b")[rep % 2]
                threads.schedule(ctx, "same-%s-%s-%d" % (what, v, rep),
                                 [lambda s, w=what: busy(s, w, many // (3 if w in ("wrapper", "set") else 1), k)] * ctx.size(4, 8), variant=v)
        if v != "tsan":
            for what in CLASSES:
                threads.schedule(ctx, "burst-%s-%s" % (what, v),
                                 [lambda s, w=what: burst(s, w, ctx.size(400, 4000))] * 8, variant=v)
        threads.schedule(ctx, "alike-" + v, [lambda s: busy(s, "alike", ctx.size(90, 200), "a")] * 4, variant=v)
        threads.schedule(ctx, "rsagen-" + v, [lambda s: busy(s, "rsagen", 1, "a")] * 3, variant=v)
        # every class against every other
        for rep in range(ctx.size(1, 4)):
            threads.schedule(ctx, "mixed-%s-%d" % (v, rep), [lambda s, w=w: busy(s, w, many, "b") for w in CLASSES], variant=v)
        # programs of the specification
        for j in range(0, len(progs), 16):
            def prog(s, j=j):
                for x in range(2):
                    s.program(progs[(j + 2 * s.thread + x) % len(progs)], "%d-%d" % (j, x))
            threads.schedule(ctx, "programs-%s-%d" % (v, j), [prog] * 8, variant=v)


# ------------------------------------------------------ other configurations
class Elsewhere:
    """A view of a check in which every run happens in another build."""

    def __init__(self, ctx, variant, share=1.0, always=()):
        self._ctx, self._variant, self._share, self._always = ctx, variant, share, always

    def __getattr__(self, k):
        return getattr(self._ctx, k)

    def model(self, *a, **kw):
        pass

    def job(self, name, fn, variant="lock", memory=False, **kw):
        c = self._ctx
        if name.startswith("big-"):
            return
        if c.rng.random() >= self._share and not any(name.startswith(x) for x in self._always):
            return
        names = {j.name for j in c.jobs}
        name = "%s/%s" % (name, self._variant)
        while name in names:
            name += "'"
        c.job(name, fn, variant=self._variant, **kw)


EVERYTHING = ("H01", "F01", "G01", "G02", "E01", "W01", "W02", "R01", "R02", "S01", "S02", "P01", "U01", "T01", "T02")


def everything(ctx, variant, share, always=()):
    for p in EVERYTHING:
        globals()[p](Elsewhere(ctx, variant, share, always))


def stored_elsewhere(s):
    """What was stored by the version this check was made with is still understood."""
    g = json.load(open(os.path.join(DATA, "golden.json")))
    prp_golden(s)
    for e in g["prpctx"]:
        s.do("wrapper.new", s="w", key=s.key(32, e["wrapper"]))
        s.do("prp.new", s="p", key=s.key(48, e["key"]))
        s.do("wrapper.wrap", s="w", ty="prp", t="prp", n=32, o="p")       # the context of this key
        s.do("wrapper.unwrap", s="w", ty="prp", t="prp", n=32, blob=e["blob"], d="q")
        for x in g["prp"]:
            if x["key"] == e["key"]:
                s.do("prp.encstr", s="q", m=x["x"])
                s.do("prp.decstr", s="q", m=x["y"])
    s.do("reset")


def X01(ctx):
    for v in ("nolock", "release") + (() if ctx.quick else ("clang",)):
        everything(ctx, v, ctx.size(0.15, 1.0))
        ctx.job("stored-" + v, stored_elsewhere, variant=v)
        gen.replay_all(ctx, "programs-" + v, gen.simulate(ctx, ALL_FAMILIES, SLOTS, 100, 30, ctx.size(10, 80), ctx.seed + 110),
                       variant=v, per=ctx.size(5, 10))


LIB_FAMILIES = [*ALL_FAMILIES, "lib", "set"]


def lib_tour(s, again):
    """Every part of the library, the objects of before and new ones, after each initialisation."""
    keys = rsa()
    kn = s.rng.choice("abc")
    n = int_of(keys[kn]["n"])
    x = be(s.rng.randrange(n))
    m = [s.bytes(c) for c in (1, 40, 200)]
    s.do("mac.new", h="sha512", n=64, s="m", key=s.key(64))
    s.do("prf.new", n=48, s="f", key=s.key(32))
    s.do("prg.new", s="g", key=s.key(32))
    s.do("cipher.new", s="c", key=s.key(32))
    s.do("wrapper.new", s="w", key=s.key(32))
    s.do("prp.new", s="p", key=s.key(48))
    s.do("rc.new", n=16, s="r", key=s.key(32), h=9)
    s.do("rc.constrain", n=16, s="r", lo="3", hi="77", d="cr")
    s.do("set.vec", s="e", xs=[s.bytes(20), s.bytes(9)])
    s.do("tdp.isk", s="i", pem=hexs(keys[kn]["priv"]), bad=False)
    s.do("tdp.pk", s="t", pem=hexs(keys[kn]["pub"]), bad=False)
    s.do("tdp.pool", s="tp", pem=hexs(keys[kn]["pub"]), size=4, bad=False)
    cts = [s.do("cipher.enc", s="c", m=y)["out"] for y in m]
    blob = s.do("wrapper.wrap", s="w", ty="prp", t="prp", n=32, o="p")["out"]
    for op in again:
        s.do(op)
        for y in m:
            s.do("hash", v="raw", m=y)
            s.do("mac.str", h="sha512", n=64, s="m", m=y)
            s.do("prf.str", n=48, s="f", m=y)
            cts.append(s.do("cipher.enc", s="c", m=y)["out"])
        for c in s.rng.sample(cts, 3) + cts[:2]:
            s.do("cipher.dec", s="c", ct=c)
        s.do("prg.ret", s="g", off="70", len=90)
        s.do("prp.avail")
        s.do("prp.encstr", s="p", m=m[1])
        s.do("prp.enc64", s="p", v=str(s.rng.getrandbits(64)))
        s.do("prp.new", s="p2", key=s.key(48))
        s.do("prp.encstr", s="p2", m=m[2])
        s.do("prp.rand", s="p3")
        s.do("wrapper.unwrap", s="w", ty="prp", t="prp", n=32, blob=blob, d="q")
        s.do("prp.encstr", s="q", m=m[1])
        s.do("rc.eval", n=16, s="r", l="77")
        s.do("rc.ceval", n=16, s="cr", l="40")
        s.do("set.add", s="e", x=s.bytes(12))
        s.do("set.rem", s="e", x=s.bytes(12))
        s.do("tdp.eval", kind="t", v="ret", s="t", m=x)
        s.do("tdp.invert", v="ret", s="i", m=x)
        s.do("tdp.imult", v="ret", s="i", m=x, k="3")
        s.do("tdp.peval", v="ret", s="tp", m=x, k=3)
        s.do("tdp.sample", kind="t", v="str", s="t")
        s.do("random.bytes", len=40)
        s.do("random.str", len=17)
        s.do("strstrn", h=m[1], x=m[1][10:30])
    s.do("reset")


def L01(ctx):
    for v in ("lock", "nolock") + (() if ctx.quick else ("release", "asan")):
        def tours(s, k):
            lib_tour(s, [s.rng.choice(("lib.again", "lib.twice")) for _ in range(ctx.size(6, 20))] if k > 1
                     else ["lib.again", "lib.twice"][k:k + 1] * 4)
        split(ctx, "tours-" + v, list(range(ctx.size(4, 12))), 4, tours, variant=v, fresh=True)
        gen.replay_all(ctx, "programs-" + v, gen.simulate(ctx, LIB_FAMILIES, SLOTS, 100, 30, ctx.size(10, 60), ctx.seed + 130),
                       variant=v, per=ctx.size(5, 10))


def M01(ctx):
    # uninitialised storage: the same runs, a share of them, in valgrind's memcheck
    everything(ctx, "memcheck", ctx.size(0.05, 0.3), ("crafted", "elements", "nested", "golden", "by-hand", "ints", "encodings"))
    gen.replay_all(ctx, "programs", gen.simulate(ctx, ALL_FAMILIES, SLOTS, 100, 30, ctx.size(6, 40), ctx.seed + 121),
                   variant="memcheck", per=3)
    everything(ctx, "asan", ctx.size(0.3, 1.0), ("crafted", "cutoff", "almost", "tamper", "huge", "like"))
    gen.replay_all(ctx, "programs", gen.simulate(ctx, ALL_FAMILIES, SLOTS, 100, 30, ctx.size(10, 80), ctx.seed + 120),
                   variant="asan", per=ctx.size(5, 10))
