"""Scenarios every object goes through: neighbouring inputs one after the
other (an answer depends on all of the input and on nothing before it), many
calls on one object, and very long inputs."""

NEIGHBOURS = (0, 1, 2, 3, 7, 8, 15, 16, 23, 31, 32, 33, 47, 63, 64, 65, 95, 127, 128, 129, 191, 255, 256, 257, 511, 512,
              1023, 1024, 4095, 4096)
HUGE = (65537, 131073, (1 << 18) + 5, 1 << 20, (1 << 20) + 1, (1 << 21) + 77, (1 << 22) + 100)


def related(rng, n):
    """Messages like one of n bytes, and that one again between them."""
    b = rng.randbytes(n)
    out = [b]
    spots = sorted({i for i in NEIGHBOURS if i < n} | {n - 1 - i for i in (0, 1, 7, 8, 15, 16, 31, 32, 63, 64) if n > i}
                   | {n // 2, n // 3} if n else ())
    for j, i in enumerate(spots):
        x = bytearray(b)
        x[i] ^= 1 << rng.randrange(8)
        out.append(bytes(x))
        if j % 5 == 4:
            out.append(b)
    out += [b + b"\0", b, b + b"\1", b"\0" + b, b + b]
    if n > 1:
        out += [b[:-1], b[1:], b[::-1], b[n // 2:] + b[:n // 2], b]
    if n > 9:
        out += [b[:8] + rng.randbytes(n - 8), rng.randbytes(n - 8) + b[-8:], b[:n // 2] + rng.randbytes(n - n // 2),
                rng.randbytes(n - n // 2) + b[-(n // 2):], b]
    # numbers in a row, the way counters and identifiers come
    if n >= 4:
        for i in (0, 1, 2, 255, 256, 257, 65535, 65536, 1 << 24):
            out.append(b[:-4] + i.to_bytes(4, "big"))
            out.append(i.to_bytes(4, "little") + b[4:])
    return out


def rows(rng, count, lengths):
    """Many messages, one after the other, some of them again and again."""
    seen = []
    for i in range(count):
        if seen and rng.random() < 0.3:
            yield rng.choice(seen)
        else:
            m = rng.randbytes(rng.choice(lengths))
            if len(seen) < 12:
                seen.append(m)
            yield m
