"""Edwards25519 encodings for the set-hash scenarios."""
P = 2 ** 255 - 19
L = 2 ** 252 + 27742317777372353535851937790883648493
D = -121665 * pow(121666, -1, P) % P
I = pow(2, (P - 1) // 4, P)


def recover(y, sign):
    x2 = (y * y - 1) * pow(D * y * y + 1, -1, P) % P
    x = pow(x2, (P + 3) // 8, P)
    if (x * x - x2) % P:
        x = x * I % P
    if (x * x - x2) % P:
        return None
    return x if x % 2 == sign else P - x


def add(a, b):
    (x1, y1), (x2, y2) = a, b
    t = D * x1 * x2 * y1 * y2 % P
    return ((x1 * y2 + x2 * y1) * pow(1 + t, -1, P) % P, (y1 * y2 + x1 * x2) * pow(1 - t, -1, P) % P)


def mul(n, a):
    r = (0, 1)
    while n:
        if n & 1:
            r = add(r, a)
        a = add(a, a)
        n >>= 1
    return r


def enc(p):
    return (p[1] | ((p[0] & 1) << 255)).to_bytes(32, "little")


def dec(b):
    v = int.from_bytes(b, "little")
    y = v & ((1 << 255) - 1)
    x = recover(y % P, v >> 255)
    return None if x is None else (x, y % P)


def torsion():
    """The eight points of order dividing 8."""
    y = 2
    while True:
        x = recover(y, 0)
        if x is not None:
            t = mul(L, (x, y))
            if mul(4, t) != (0, 1):
                return [mul(i, t) for i in range(8)]
        y += 1


def encodings():
    """Encodings that are not elements of the prime-order group (plus some that are)."""
    out = []
    T = torsion()
    for t in T:
        out.append(enc(t))
        out.append((int.from_bytes(enc(t), "little") ^ (1 << 255)).to_bytes(32, "little"))
    B = (recover(4 * pow(5, -1, P) % P, 0), 4 * pow(5, -1, P) % P)
    for k in (1, 2, 3, 8, L - 1, L // 2, 12345678901234567890):
        q = mul(k, B)
        out.append(enc(q))
        for t in T[1:]:
            out.append(enc(add(q, t)))          # on the curve, not in the group
    for y in list(range(0, 20)) + [P - 1, P - 2, (P - 1) // 2]:
        for s in (0, 1):
            out.append((y | (s << 255)).to_bytes(32, "little"))
            if y + P < 1 << 255:
                out.append((y + P | (s << 255)).to_bytes(32, "little"))   # not reduced
    out += [b"\xff" * 32, b"\0" * 31 + b"\x80", b"\x01" + b"\0" * 30 + b"\x80", b"\0" * 31 + b"\x01", b"\xff" * 31 + b"\x7f"]
    return out
