"""Makes wrapped objects and ciphertexts from chosen payloads (the driver has
no such operation: only a holder of the key can make them)."""
import base64
import hashlib
import struct


def hmac_b2b(k, m):
    k = k.ljust(128, b"\0")
    i = hashlib.blake2b(bytes(x ^ 0x36 for x in k) + m).digest()
    return hashlib.blake2b(bytes(x ^ 0x5c for x in k) + i).digest()


def prf(k, n, m):
    if n <= 64:
        return hmac_b2b(k, m)[:n]
    out = b""
    i = 0
    while len(out) < n:
        out += hmac_b2b(k, m + bytes([i]))
        i += 1
    return out[:n]


def _rot(x, n):
    return ((x << n) | (x >> (32 - n))) & 0xffffffff


def chacha_block(key, counter, nonce):
    st = list(struct.unpack("<4I", b"expand 32-byte k") + struct.unpack("<8I", key)
              + (counter,) + struct.unpack("<3I", nonce))
    w = st[:]
    for _ in range(10):
        for a, b, c, d in ((0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15),
                           (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)):
            w[a] = (w[a] + w[b]) & 0xffffffff
            w[d] = _rot(w[d] ^ w[a], 16)
            w[c] = (w[c] + w[d]) & 0xffffffff
            w[b] = _rot(w[b] ^ w[c], 12)
            w[a] = (w[a] + w[b]) & 0xffffffff
            w[d] = _rot(w[d] ^ w[a], 8)
            w[c] = (w[c] + w[d]) & 0xffffffff
            w[b] = _rot(w[b] ^ w[c], 7)
    return struct.pack("<16I", *((x + y) & 0xffffffff for x, y in zip(w, st)))


def chacha_xor(key, nonce, data):
    out = b""
    for i in range(0, len(data), 64):
        ks = chacha_block(key, i // 64, nonce)
        out += bytes(a ^ b for a, b in zip(data[i:i + 64], ks))
    return out


TYPE = {"cipher": 1, "prf": 2, "prg": 3, "prp": 4, "rc": 5, "cr": 6, "tinv": 7}


def wrap(key, iv, t, n, payload, tag=None, header=None, tagged=None):
    """The wrapped form; with another tag, another authenticated header, or a
    tag of something else than the payload."""
    if header is None:
        header = bytes([TYPE[t]]) + (struct.pack(">H", n) if t in ("prf", "rc", "cr") else b"")
    good = prf(prf(key, 32, b"\x01"), 12, (iv + header + payload) if tagged is None else tagged)
    tag = good if tag is None else tag(good)
    return iv + chacha_xor(prf(key, 32, b"\x02"), tag, payload) + tag


def elem(sh, lo, hi, v):
    return bytes([sh]) + struct.pack("<QQ", lo, hi) + v


def cr(h, elems, count=None):
    return bytes([h]) + struct.pack("<I", len(elems) if count is None else count) + b"".join(elems)


# RSA keys: public in SubjectPublicKeyInfo, private in PKCS#1, both PEM, as the library writes them
def der_len(n):
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([0x80 | len(b)]) + b


def der_int(n):
    b = n.to_bytes(n.bit_length() // 8 + 1, "big")
    return b"\x02" + der_len(len(b)) + b


def seq(*xs):
    b = b"".join(xs)
    return b"\x30" + der_len(len(b)) + b


def pem(name, der):
    b = base64.b64encode(der).decode()
    ls = [b[i:i + 64] for i in range(0, len(b), 64)]
    return "-----BEGIN %s-----\n%s\n-----END %s-----\n" % (name, "\n".join(ls), name)


def public(n, e):
    rsa = seq(der_int(n), der_int(e))
    alg = seq(bytes.fromhex("06092a864886f70d010101"), b"\x05\x00")
    bits = b"\x03" + der_len(len(rsa) + 1) + b"\x00" + rsa
    return pem("PUBLIC KEY", seq(alg, bits))


def private_ints(n, e, d, p, q):
    return [0, n, e, d, p, q, d % (p - 1), d % (q - 1), pow(q, -1, p)]


def private_of(ints):
    return pem("RSA PRIVATE KEY", seq(*(der_int(x) for x in ints)))


def private(n, e, d, p, q):
    return private_of(private_ints(n, e, d, p, q))
