"""Makes data/rsa.json: RSA keys (public in SubjectPublicKeyInfo, private in
PKCS#1, both PEM, as the library writes them).  Deterministic."""
import json
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from craft import private, public   # noqa: E402

rng = random.Random("crypto-tk rsa keys")


def prime(bits, e):
    while True:
        p = rng.getrandbits(bits) | (3 << (bits - 2)) | 1
        if any(p % q == 0 for q in (3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67)):
            continue
        if (p - 1) % e == 0 or __import__("math").gcd(p - 1, e) != 1:
            continue
        d, s = p - 1, 0
        while d % 2 == 0:
            d, s = d // 2, s + 1
        ok = True
        for _ in range(20):
            a = rng.randrange(2, p - 1)
            x = pow(a, d, p)
            if x in (1, p - 1):
                continue
            for _ in range(s - 1):
                x = x * x % p
                if x == p - 1:
                    break
            else:
                ok = False
                break
        if ok:
            return p


def key(bits, e):
    while True:
        p, q = prime(bits // 2, e), prime(bits // 2, e)
        if p < q:
            p, q = q, p
        n = p * q
        if p != q and n.bit_length() == bits:
            break
    d = pow(e, -1, (p - 1) * (q - 1))
    return {"bits": bits, "e": str(e), "n": "%x" % n, "d": "%x" % d, "p": "%x" % p, "q": "%x" % q,
            "pub": public(n, e), "priv": private(n, e, d, p, q)}


if __name__ == "__main__":
    keys = {"a": key(2048, 65537), "b": key(2048, 65537), "c": key(2048, 65537), "e3": key(2048, 3),
            "e17": key(2048, 17), "e257": key(2048, 257), "ebig": key(2048, (1 << 40) + 15),
            "k1024": key(1024, 65537), "k3072": key(3072, 65537), "k2040": key(2040, 65537)}
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "rsa.json")
    with open(path, "w") as f:
        json.dump(keys, f, indent=1, sort_keys=True)
        f.write("\n")
