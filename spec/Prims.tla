------------------------------- MODULE Prims -------------------------------
(***************************************************************************)
(* The base functions the specification of crypto-tk is parameterised by.  *)
(* The definitions below are placeholders for SANY; TLC evaluates the Java  *)
(* implementations in java/Prims.java (written from the RFCs, not from the  *)
(* code under test).  Byte strings are lower-case hexadecimal strings, wide *)
(* naturals are decimal strings.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences

BSlice(s, off, len)  == SubSeq(s, 2 * off + 1, 2 * (off + len))
BAt(h, n, i)         == SubSeq(h, 2 * i + 1, 2 * i + Len(n)) = n
BLen(s)              == Len(s) \div 2
BCat(a, b)           == a \o b
BXor(a, b)           == a      \* b repeated to the length of a
BRep(b, n)           == b      \* n copies of b
BByte(n)             == ""     \* the one-byte string <<n>>
BAscii(t)            == ""     \* the bytes of a text
BLe(d, k)            == ""     \* k-byte little-endian encoding of a decimal string
BLeDec(h)            == ""     \* decimal string of a little-endian byte string
BUnknown(k)          == FALSE  \* k is the name of an undisclosed key ("?...")
BChunksFresh(s, v)   == TRUE   \* no 8 bytes of v (at a multiple of 8) occur so in v again, in the tuple s, or are equal bytes
BInt(h)              == 0      \* big-endian value of a short byte string
BCountDistinctColumn(t, c) == 0 \* number of distinct bytes at column c of a tuple of byte strings

(* Long byte strings: "(n)" within one stands for n zero bytes.  BCat, Blake2b  *)
(* and Sha512 take them as well.                                             *)
BIsLong(s)              == FALSE
BLongLen(s)             == ""     \* its length (of any byte string), in decimal
BLongSlice(s, off, len) == ""     \* bytes [off, off + len), off in decimal
BLongFind(h, n)         == ""     \* place of the first occurrence, in decimal ("-1": none)

NAdd(a, b)  == ""
NSub(a, b)  == ""
NMul(a, b)  == ""
NMod(a, n)  == ""
NInv(a, n)  == ""     \* modulo a prime
NPow2(n)    == ""
BBeDec(h)   == ""     \* decimal string of a big-endian byte string
BBe(d, k)   == ""     \* k-byte big-endian encoding of a decimal string
FPow(x, n, q)  == 0   \* modulo a small prime
FSpan(rows, q) == FALSE \* over the field of q elements: is the last column a combination of the others?
NLt(a, b)   == FALSE
NLe(a, b)   == FALSE
NInt(a)     == 0
NBits(a, n) == <<>>

Blake2b(m)                  == ""
Blake2bKdf(key, salt, pers) == ""
Sha256(m)                   == ""
Sha512(m)                   == ""
ChaChaStream(key, off, len) == ""
ChaChaIetfXor(key, nonce, d) == ""
ChaChaIetfXorAt(key, nonce, ctr, off, d) == ""   \* d at place off of a message
AeadOpen(key, nonce, ct)    == ""
AeadSeal(key, nonce, m)     == ""
AezCtx(key)                 == ""   \* the expanded form of a 48-byte key
AezEnc(ctx, m)              == ""
AezDec(ctx, m)              == ""

EdAdd(a, b)      == ""
EdNeg(a)         == ""
EdValid(a)       == FALSE
EdFromUniform(u) == ""

RsaPow(b, e, n) == ""
RsaPowIter(b, e, k, n) == ""      \* k-fold application
RsaRoot(b, e, k, p, q) == ""      \* k-fold inverse
BeLt(a, b)      == FALSE
BeMod(a, n)     == ""
RsaPem(p)       == <<>>
BeMulEq(a, b, n) == FALSE
BeInvMod(a, b, p) == FALSE
BeMulIsOne(a, b, m) == FALSE
BeOdd(a)        == FALSE
BePrime(a)      == FALSE
BeBits(a)       == 0
=============================================================================
