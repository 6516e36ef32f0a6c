------------------------------ MODULE TdpSpec ------------------------------
(***************************************************************************)
(* Trapdoor permutation: for a key with modulus n and exponent e,          *)
(* x |-> x^e mod n is a permutation of the messages (the 256-byte strings   *)
(* whose value is below n).  Whoever holds the private key can go back any  *)
(* number of steps; a pool of size s goes forward up to s steps at once.    *)
(*   [t |-> "tdp"|"tinv"|"tpool", k |-> "", n, e, p, q, size]              *)
(* n = Unknown: a generated key that has not been shown yet.                *)
(***************************************************************************)
EXTENDS Base, Mac

MsgLen == 256
NoKey  == [n |-> Unknown, e |-> "", p |-> "", q |-> ""]
PubOf(ints)  == [n |-> ints[1], e |-> ints[2], p |-> "", q |-> ""]
PrivOf(ints) == [n |-> ints[2], e |-> ints[3], p |-> ints[5], q |-> ints[6]]
FitPair(n, e) == BeBits(n) >= 128 /\ BeOdd(n) /\ BeOdd(e) /\ BeBits(e) >= 2 /\ BeLt(e, n)
IsPub(ints)  == Len(ints) = 2 /\ FitPair(ints[1], ints[2])
IsPriv(ints) ==
    /\ Len(ints) = 9
    /\ ints[1] = "00"
    /\ FitPair(ints[2], ints[3])
    /\ BeMulEq(ints[5], ints[6], ints[2])
    /\ BePrime(ints[5]) /\ BePrime(ints[6]) /\ ints[5] # ints[6]
    /\ BeInvMod(ints[3], ints[4], ints[5]) /\ BeInvMod(ints[3], ints[4], ints[6])
    /\ BeInvMod(ints[3], ints[7], ints[5]) /\ BeInvMod(ints[3], ints[8], ints[6])
    /\ BeMulIsOne(ints[6], ints[9], ints[5])
Proper(o) == BeBits(o.n) = 8 * MsgLen
KnownKey(o) == o.n # Unknown

(* what is learned from a disclosed public or private key *)
Disclosed(o, ints) ==
    IF Len(ints) = 2 THEN [o EXCEPT !.n = ints[1], !.e = ints[2]]
    ELSE [o EXCEPT !.n = ints[2], !.e = ints[3], !.p = ints[5], !.q = ints[6]]
SamePub(o, ints)  == /\ IsPub(ints)
                     /\ IF KnownKey(o) THEN ints[1] = o.n /\ ints[2] = o.e ELSE BeBits(ints[1]) = 8 * MsgLen
SamePriv(o, ints) == /\ IsPriv(ints)
                     /\ IF KnownKey(o) THEN ints[2] = o.n /\ ints[3] = o.e
                        ELSE BeBits(ints[2]) = 8 * MsgLen
                     /\ o.p = "" => BeBits(ints[5]) = 4 * MsgLen /\ BeBits(ints[6]) = 4 * MsgLen
                     /\ o.p # "" => ints[5] = o.p /\ ints[6] = o.q

TdpNew == {"tdp.irand", "tdp.isk", "tdp.pk", "tdp.pool"}
TdpCopy == {"tdp.imove", "tdp.copy", "tdp.assign", "tdp.pcopy", "tdp.passign"}
TdpOps == TdpNew \cup TdpCopy \cup {"tdp.maxorder", "tdp.pub", "tdp.priv", "tdp.sample", "tdp.eval",
                                    "tdp.gen", "tdp.invert", "tdp.imult", "tdp.peval"}

Reduced(x, n) == BeMod(x, n)
Wanted(w) == [e |-> w]
Doubtful(c) == Has(c, "maybe")                \* damaged, perhaps still a key: may be refused
Unsettled(r) == [e |-> r.e]                   \* either outcome is allowed

(* the private permutation: y is x's image going back k steps *)
BackOk(o, x, y, k) ==
    /\ BLen(y) = MsgLen
    /\ BeLt(y, o.n)
    /\ IF o.p # "" THEN y = RsaRoot(x, o.e, k, o.p, o.q)
       ELSE NLe(k, "100") => RsaPowIter(y, o.e, NInt(k), o.n) = Reduced(x, o.n)

TdpResp(st, c, r) ==
    CASE c.op \in {"tdp.irand"} \cup TdpCopy -> OkNil
      [] c.op = "tdp.isk" -> LET x == RsaPem(c.pem) IN
            IF IsPriv(x) THEN (IF BeBits(x[2]) = 8 * MsgLen /\ ~Doubtful(c) THEN OkNil ELSE Unsettled(r))
            ELSE IF c.bad THEN AnyErr ELSE Unsettled(r)
      [] c.op = "tdp.pk" -> LET x == RsaPem(c.pem) IN
            IF IsPub(x) THEN (IF BeBits(x[1]) = 8 * MsgLen /\ ~Doubtful(c) THEN OkNil ELSE Unsettled(r))
            ELSE IF c.bad THEN AnyErr ELSE Unsettled(r)
      [] c.op = "tdp.pool" -> LET x == RsaPem(c.pem) IN
            IF IsPub(x) /\ BeBits(x[1]) = 8 * MsgLen /\ ~Doubtful(c)
            THEN IF c.size = 0 THEN Err("invalid_argument")
                 ELSE IF BeBits(x[2]) * c.size < 8 * MsgLen THEN OkNil ELSE Unsettled(r)
            ELSE IF c.bad THEN AnyErr ELSE Unsettled(r)
      [] c.op = "tdp.maxorder" -> Ok([out |-> st[c.s].size])
      [] c.op = "tdp.pub" ->
            IF r.e = "ok" /\ SamePub(st[c.s], RsaPem(r.out)) THEN OkNil ELSE Wanted("the public key in PEM")
      [] c.op = "tdp.priv" ->
            IF r.e = "ok" /\ SamePriv(st[c.s], RsaPem(r.out)) THEN OkNil ELSE Wanted("the private key in PEM")
      [] c.op = "tdp.sample" ->
            IF r.e = "ok" /\ BLen(r.out) = MsgLen /\ (KnownKey(st[c.s]) => BeLt(r.out, st[c.s].n)) THEN OkNil
            ELSE Wanted("a message")
      [] c.op = "tdp.gen" ->
            LET o == st[c.s]
                k == st[c.key]
            IN  IF IsAbsent(k) THEN AnyErr
                ELSE IF ~KnownKey(o) \/ ~IsKnown(k) THEN OkNil
                ELSE Ok([out |-> Reduced(PrfValue(k.k, 264, c.m), o.n)])
      [] c.op = "tdp.eval" ->
            LET o == st[c.s] IN
            IF BLen(c.m) # MsgLen THEN (IF c.v = "arr" THEN Assert(FALSE, c) ELSE AnyErr)
            ELSE IF ~KnownKey(o) THEN OkNil
            ELSE IF ~Proper(o) THEN AnyErr
            ELSE Ok([out |-> RsaPow(c.m, o.e, o.n)])
      [] c.op = "tdp.invert" ->
            LET o == st[c.s] IN
            IF BLen(c.m) # MsgLen THEN Err("invalid_argument")
            ELSE IF ~KnownKey(o) THEN Unsettled(r)
            ELSE IF BeLt(c.m, o.n)
                 THEN IF r.e = "ok" /\ BackOk(o, c.m, r.out, "1") THEN OkNil ELSE Wanted("the pre-image")
            ELSE IF r.e = "ok" THEN (IF BackOk(o, c.m, r.out, "1") THEN OkNil ELSE Wanted("the pre-image"))
            ELSE AnyErr
      [] c.op = "tdp.imult" ->
            LET o == st[c.s] IN
            IF BLen(c.m) # MsgLen THEN Err("invalid_argument")
            ELSE IF ~KnownKey(o) THEN Unsettled(r)
            ELSE IF c.k = "0" /\ BeLt(c.m, o.n) THEN Ok([out |-> c.m])
            ELSE IF r.e = "ok" /\ c.k = "0" /\ r.out = c.m THEN OkNil
            ELSE IF r.e = "ok" /\ BackOk(o, c.m, r.out, c.k) THEN OkNil
            ELSE IF BeLt(c.m, o.n) THEN Wanted("the iterated pre-image") ELSE AnyErr
      [] c.op = "tdp.peval" ->
            LET o == st[c.s] IN
            IF c.k = 0 \/ c.k > o.size THEN
                 (IF BLen(c.m) # MsgLen THEN AnyErr ELSE Err("invalid_argument"))
            ELSE IF BLen(c.m) # MsgLen THEN AnyErr
            ELSE Ok([out |-> RsaPowIter(c.m, o.e, c.k, o.n)])

TdpObj(t, key, size) == [t |-> t, k |-> "", size |-> size] @@ key
TdpNext(st, c, r) ==
    IF r.e # "ok" THEN (IF c.op = "tdp.gen" /\ st[c.key].t = "key"
                        THEN Put(st, c.key, Emptied(st[c.key])) ELSE st)
    ELSE CASE c.op = "tdp.irand" -> Put(st, c.s, TdpObj("tinv", NoKey, 0))
           [] c.op = "tdp.isk"   -> LET x == RsaPem(c.pem) IN
                                    Put(st, c.s, TdpObj("tinv", IF IsPriv(x) THEN PrivOf(x) ELSE NoKey, 0))
           [] c.op = "tdp.pk"    -> LET x == RsaPem(c.pem) IN
                                    Put(st, c.s, TdpObj("tdp", IF IsPub(x) THEN PubOf(x) ELSE NoKey, 0))
           [] c.op = "tdp.pool"  -> LET x == RsaPem(c.pem) IN
                                    Put(st, c.s, TdpObj("tpool", IF IsPub(x) THEN PubOf(x) ELSE NoKey, c.size))
           [] c.op = "tdp.imove" -> Del(Put(st, c.d, st[c.s]), c.s)
           [] c.op \in {"tdp.copy", "tdp.assign", "tdp.pcopy", "tdp.passign"} -> Put(st, c.d, st[c.s])
           [] c.op \in {"tdp.pub", "tdp.priv"} -> Put(st, c.s, Disclosed(st[c.s], RsaPem(r.out)))
           [] c.op = "tdp.gen" /\ st[c.key].t = "key" -> Put(st, c.key, Emptied(st[c.key]))
           [] OTHER -> st
=============================================================================
