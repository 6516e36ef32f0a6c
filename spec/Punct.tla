------------------------------- MODULE Punct -------------------------------
(***************************************************************************)
(* Puncturable encryption.  A master key encrypts 64-bit messages under      *)
(* tags.  A decryption key is a list of shares: share 0, made for the number *)
(* d of punctures, and for i = 1..d the share made for the i-th punctured    *)
(* tag; adding a puncture means one new share and a new share 0.  A key      *)
(* opens exactly the ciphertexts under tags it is not punctured on.          *)
(*   [t |-> "penc", k]   [t |-> "pdec", xs]   [t |-> "ppke", k, tags, n, r, seen] *)
(*   st["#punct"]: the shares and ciphertexts made so far, and what they are *)
(* The pairing is the stand-in's (standin/relic): an element is written as   *)
(* its exponent and strings determined by it.                               *)
(***************************************************************************)
EXTENDS Base, Mac

NullTag == "00010203040506070810111213141500"
Order == "16798108731015832284940804142231733909759579603404752749028378864165570215949"
AddR(x, y) == NMod(NAdd(x, y), Order)
SubR(x, y) == NMod(NSub(x, y), Order)
MulR(x, y) == NMod(NMul(x, y), Order)
DivR(x, y) == MulR(x, NInv(y, Order))
A == INSTANCE PunctAlg WITH Add <- AddR, Sub <- SubR, Mul <- MulR, Div <- DivR, Zero <- "0"

(* encodings *)
Exp(b) == BBe(b, 32)
Filler(e, i) == Sha256(BCat(Exp(e), BByte(i)))
Lead(e) == BByte(2 + (BInt(BSlice(Exp(e), 31, 1)) % 2))
G1(e) == BCat(Lead(e), Exp(e))
G2(e) == BCat(G1(e), Filler(e, 1))
GT(e) == BCat(Exp(e), CatAll([i \in 1..11 |-> Filler(e, i)]))
ExpAt(b, o) == BBeDec(BSlice(b, o + 1, 32))

(* secret values *)
Zr(k, name) == NMod(BBeDec(PrfValue(k, 132, BAscii(name))), Order)
Params(k) == [a |-> Zr(k, "param_alpha"), b |-> Zr(k, "param_beta"), y |-> Zr(k, "param_ry")]
TagHash(t) == NMod(BBeDec(Sha256(BCat("01", t))), Order)
Link(k, d) == IF d = 0 THEN A!Start(Params(k)) ELSE Zr(k, "param_l_" \o ToString(d))

ShareBytes(x, t) == BCat(BCat(G2(x.k1), G2(x.k2)), BCat(G2(x.k3), t))
Share0(k, d) == ShareBytes(A!First(Params(k), TagHash(NullTag), Zr(k, "param_rho_" \o ToString(d)), Link(k, d)), NullTag)
ShareN(k, d, t) == ShareBytes(A!Further(Params(k), TagHash(t), Zr(k, "param_r1_" \o ToString(d)), Link(k, d - 1), Link(k, d)), t)

Mask(e, t) == BSlice(Hmac("b", t, GT(e)), 0, 8)
CtTag(c) == BSlice(c, 74, 16)
ShareTag(x) == BSlice(x, 195, 16)
(* the ciphertext of v for the randomness it shows *)
CtOf(k, v, t, s) == LET c == A!Ct(Params(k), TagHash(t), s) IN
    BCat(BXor(BLe(v, 8), Mask(A!Hidden(Params(k), s), t)), BCat(G1(c.c2), BCat(G1(c.c3), t)))
CtMade(st, o, c, r) ==
    /\ BLen(r.out) = 90
    /\ r.tag = c.m
    /\ \A x \in DOMAIN st["#punct"] : BLen(x) = 90 => BSlice(x, 8, 33) # BSlice(r.out, 8, 33)     \* new randomness
    /\ ExpAt(r.out, 8) \notin {"0", "1"}
    /\ IF IsKnown(o) THEN r.out = CtOf(o.k, c.v, c.m, ExpAt(r.out, 8)) ELSE CtTag(r.out) = c.m

(* what a list of shares makes of a ciphertext *)
ShareAlg(x) == [k1 |-> ExpAt(x, 0), k2 |-> ExpAt(x, 65), k3 |-> ExpAt(x, 130), h |-> TagHash(ShareTag(x))]
CtAlg(c) == [c2 |-> ExpAt(c, 8), c3 |-> ExpAt(c, 41), h |-> TagHash(CtTag(c))]
Opened(xs, c) == BLeDec(BXor(BSlice(c, 0, 8), Mask(A!Recovered([i \in DOMAIN xs |-> ShareAlg(xs[i])], CtAlg(c)), CtTag(c))))
Punctured(xs, t) == \E i \in DOMAIN xs : ShareTag(xs[i]) = t

(* a complete key: share 0 of d punctures and the shares 1..d, in any order *)
Complete(st, xs) ==
    LET P == st["#punct"]
        d == Len(xs) - 1
    IN  /\ \A i \in DOMAIN xs : Has(P, xs[i])
        /\ \A i \in DOMAIN xs : P[xs[i]].k = P[xs[1]].k
        /\ \E i \in DOMAIN xs : P[xs[i]].what = "first" /\ P[xs[i]].d = d
        /\ {P[xs[i]].d : i \in {j \in DOMAIN xs : P[xs[j]].what = "further"}} = 1..d

(* the key of the public-key scheme, written out: pieces whose weights add up to a, punctured with new randomness *)
ShareSize == 211
SharesOf(b) == [i \in 1..(BLen(b) \div ShareSize) |-> BSlice(b, (i - 1) * ShareSize, ShareSize)]
RECURSIVE SumR(_)
SumR(q) == IF q = << >> THEN "0" ELSE AddR(Head(q), SumR(Tail(q)))
KeySound(o, b) ==
    LET xs == SharesOf(b)
        n == Len(xs)
        e == [i \in 1..n |-> ShareAlg(xs[i])]
        sp == Params(o.k)
        w == [i \in 1..n |-> SubR(DivR(e[i].k1, sp.b), e[i].k3)]
        new == IF n = o.n + 1 /\ o.n > 0 THEN << SubR(e[1].k3, o.r), e[n].k3, w[n] >> ELSE << >>
    IN  /\ BLen(b) = n * ShareSize
        /\ ShareTag(xs[1]) = NullTag
        /\ {ShareTag(xs[i]) : i \in 2..n} = o.tags
        /\ \A i \in 1..n : e[i].k2 = MulR(e[i].k3, A!V(sp, e[i].h))
        /\ SumR(w) = sp.a
        /\ n = 1 => e[1].k3 = Zr(o.k, "param_r")
        /\ Cardinality({new[i] : i \in DOMAIN new} \cup o.seen \cup {"0"}) = Len(new) + Cardinality(o.seen) + 1

PencOps == {"penc.new", "penc.enc", "penc.init", "penc.inc"}
PdecOps == {"pdec.new", "pdec.dec"}
PpkeOps == {"ppke.gen", "ppke.genkey", "ppke.puncture", "ppke.asks", "ppke.shares", "ppke.encpk", "ppke.encsp", "ppke.dec", "ppke.decm"}
PunctOps == PencOps \cup PdecOps \cup PpkeOps
Known(st, c, k) == Has(st["#punct"], c.ct) /\ st["#punct"][c.ct].k = k

PunctResp(st, c, r) ==
    CASE c.op \in {"penc.new", "ppke.genkey"} -> IF IsAbsent(st[c.key]) THEN AnyErr ELSE OkNil
      [] c.op = "penc.init" -> IF IsKnown(st[c.s]) THEN Ok([out |-> Share0(st[c.s].k, c.d), tag |-> NullTag]) ELSE Ok([tag |-> NullTag])
      [] c.op = "penc.inc" ->
            IF c.m = NullTag THEN Err("invalid_argument")
            ELSE IF IsKnown(st[c.s]) THEN Ok([out |-> ShareN(st[c.s].k, c.d, c.m), tag |-> c.m]) ELSE Ok([tag |-> c.m])
      [] c.op \in {"penc.enc", "ppke.encpk", "ppke.encsp"} ->
            IF c.m = NullTag THEN Err("invalid_argument")
            ELSE IF r.e = "ok" /\ CtMade(st, st[c.s], c, r) THEN OkNil ELSE [e |-> "a ciphertext of the message"]
      [] c.op = "pdec.new" -> OkNil
      [] c.op = "pdec.dec" ->
            LET xs == st[c.s].xs IN
            IF Punctured(xs, CtTag(c.ct)) THEN Ok([done |-> FALSE])
            ELSE IF Complete(st, xs) /\ Known(st, c, st["#punct"][xs[1]].k) THEN
                 (* the algebra must say the same *)
                 IF Opened(xs, c.ct) = st["#punct"][c.ct].v THEN Ok([done |-> TRUE, out |-> st["#punct"][c.ct].v])
                 ELSE Assert(FALSE, << "the key does not open the ciphertext", c >>)
            ELSE Ok([done |-> TRUE, out |-> Opened(xs, c.ct)])
      [] c.op = "ppke.gen" -> OkNil
      [] c.op = "ppke.puncture" -> IF c.m = NullTag THEN Err("invalid_argument") ELSE OkNil
      [] c.op = "ppke.asks" -> Ok([on |-> c.m \in st[c.s].tags \cup {NullTag}, any |-> st[c.s].tags # {}])
      [] c.op = "ppke.shares" ->
            IF ~IsKnown(st[c.s]) THEN OkNil
            ELSE IF r.e = "ok" /\ KeySound(st[c.s], r.out) THEN OkNil ELSE [e |-> "the shares of a key"]
      [] c.op \in {"ppke.dec", "ppke.decm"} ->
            LET o == st[c.s] IN
            IF CtTag(c.ct) \in o.tags \cup {NullTag} THEN (IF c.op = "ppke.dec" THEN Err("invalid_argument") ELSE Ok([done |-> FALSE]))
            ELSE IF Known(st, c, o.k) THEN Ok([done |-> TRUE, out |-> st["#punct"][c.ct].v])
            ELSE IF r.e = "ok" /\ Has(st["#punct"], c.ct) /\ r.out = st["#punct"][c.ct].v THEN [e |-> "another message"]
            ELSE OkNil

Remember(st, x, what) == Put(st, "#punct", (x :> what) @@ st["#punct"])
PunctNext(st, c, r) ==
    CASE c.op = "penc.new" /\ r.e = "ok" -> Put(Put(st, c.key, Emptied(st[c.key])), c.s, [t |-> "penc", k |-> st[c.key].k])
      [] c.op = "ppke.genkey" /\ r.e = "ok" ->
            Put(Put(st, c.key, Emptied(st[c.key])), c.s, [t |-> "ppke", k |-> st[c.key].k, tags |-> {}, n |-> 0, r |-> "0", seen |-> {}])
      [] c.op = "ppke.gen" /\ r.e = "ok" -> NoteId(Put(st, c.s, [t |-> "ppke", k |-> NewUnknown(st), tags |-> {}, n |-> 0, r |-> "0", seen |-> {}]), NewUnknown(st))
      [] c.op = "penc.init" /\ r.e = "ok" -> Remember(st, r.out, [k |-> st[c.s].k, what |-> "first", d |-> c.d])
      [] c.op = "penc.inc" /\ r.e = "ok" -> Remember(st, r.out, [k |-> st[c.s].k, what |-> "further", d |-> c.d])
      [] c.op \in {"penc.enc", "ppke.encpk", "ppke.encsp"} /\ r.e = "ok" ->
            Remember(st, r.out, [k |-> st[c.s].k, what |-> "ct", v |-> c.v])
      [] c.op = "pdec.new" /\ r.e = "ok" -> Put(st, c.s, [t |-> "pdec", k |-> "", xs |-> c.xs])
      [] c.op = "ppke.puncture" /\ r.e = "ok" -> Put(st, c.s, [st[c.s] EXCEPT !.tags = @ \cup {c.m}])
      [] c.op = "ppke.shares" /\ r.e = "ok" /\ IsKnown(st[c.s]) ->
            LET o == st[c.s]
                xs == SharesOf(r.out)
                n == Len(xs)
                x == ShareAlg(xs[n])
                first == ShareAlg(xs[1])
            IN  Put(st, c.s, [o EXCEPT !.n = n, !.r = first.k3,
                                       !.seen = IF n = o.n + 1 /\ o.n > 0
                                                THEN @ \cup {SubR(first.k3, o.r), x.k3, SubR(DivR(x.k1, Params(o.k).b), x.k3)} ELSE @])
      [] OTHER -> st
=============================================================================
