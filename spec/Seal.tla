------------------------------- MODULE Seal -------------------------------
(***************************************************************************)
(* Authenticated encryption: Cipher (of strings) and Wrapper (of objects). *)
(***************************************************************************)
EXTENDS Rc, TdpSpec

Personal == "656e6372797074696f6e5f6b65790000"      \* "encryption_key"

(* the plaintext of a ciphertext under a key, or "INVALID" *)
CipherOpen(k, ct) ==
    IF BLen(ct) < 32 THEN "INVALID"
    ELSE AeadOpen(Blake2bKdf(k, BSlice(ct, 0, 16), Personal), BSlice(ct, 0, 12),
                  BSlice(ct, 16, BLen(ct) - 16))

CipherOps == {"cipher.new", "cipher.move", "cipher.enc", "cipher.encalias", "cipher.encarr",
              "cipher.dec", "cipher.decalias", "cipher.decarr", "cipher.lens"}

NotACiphertext == [e |-> "a ciphertext of the plaintext, 32 bytes longer"]
(* what a failed decryption may leave in the output *)
LeftOk(c, r) ==
    IF c.op = "cipher.decarr" /\ Has(r, "left")
    THEN LET n == BLen(c.ct) - 32
         IN  [left |-> IF r.left \in {BRep("ee", n), BRep("00", n)} THEN r.left ELSE BRep("00", n)]
    ELSE IF c.op \in {"cipher.dec", "cipher.enc"} THEN [left |-> Previous] ELSE [e |-> ""]

CipherResp(st, c, r) ==
    CASE c.op \in {"cipher.new", "cipher.move"} -> OkNil
      [] c.op = "cipher.lens" ->
            Ok([cl |-> NAdd(c.len, "32"), pl |-> IF NLt("32", c.len) THEN NSub(c.len, "32") ELSE "0"])
      [] c.op \in {"cipher.enc", "cipher.encalias", "cipher.encarr"} ->
            LET o == st[c.s] IN
            IF c.m = "" THEN Err("invalid_argument") @@ LeftOk(c, r)
            ELSE IF IsAbsent(o) THEN AnyErr
            ELSE IF r.e = "ok" /\ BLen(r.out) = BLen(c.m) + 32
                    /\ (IsKnown(o) => CipherOpen(o.k, r.out) = c.m)
                 THEN Ok([out |-> r.out]) ELSE NotACiphertext
      [] OTHER ->
            LET o == st[c.s] IN
            IF BLen(c.ct) <= 32 THEN Err("invalid_argument") @@ LeftOk(c, r)
            ELSE IF IsAbsent(o) THEN AnyErr @@ LeftOk(c, r)
            ELSE IF ~IsKnown(o)
                 THEN IF <<o.k, c.ct>> \in DOMAIN st["#sealed"] THEN Ok([out |-> st["#sealed"][<<o.k, c.ct>>]])
                      ELSE Err("runtime_error") @@ LeftOk(c, r)
            ELSE LET p == CipherOpen(o.k, c.ct)
                 IN  IF p = "INVALID" THEN Err("runtime_error") @@ LeftOk(c, r)
                     ELSE Ok([out |-> p])

CipherNext(st, c, r) ==
    CASE c.op = "cipher.new"  -> Put(Put(st, c.key, Emptied(st[c.key])), c.s,
                                     [t |-> "cipher", k |-> st[c.key].k])
      [] c.op = "cipher.move" -> Put(Put(st, c.s, Emptied(st[c.s])), c.d, st[c.s])
      [] c.op \in {"cipher.enc", "cipher.encalias", "cipher.encarr"} /\ r.e = "ok" /\ BUnknown(st[c.s].k) ->
            Put(st, "#sealed", (<<st[c.s].k, r.out>> :> c.m) @@ st["#sealed"])
      [] OTHER -> st

----------------------------------------------------------------------------
(* Wrapper.  c.ty names the class, c.ctx its public context bytes.           *)
TypeByte(t) == CASE t = "cipher" -> "01" [] t = "prf" -> "02" [] t = "prg" -> "03"
                 [] t = "prp" -> "04" [] t = "rc" -> "05" [] t = "cr" -> "06" [] t = "tinv" -> "07"

ElemBytes(x) == BCat(BCat(BByte(x.sh), BLe(x.min, 8)), BCat(BLe(x.max, 8), x.v))
Serial(o) ==
    CASE o.t \in {"cipher", "prf", "prg", "prp"} -> o.k
      [] o.t = "rc" -> BCat(BByte(o.h), o.k)
      [] o.t = "cr" -> BCat(BCat(BByte(o.h), BLe(ToString(Len(o.els)), 4)),
                            CatAll([i \in 1..Len(o.els) |-> ElemBytes(o.els[i])]))
      [] OTHER -> Assert(FALSE, o)

Bad == [t |-> "bad"]
BadElem == [sh |-> -1]
RECURSIVE ParseElems(_, _, _)
(* the elements of a serialised constrained key; << ..., BadElem >> if malformed *)
ParseElems(b, cnt, n) ==
    IF cnt = 0 THEN (IF b = "" THEN <<>> ELSE << BadElem >>)
    ELSE IF BLen(b) < 17 THEN << BadElem >>
    ELSE LET sh  == BInt(BSlice(b, 0, 1))
             min == BLeDec(BSlice(b, 1, 8))
             max == BLeDec(BSlice(b, 9, 8))
             vl  == IF sh = 1 /\ min = max THEN n ELSE 32
         IN  IF BLen(b) < 17 + vl THEN << BadElem >>
             ELSE << [sh |-> sh, min |-> min, max |-> max, v |-> BSlice(b, 17, vl)] >>
                  \o ParseElems(BSlice(b, 17 + vl, BLen(b) - 17 - vl), cnt - 1, n)
ParseCr(b, n) ==
    IF BLen(b) < 23 THEN Bad
    ELSE LET h   == BInt(BSlice(b, 0, 1))
             cnt == NInt(BLeDec(BSlice(b, 1, 4)))
         IN  IF cnt < 1 \/ cnt > 200 THEN Bad
             ELSE LET els == ParseElems(BSlice(b, 5, BLen(b) - 5), cnt, n)
                  IN  IF \E i \in DOMAIN els : els[i] = BadElem THEN Bad
                      ELSE IF \A i \in DOMAIN els : ElemOk(h, els[i].sh, els[i].min, els[i].max)
                              /\ Consecutive(SortElems(els))
                      THEN [t |-> "cr", n |-> n, h |-> h, k |-> "", els |-> SortElems(els)]
                      ELSE Bad
(* the object a payload of class c.ty stands for, or Bad *)
Deserial(st, c, b) ==
    CASE c.t \in {"cipher", "prg"} -> IF BLen(b) = 32 THEN [t |-> c.t, k |-> b] ELSE Bad
      [] c.t = "prf" -> IF BLen(b) = 32 THEN [t |-> "prf", n |-> c.n, k |-> b] ELSE Bad
      [] c.t = "rc" -> IF BLen(b) = 33 /\ BInt(BSlice(b, 0, 1)) \in 1..64
                       THEN [t |-> "rc", n |-> c.n, h |-> BInt(BSlice(b, 0, 1)), k |-> BSlice(b, 1, 32)]
                       ELSE Bad
      [] c.t = "cr" -> ParseCr(b, c.n)
      [] c.t = "prp" -> IF BLen(b) = 112 THEN [t |-> "prp", k |-> b] ELSE Bad
      [] c.t = "tinv" -> IF IsPriv(RsaPem(b)) THEN TdpObj("tinv", PrivOf(RsaPem(b)), 0) ELSE Bad
      [] OTHER -> Assert(FALSE, c)

TagKey(k) == PrfValue(k, 32, "01")
EncKey(k) == PrfValue(k, 32, "02")
Context(c) == CASE c.t \in {"prf", "rc", "cr"} -> BCat(BByte(c.n \div 256), BByte(c.n % 256))
                [] OTHER -> ""
TagOf(k, iv, c, ser) == PrfValue(TagKey(k), 12, BCat(BCat(iv, TypeByte(c.t)), BCat(Context(c), ser)))
Wrapped(k, iv, c, ser) ==
    LET tag == TagOf(k, iv, c, ser)
    IN  BCat(BCat(iv, ChaChaIetfXor(EncKey(k), tag, ser)), tag)
(* the payload of a blob, or "INVALID" *)
WrapOpen(k, c, blob) ==
    LET n   == BLen(blob)
        iv  == BSlice(blob, 0, 16)
        tag == BSlice(blob, n - 12, 12)
        ser == ChaChaIetfXor(EncKey(k), tag, BSlice(blob, 16, n - 28))
    IN  IF TagOf(k, iv, c, ser) = tag THEN ser ELSE "INVALID"

WrapperOps == {"wrapper.new", "wrapper.move", "wrapper.assign", "wrapper.wrap", "wrapper.unwrap"}

(* the payload may be that of the object, whose key is disclosed by it: of a *)
(* permutation, everything seen so far agrees                               *)
Discloses(st, o, ser) ==
    /\ ser # "INVALID"
    /\ o.t = "prp" => /\ BLen(ser) = 112
                      /\ AezCtx(BCat(BSlice(ser, 0, 16), BCat(BSlice(ser, 48, 16), BSlice(ser, 96, 16)))) = ser
                      /\ \A x \in DOMAIN st["#prp"] : x[1] = o.k => AezEnc(ser, x[2]) = st["#prp"][x]
WrapResp(st, c, r) ==
    LET w == st[c.s]
        o == st[c.o]
    IN  IF IsAbsent(w) \/ (o.t \in {"cipher", "prf", "prg", "rc", "prp"} /\ IsAbsent(o)) THEN AnyErr
        ELSE IF ~Has(r, "out") \/ BLen(r.out) < 29 THEN [e |-> "ok", out |-> "a wrapped object"]
        ELSE IF BUnknown(w.k)           \* sealed under an undisclosed key: only the size shows
        THEN IF o.t = "tinv" \/ BUnknown(o.k) \/ BLen(r.out) = 28 + BLen(Serial(o)) THEN Ok([out |-> r.out])
             ELSE [e |-> "ok", out |-> "a wrapped object"]
        ELSE LET iv == BSlice(r.out, 0, 16) IN
             IF o.t = "tinv"
             THEN LET ser == WrapOpen(w.k, c, r.out)
                  IN  IF ser # "INVALID" /\ SamePriv(o, RsaPem(ser)) THEN Ok([out |-> r.out])
                      ELSE [e |-> "ok", out |-> "a wrapped private key"]
             ELSE IF BUnknown(o.k)
             THEN IF Discloses(st, o, WrapOpen(w.k, c, r.out)) THEN Ok([out |-> r.out])
                  ELSE [e |-> "ok", out |-> "a wrapped object"]
             ELSE Ok([out |-> Wrapped(w.k, iv, c, Serial(o))])

(* the blob was made by this wrapper from an object of this class *)
SealedSame(st, c) ==
    /\ Has(st["#sealed"], <<st[c.s].k, c.blob>>)
    /\ LET x == st["#sealed"][<<st[c.s].k, c.blob>>]
       IN  x.t = c.t /\ (c.t \in {"prf", "rc", "cr"} => x.n = c.n)

WrapperResp(st, c, r) ==
    CASE c.op = "wrapper.new" -> IF IsAbsent(st[c.key]) THEN Err("invalid_argument") ELSE OkNil
      [] c.op \in {"wrapper.move", "wrapper.assign"} -> OkNil
      [] c.op = "wrapper.wrap" -> WrapResp(st, c, r)
      [] c.op = "wrapper.unwrap" ->
            IF BLen(c.blob) <= 28 THEN Err("invalid_argument") @@ [left |-> c.blob]
            ELSE IF IsAbsent(st[c.s]) THEN AnyErr
            ELSE IF BUnknown(st[c.s].k)
            THEN IF SealedSame(st, c) THEN Ok([left |-> BRep("00", BLen(c.blob))])
                 ELSE Err("runtime_error") @@ [left |-> c.blob]
            ELSE LET ser == WrapOpen(st[c.s].k, c, c.blob) IN
                 IF ser = "INVALID" THEN Err("runtime_error") @@ [left |-> c.blob]
                 ELSE IF Deserial(st, c, ser) = Bad THEN AnyErr @@ [left |-> c.blob]
                 ELSE Ok([left |-> BRep("00", BLen(c.blob))])

WrapperNext(st, c, r) ==
    CASE c.op = "wrapper.new" -> IF r.e # "ok" THEN st
                                 ELSE Put(Put(st, c.key, Emptied(st[c.key])), c.s,
                                          [t |-> "wrapper", k |-> st[c.key].k])
      [] c.op = "wrapper.move" -> Put(Put(st, c.s, Emptied(st[c.s])), c.d, st[c.s])
      [] c.op = "wrapper.assign" -> IF c.s = c.d THEN st
                                    ELSE Put(Put(st, c.s, Emptied(st[c.s])), c.d, st[c.s])
      [] c.op = "wrapper.wrap" /\ r.e = "ok" ->
            LET o == st[c.o] IN
            IF BUnknown(st[c.s].k) THEN Put(st, "#sealed", (<<st[c.s].k, r.out>> :> o) @@ st["#sealed"])
            ELSE IF BUnknown(o.k)     \* the wrapped form discloses the key to its holder
            THEN Put(st, c.o, [o EXCEPT !.k = LET b == WrapOpen(st[c.s].k, c, r.out)
                                              IN  IF o.t = "rc" THEN BSlice(b, 1, 32) ELSE b])
            ELSE st
      [] c.op = "wrapper.unwrap" /\ r.e = "ok" /\ BUnknown(st[c.s].k) ->
            Put(st, c.d, st["#sealed"][<<st[c.s].k, c.blob>>])
      [] c.op = "wrapper.unwrap" /\ r.e = "ok" ->
            Put(st, c.d, Deserial(st, c, WrapOpen(st[c.s].k, c, c.blob)))
      [] OTHER -> st
=============================================================================
