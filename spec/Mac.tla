-------------------------------- MODULE Mac --------------------------------
(***************************************************************************)
(* Hash, HMac, Prf and Key.                                                *)
(***************************************************************************)
EXTENDS Base

BlockSize == 128

HashOf(h, m) == IF h = "b" THEN Blake2b(m) ELSE Sha512(m)

(* RFC 2104 *)
PadKey(h, k) ==
    LET kk == IF BLen(k) > BlockSize THEN HashOf(h, k) ELSE k
    IN  BCat(kk, BRep("00", BlockSize - BLen(kk)))
Hmac(h, k, m) ==
    LET p == PadKey(h, k)
    IN  HashOf(h, BCat(BXor(p, "5c"), HashOf(h, BCat(BXor(p, "36"), m))))

(* The PRF of output length n: the truncated HMAC if one digest is enough,  *)
(* otherwise one HMAC per 64-byte block with the block number appended.     *)
(* (two bytes of block number, low one first, if there are more than 256). *)
RECURSIVE PrfBlocks(_, _, _, _, _)
PrfBlocks(k, m, w, i, n) ==
    IF n = 0 THEN ""
    ELSE LET b == Hmac("b", k, BCat(m, BLe(ToString(i), w)))
         IN  IF n <= 64 THEN BSlice(b, 0, n)
             ELSE BCat(b, PrfBlocks(k, m, w, i + 1, n - 64))
PrfValue(k, n, m) ==
    IF n <= 64 THEN BSlice(Hmac("b", k, m), 0, n)
    ELSE PrfBlocks(k, m, IF n > 16384 THEN 2 ELSE 1, 0, n)

----------------------------------------------------------------------------
HashOps == {"hash"}
HashResp(c) ==
    LET d == Blake2b(c.m) IN
    CASE c.v \in {"raw", "rawinplace", "overlap", "str", "stralias", "ret"} -> Ok([out |-> d])
      [] c.v = "sha512" -> Ok([out |-> Sha512(c.m)])
      [] c.v \in {"rawlen"} ->
            IF c.len > 64 THEN Err("invalid_argument") @@ [over |-> BRep("ee", c.len + 8)]
            ELSE Ok([out |-> BSlice(d, 0, c.len), over |-> Guard8])
      [] c.v \in {"strlen", "retlen"} ->
            IF c.len > 64 THEN Err("invalid_argument")
            ELSE Ok([out |-> BSlice(d, 0, c.len)])
      [] OTHER -> Err("invalid_argument")          \* a null pointer

----------------------------------------------------------------------------
(* Keys.  A key is observed through the HMAC it computes ("probe").         *)
KeyOps == {"key.new", "key.rand", "key.null", "key.move", "key.assign",
           "key.erase", "key.probe", "key.peek", "drop", "reset"}

(* a key is observed through the HMAC it computes, where HMac takes its size *)
Maceable(n) == n \in 16..128
KeyResp(st, c) ==
    CASE c.op = "key.new"   -> Ok([wiped |-> TRUE])
      [] c.op = "key.null"  -> Err("invalid_argument")
      [] c.op = "key.probe" ->
            IF IsAbsent(st[c.s]) THEN Err("invalid_argument")
            ELSE IF ~IsKnown(st[c.s]) THEN OkNil
            ELSE Ok([out |-> IF Maceable(c.n) THEN Hmac("b", st[c.s].k, c.m) ELSE st[c.s].k])
      [] OTHER -> OkNil

KeyNext(st, c) ==
    CASE c.op = "key.new"    -> Put(st, c.s, Key(c.n, c.k))
      [] c.op = "key.rand"   -> NoteId(Put(st, c.s, Key(c.n, NewUnknown(st))), NewUnknown(st))
      [] c.op = "key.move"   -> Put(Put(st, c.s, Emptied(st[c.s])), c.d, st[c.s])
      [] c.op = "key.assign" -> IF c.s = c.d THEN st
                                ELSE Put(Put(st, c.s, Emptied(st[c.s])), c.d, st[c.s])
      [] c.op = "key.erase"  -> Put(st, c.s, Emptied(st[c.s]))
      [] c.op = "key.probe"  -> Put(st, c.s, Emptied(st[c.s]))
      [] c.op = "drop"       -> Del(st, c.s)
      [] OTHER -> st

----------------------------------------------------------------------------
(* HMac objects *)
MacOps == {"mac.new", "mac.rand", "mac.move", "mac.assign", "mac.raw", "mac.rawlen", "mac.overlap",
           "mac.arr", "mac.str", "mac.nullin", "mac.nullout"}
MacResp(st, c) ==
    IF c.op = "mac.new" THEN IF IsAbsent(st[c.key]) THEN Err("invalid_argument") ELSE OkNil
    ELSE IF c.op \in {"mac.rand", "mac.move", "mac.assign"} THEN OkNil
    ELSE LET o == st[c.s] IN
         IF c.op \in {"mac.nullin", "mac.nullout"} THEN Err("invalid_argument")
         ELSE IF c.op = "mac.rawlen" /\ c.len > 64
              THEN Err("invalid_argument") @@ [over |-> BRep("ee", c.len + 8)]
         ELSE IF IsAbsent(o) THEN AnyErr
         ELSE IF ~IsKnown(o) THEN OkNil
         ELSE IF c.op = "mac.rawlen"
              THEN Ok([out |-> BSlice(Hmac(o.h, o.k, c.m), 0, c.len), over |-> Guard8])
         ELSE Ok([out |-> Hmac(o.h, o.k, c.m)])
MacNext(st, c, r) ==
    CASE c.op = "mac.new"    -> IF r.e = "ok"
                                THEN Put(Put(st, c.key, Emptied(st[c.key])), c.s,
                                         [t |-> "mac", h |-> c.h, n |-> c.n, k |-> st[c.key].k])
                                ELSE st
      [] c.op = "mac.rand"   -> NoteId(Put(st, c.s, [t |-> "mac", h |-> c.h, n |-> c.n, k |-> NewUnknown(st)]), NewUnknown(st))
      [] c.op = "mac.move"   -> Put(Put(st, c.s, Emptied(st[c.s])), c.d, st[c.s])
      [] c.op = "mac.assign" -> IF c.s = c.d THEN st
                                ELSE Put(Put(st, c.s, Emptied(st[c.s])), c.d, st[c.s])
      [] OTHER -> st

----------------------------------------------------------------------------
(* Prf objects *)
PrfOps == {"prf.new", "prf.rand", "prf.move", "prf.assign", "prf.raw", "prf.str", "prf.arr",
           "prf.null", "prf.key", "prf.keystr", "prf.keyarr"}
PrfKeyOps == {"prf.key", "prf.keystr", "prf.keyarr"}
PrfResp(st, c) ==
    IF c.op = "prf.new" THEN IF IsAbsent(st[c.key]) THEN Err("invalid_argument") ELSE OkNil
    ELSE IF c.op \in {"prf.rand", "prf.move", "prf.assign"} THEN OkNil
    ELSE LET o == st[c.s] IN
         IF c.op = "prf.null" THEN Err("invalid_argument")
         ELSE IF IsAbsent(o) THEN AnyErr
         ELSE IF c.op \in PrfKeyOps \/ ~IsKnown(o) THEN OkNil
         ELSE Ok([out |-> PrfValue(o.k, o.n, c.m)])
PrfNext(st, c, r) ==
    CASE c.op = "prf.new"    -> IF r.e = "ok"
                                THEN Put(Put(st, c.key, Emptied(st[c.key])), c.s,
                                         [t |-> "prf", n |-> c.n, k |-> st[c.key].k])
                                ELSE st
      [] c.op = "prf.rand"   -> NoteId(Put(st, c.s, [t |-> "prf", n |-> c.n, k |-> NewUnknown(st)]), NewUnknown(st))
      [] c.op = "prf.move"   -> Put(Put(st, c.s, Emptied(st[c.s])), c.d, st[c.s])
      [] c.op = "prf.assign" -> IF c.s = c.d THEN st
                                ELSE Put(Put(st, c.s, Emptied(st[c.s])), c.d, st[c.s])
      [] c.op \in PrfKeyOps /\ r.e = "ok" ->
            LET k == IF IsKnown(st[c.s]) THEN PrfValue(st[c.s].k, c.n, c.m) ELSE NewUnknown(st)
            IN  NoteId(Put(st, c.d, Key(c.n, k)), k)
      [] OTHER -> st
=============================================================================
