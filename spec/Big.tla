-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Calls with inputs or outputs of more than 2^32 bytes.  Inputs are long   *)
(* byte strings (see Prims), of the outputs some windows are observed.  The *)
(* other functions of the specification take long byte strings as they are. *)
(***************************************************************************)
EXTENDS Fresh

BigOps == {"big.prg", "big.random", "big.cipher", "big.prp", "big.str"}

LongHead(m) == BLongSlice(m, "0", 64)
LongTail(m, k)  == BLongSlice(m, NSub(BLongLen(m), ToString(k)), k)
LongAgain(m)  == Ok([olen |-> BLongLen(m), ohead |-> LongHead(m), otail |-> LongTail(m, 64), zero |-> TRUE])

BigResp(st, c, r) ==
    CASE c.op = "big.prg" ->
            LET k == st[c.s].k IN
            Ok([olen |-> c.len, w0 |-> Stream(k, c.off, 64), wm |-> Stream(k, NAdd(c.off, c.mid), 64),
                we |-> Stream(k, NAdd(c.off, NSub(c.len, "64")), 64)]
               @@ IF c.v = "raw" THEN [over |-> Guard8] ELSE [e |-> "ok"])
      [] c.op = "big.random" -> Ok([olen |-> c.len, over |-> Guard8])
      [] c.op = "big.cipher" ->
            IF r.e # "ok" \/ r.clen # NAdd(BLongLen(c.m), "32") THEN NotACiphertext
            ELSE LET k2 == Blake2bKdf(st[c.s].k, BSlice(r.head, 0, 16), Personal)
                     At(off, d) == ChaChaIetfXorAt(k2, BSlice(r.head, 0, 12), 1, off, d)
                 IN  LongAgain(c.m)
                     @@ [head |-> BCat(BSlice(r.head, 0, 16), At("0", LongHead(c.m))),
                         tail |-> BCat(At(NSub(BLongLen(c.m), "32"), LongTail(c.m, 32)), BSlice(r.tail, 32, 16)),
                         flipped |-> "runtime_error"]
      [] c.op = "big.prp" ->       \* strings that long have no image
            IF NLt("4294967295", BLongLen(c.m)) THEN AnyErr ELSE LongAgain(c.m) @@ [same |-> FALSE]
      [] c.op = "big.str" -> Ok([out |-> BLongFind(c.h, c.x)])
      [] OTHER -> Assert(FALSE, c.op)
=============================================================================
