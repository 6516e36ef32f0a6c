------------------------------ MODULE PrgSpec ------------------------------
(***************************************************************************)
(* Prg: a key determines one infinite byte stream; every call returns a    *)
(* window of it.                                                           *)
(***************************************************************************)
EXTENDS Mac

Stream(k, off, len) == IF len = 0 THEN "" ELSE ChaChaStream(k, off, len)

PrgValueOps  == {"prg.str0", "prg.ret0", "prg.str", "prg.ret", "prg.raw"}
PrgSValueOps == {"prg.sstr0", "prg.sret0", "prg.sstr", "prg.sret", "prg.sraw", "prg.sarr"}
PrgOps == {"prg.new", "prg.move", "prg.null", "prg.snull", "prg.key", "prg.keys", "prg.keysdef",
           "prg.skey", "prg.skeys"} \cup PrgValueOps \cup PrgSValueOps

Window(c, k) ==
    LET w == [out |-> Stream(k, c.off, c.len)]
    IN  IF c.op \in {"prg.raw", "prg.sraw", "prg.sarr"} THEN Ok(w @@ [over |-> Guard8]) ELSE Ok(w)

PrgResp(st, c) ==
    CASE c.op \in {"prg.new", "prg.move"} -> OkNil
      [] c.op \in PrgValueOps ->
            LET o == st[c.s] IN
            IF c.len = 0 THEN Ok([out |-> ""])       \* nothing is asked for
            ELSE IF IsAbsent(o) THEN AnyErr
            ELSE IF ~IsKnown(o) THEN OkNil
            ELSE Window(c, o.k)
      [] c.op \in PrgSValueOps ->
            LET o == st[c.s] IN
            IF IsAbsent(o) THEN Err("invalid_argument")
            ELSE IF ~IsKnown(o) THEN OkNil
            ELSE Window(c, o.k)
      [] c.op = "prg.null" ->
            IF c.len = 0 THEN OkNil ELSE AnyErr
      [] c.op = "prg.snull" -> AnyErr
      [] c.op \in {"prg.key"} -> IF IsAbsent(st[c.s]) THEN AnyErr ELSE OkNil
      [] c.op = "prg.skey"  -> IF IsAbsent(st[c.s]) THEN Err("invalid_argument") ELSE OkNil
      [] c.op \in {"prg.keys", "prg.keysdef"} ->
            IF c.count = 0 THEN Ok([n |-> 0])
            ELSE IF IsAbsent(st[c.s]) THEN AnyErr ELSE Ok([n |-> c.count])
      [] c.op = "prg.skeys" ->
            IF IsAbsent(st[c.s]) THEN Err("invalid_argument") ELSE Ok([n |-> c.count])
      [] OTHER -> Assert(FALSE, c.op)

(* u names the result if the seed is not known *)
DerivedKey(o, K, i, u) ==
    Key(K, IF IsKnown(o) THEN Stream(o.k, NMul(ToString(i), ToString(K)), K) ELSE u)

(* the slots that receive a vector of derived keys: the first 40 and the last *)
KeySlots(c) == { i \in 0..(c.count - 1) : i < 40 \/ i = c.count - 1 }
SlotOf(c, i) == IF i < 40 THEN c.d \o ToString(i) ELSE c.d \o "L"
PutKeys(st, o, c) ==
    [x \in {SlotOf(c, i) : i \in KeySlots(c)} |->
        LET i == CHOOSE j \in KeySlots(c) : SlotOf(c, j) = x
        IN  DerivedKey(o, c.n, c.i + i, NewUnknown(st) \o "." \o ToString(i))] @@ NoteId(st, NewUnknown(st))

PrgNext(st, c, r) ==
    CASE c.op = "prg.new"  -> Put(Put(st, c.key, Emptied(st[c.key])), c.s, [t |-> "prg", k |-> st[c.key].k])
      [] c.op = "prg.move" -> Put(Put(st, c.s, Emptied(st[c.s])), c.d, st[c.s])
      [] c.op = "prg.key" /\ r.e = "ok" -> NoteId(Put(st, c.d, DerivedKey(st[c.s], c.n, c.i, NewUnknown(st))), NewUnknown(st))
      [] c.op \in {"prg.keys", "prg.keysdef"} /\ r.e = "ok" -> PutKeys(st, st[c.s], c)
      [] c.op \in PrgSValueOps \cup {"prg.snull"} -> Put(st, c.s, Emptied(st[c.s]))
      [] c.op = "prg.skey" /\ r.e = "ok" ->
            NoteId(Put(Put(st, c.s, Emptied(st[c.s])), c.d, DerivedKey(st[c.s], c.n, c.i, NewUnknown(st))), NewUnknown(st))
      [] c.op = "prg.skeys" /\ r.e = "ok" -> PutKeys(Put(st, c.s, Emptied(st[c.s])), st[c.s], c)
      [] OTHER -> st
=============================================================================
