--------------------------------- MODULE Tk ---------------------------------
(***************************************************************************)
(* The whole toolkit: the store of a client program and the calls it makes. *)
(***************************************************************************)
EXTENDS Big, Punct

(* bookkeeping entries of the store (see Perm, Fresh); not client variables *)
Bookkeeping == [x \in {"#prp", "#prpi", "#sealed", "#draws", "#ids", "#eval", "#fault", "#punct", "#parents"} |-> [y \in {} |-> 0]]
EmptyStore == Bookkeeping
Slots(st) == DOMAIN st \ DOMAIN Bookkeeping

FaultOps == {"fault_alloc", "fault_prot", "fault_new"}
MiscOps == {"lib.again", "lib.twice", "proc.fork", "proc.exit", "strstrn", "mem", "stackwatch", "memscan", "stackscan", "fault_off", "fault_nosys"} \cup FaultOps

(* first occurrence of a byte string in another; -1: none *)
OccursAt(h, n, i) == i + BLen(n) <= BLen(h) /\ BAt(h, n, i)
FirstIn(h, n) ==
    IF BLen(n) > BLen(h) THEN -1
    ELSE LET P == {i \in 0..(BLen(h) - BLen(n)) : OccursAt(h, n, i)}
         IN  IF P = {} THEN -1 ELSE CHOOSE i \in P : \A j \in P : i <= j
MiscResp(c) ==
    CASE c.op = "strstrn" -> Ok([out |-> FirstIn(c.h, c.x)])
      [] c.op \in {"memscan", "stackscan"} -> Ok([found |-> FALSE])     \* no secret in readable memory
      [] OTHER -> OkNil

(* the response the specification requires *)
Resp(st, c, r) ==
    CASE c.op \in HashOps    -> HashResp(c)
      [] c.op \in KeyOps     -> KeyResp(st, c)
      [] c.op \in MacOps     -> MacResp(st, c)
      [] c.op \in PrfOps     -> PrfResp(st, c)
      [] c.op \in PrgOps     -> PrgResp(st, c)
      [] c.op \in RcOps      -> RcResp(st, c)
      [] c.op \in CipherOps  -> CipherResp(st, c, r)
      [] c.op \in WrapperOps -> WrapperResp(st, c, r)
      [] c.op \in PrpOps     -> PrpResp(st, c, r)
      [] c.op \in SetOps     -> SetResp(st, c)
      [] c.op \in TdpOps     -> TdpResp(st, c, r)
      [] c.op \in PunctOps   -> PunctResp(st, c, r)
      [] c.op \in RandomOps  -> RandomResp(c, r)
      [] c.op \in BigOps     -> BigResp(st, c, r)
      [] c.op \in {"draws.check", "draws.add"} -> FreshResp(st, c)
      [] c.op \in MiscOps    -> MiscResp(c)
      [] OTHER -> Assert(FALSE, << "no such operation", c >>)

(* Processes.  At proc.fork a child takes over, with a copy of everything    *)
(* its parent has; at proc.exit the parent goes on from where it forked.    *)
(* What is known about random values and keys is kept: whatever the child   *)
(* draws, the parent must not draw again.                                  *)
Parents(st) == IF Has(st["#parents"], "q") THEN st["#parents"].q ELSE << >>
Forked(st) == Put(st, "#parents", [q |-> Append(Parents(st), [x \in Slots(st) |-> st[x]])])
Exited(st) == LET q == Parents(st) IN
    q[Len(q)] @@ Put([x \in DOMAIN Bookkeeping |-> st[x]], "#parents", [q |-> SubSeq(q, 1, Len(q) - 1)])

(* Faults.  From a fault command to fault_off, the n-th allocation of secure *)
(* or plain memory, or the n-th change of a protection, fails.  A call then  *)
(* either answers as ever or throws; when it throws, the objects it only     *)
(* reads are as before, and a key it was to consume may be gone or not.      *)
(* On a system that does not implement protection (fault_nosys) no call     *)
(* fails for that reason.                                                   *)
Armed(st) == Has(st["#fault"], "op") /\ st["#fault"].op \in FaultOps
MayFail(st) == Armed(st)
(* a protection may be missing from then on *)
Bared(st) == Has(st["#fault"], "op") /\ st["#fault"].prot
Consumed(c) == (IF Has(c, "key") THEN {c.key} ELSE {})
               \cup (IF c.op = "key.probe" \/ c.op \in PrgSValueOps \cup {"prg.skey", "prg.skeys"} THEN {c.s} ELSE {})
               \cup (IF c.op \in {"rc.assemble"} THEN {c.parts[i] : i \in DOMAIN c.parts} ELSE {})
Failed(st, c) == [x \in DOMAIN st \ Consumed(c) |-> st[x]]

Accepts(st, c, r) ==
    IF MayFail(st) /\ c.op \notin {"reset", "drop", "fault_off"} /\ r.e \notin {"ok", "CRASH", "HANG", "GARBLED"}
    THEN TRUE
    ELSE Matches(r, Resp(st, c, r))

StoreAfterCall(st, c, r) ==
    CASE c.op = "reset"      -> Put(Put(Put(EmptyStore, "#draws", st["#draws"]), "#ids", st["#ids"]), "#eval", st["#eval"])
      [] c.op \in KeyOps     -> KeyNext(st, c)
      [] c.op \in MacOps     -> MacNext(st, c, r)
      [] c.op \in PrfOps     -> PrfNext(st, c, r)
      [] c.op \in PrgOps     -> PrgNext(st, c, r)
      [] c.op \in RcOps      -> RcNext(st, c, r)
      [] c.op \in CipherOps  -> CipherNext(st, c, r)
      [] c.op \in WrapperOps -> WrapperNext(st, c, r)
      [] c.op \in PrpOps     -> PrpNext(st, c, r)
      [] c.op \in SetOps     -> SetNext(st, c)
      [] c.op \in TdpOps     -> TdpNext(st, c, r)
      [] c.op \in PunctOps   -> PunctNext(st, c, r)
      [] c.op \in FaultOps \cup {"fault_off", "fault_nosys"} ->
            Put(st, "#fault", [prot |-> c.op \in {"fault_prot", "fault_nosys"} \/ Bared(st)] @@ c)
      [] c.op = "proc.fork" -> Forked(st)
      [] c.op = "proc.exit" -> Exited(st)
      [] OTHER -> st
StoreAfter(st, c, r) ==
    IF MayFail(st) /\ r.e # "ok" THEN Failed(st, c) ELSE StoreAfterCall(st, c, r)
=============================================================================
