------------------------------ MODULE TkTrace ------------------------------
(***************************************************************************)
(* Does a recorded run of the real library follow the specification?       *)
(* A run is a sequence of events [c |-> command, r |-> response].  The      *)
(* specification has a transition for an event iff the response is the one  *)
(* it requires; the run is accepted iff every event has one.                *)
(***************************************************************************)
EXTENDS Tk, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
JudgeMemory == IOEnv.JUDGE_MEMORY # "0"     \* also secure memory
JudgeLocks  == IOEnv.JUDGE_MEMORY = "1"     \* and its protection
JudgeFresh  == IOEnv.JUDGE_FRESH = "1"      \* also the freshness of random values

VARIABLES i, st, mem
vars == << i, st, mem >>

(* Secure memory: allocations alive (lv), of these readable (rd), frees of  *)
(* something that is not allocated (bf).                                   *)
Uses == {"mac.raw", "mac.rawlen", "mac.overlap", "mac.arr", "mac.str", "prf.raw", "prf.str", "prf.arr",
         "cipher.enc", "cipher.encarr", "cipher.dec", "cipher.decarr", "cipher.encalias",
         "cipher.decalias", "prp.encstr", "prp.encret", "prp.encraw", "prp.encalias", "prp.decstr",
         "prp.decret", "prp.decraw", "prp.decalias", "prp.enc32", "prp.dec32", "prp.enc64", "prp.dec64",
         "prp.table1", "prp.table1d", "prg.str0", "prg.ret0", "prg.str", "prg.ret", "prg.raw",
         "rc.eval", "rc.range", "rc.rangecb", "rc.rangere", "rc.crangere", "rc.ceval", "rc.crange", "rc.eeval", "rc.erange",
         "wrapper.wrap", "hash", "set.add", "tdp.eval", "tdp.invert", "tdp.imult", "tdp.peval",
         "random.bytes", "strstrn", "lib.again", "lib.twice"}
Moves == {"key.move", "mac.move", "prf.move", "prg.move", "cipher.move", "wrapper.move", "prp.move",
          "rc.move", "rc.cmove"}
Discards == {"drop", "reset", "key.erase", "key.assign", "mac.assign", "prf.assign", "wrapper.assign", "rc.cassign",
             "key.probe", "prg.sstr0", "prg.sret0", "prg.sstr", "prg.sret", "prg.sraw", "prg.sarr", "prg.snull"}
MemOk(c, r) ==
    /\ r.bf = 0
    /\ JudgeLocks /\ ~Bared(st) => r.rd = 0
    /\ r.e # "ok" => r.lv <= mem          \* a call that fails leaves nothing behind
    /\ c.op \in Uses => r.lv = mem        \* a use neither creates nor destroys a secret
    /\ c.op \in Moves => r.lv <= mem      \* (the destination slot may have held something)
    /\ c.op \in Discards => r.lv <= mem
    /\ c.op = "key.erase" /\ ~IsAbsent(st[c.s]) => r.lv = mem - 1
    /\ c.op = "reset" => r.lv = 0

Init == i = 1 /\ st = EmptyStore /\ mem = 0

Step ==
    /\ i <= Len(Trace)
    /\ LET ev == Trace[i]
           x  == Resp(st, ev.c, ev.r)
           ds == IF JudgeFresh THEN Drawn(st, ev.c, ev.r) ELSE << >>
           ob == Observed(st, ev.c, ev.r)
           good == /\ Accepts(st, ev.c, ev.r)
                   /\ Has(ev.c, "rep") => ev.r.distinct = 1    \* repeated, it answers the same
                   /\ ObservedOk(st, ob)
                   /\ \A d \in DOMAIN ds : IsFresh(st, ds[d])
                   /\ \A d, e \in DOMAIN ds : d # e /\ BLen(ds[d][2]) >= 8 => ds[d] # ds[e]
                   /\ JudgeMemory => MemOk(ev.c, ev.r)
       IN  /\ IF good THEN TRUE
              ELSE PrintT("MISMATCH at " \o ToString(i) \o " required " \o ToString(x)) /\ FALSE
           /\ i' = i + 1
           /\ mem' = IF Has(ev.r, "lv") THEN ev.r.lv ELSE mem
           /\ st' = LearnEval(LearnDraws(StoreAfter(st, ev.c, ev.r), ds), ob)
Spec == Init /\ [][Step]_vars

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == i
=============================================================================
