------------------------------- MODULE Perm -------------------------------
(***************************************************************************)
(* Prp: each key is a permutation of the byte strings of every length: AEZ   *)
(* with the context (expanded key) the object holds.  A random Prp has an    *)
(* undisclosed context, until it is wrapped: its permutation is learned      *)
(* ("#prp": images, "#prpi": pre-images, indexed by the name of the context  *)
(* and the argument); every later answer agrees and stays injective.         *)
(* SetHash: the free abelian group on the elements, i.e. signed multisets,  *)
(* through a fixed injection of elements into the curve.                    *)
(***************************************************************************)
EXTENDS Seal

PrpEnc == {"prp.encstr", "prp.encret", "prp.encalias", "prp.encraw"}
PrpDec == {"prp.decstr", "prp.decret", "prp.decalias", "prp.decraw"}
PrpInt == {"prp.enc32", "prp.dec32", "prp.enc64", "prp.dec64"}
PrpTab == {"prp.table1", "prp.table1d", "prp.table2", "prp.table2d"}
PrpOps == {"prp.new", "prp.rand", "prp.move", "prp.avail"} \cup PrpEnc \cup PrpDec \cup PrpInt \cup PrpTab

IsEnc(c) == c.op \in PrpEnc \cup {"prp.enc32", "prp.enc64", "prp.table1", "prp.table2"}

(* y may be the image of x under the permutation of k (or pre-image) *)
FitsP(st, k, enc, x, y) ==
  IF ~BUnknown(k) THEN y = (IF enc THEN AezEnc(k, x) ELSE AezDec(k, x))
  ELSE
    LET f == IF enc THEN st["#prp"] ELSE st["#prpi"]
        g == IF enc THEN st["#prpi"] ELSE st["#prp"]
    IN  /\ BLen(y) = BLen(x)
        /\ IF Has(f, <<k, x>>) THEN f[<<k, x>>] = y ELSE ~Has(g, <<k, y>>)
Learn(st, k, enc, x, y) ==
    LET a == IF enc THEN x ELSE y
        b == IF enc THEN y ELSE x
    IN  IF ~BUnknown(k) \/ Has(st["#prp"], <<k, a>>) THEN st
        ELSE Put(Put(st, "#prp", (<<k, a>> :> b) @@ st["#prp"]), "#prpi", (<<k, b>> :> a) @@ st["#prpi"])

Width(c) == IF c.op \in {"prp.enc32", "prp.dec32"} THEN 4 ELSE 8
Arg(c)    == IF c.op \in PrpInt THEN BLe(c.v, Width(c)) ELSE c.m
Answer(c, r) == IF c.op \in PrpInt THEN BLe(r.out, Width(c)) ELSE r.out

TabW(c) == IF c.op \in {"prp.table1", "prp.table1d"} THEN 1 ELSE 2
TabArg(c, i) == IF TabW(c) = 1 THEN BByte(i) ELSE BCat(BByte((c.lo + i) \div 256), BByte((c.lo + i) % 256))
TabN(c) == IF TabW(c) = 1 THEN 256 ELSE c.cnt

Disagrees == [e |-> "an answer of the same length, consistent with one permutation"]
PrpContext(k) == IF BUnknown(k) THEN k ELSE AezCtx(k)
PrpResp(st, c, r) ==
    IF c.op = "prp.new" THEN IF IsAbsent(st[c.key]) THEN AnyErr ELSE OkNil
    ELSE IF c.op \in {"prp.rand", "prp.move"} THEN OkNil
    ELSE IF c.op = "prp.avail" THEN Ok([out |-> TRUE])
    ELSE LET o == st[c.s] IN
         IF IsAbsent(o) THEN AnyErr
         ELSE IF r.e # "ok" \/ ~Has(r, "out") THEN Disagrees
         ELSE IF c.op \in PrpTab THEN
             LET w == TabW(c)
                 img(i) == BSlice(r.out, w * i, w)
             IN  IF /\ BLen(r.out) = w * TabN(c)
                    /\ Cardinality({img(i) : i \in 0..(TabN(c) - 1)}) = TabN(c)
                    /\ \A i \in 0..(TabN(c) - 1) : FitsP(st, o.k, IsEnc(c), TabArg(c, i), img(i))
                 THEN OkNil ELSE Disagrees
         ELSE IF FitsP(st, o.k, IsEnc(c), Arg(c), Answer(c, r))
              THEN IF c.op \in {"prp.encraw", "prp.decraw"} THEN Ok([over |-> Guard8, in |-> c.m]) ELSE OkNil
              ELSE IF BUnknown(o.k) THEN Disagrees
              ELSE [e |-> "ok", out |-> IF IsEnc(c) THEN AezEnc(o.k, Arg(c)) ELSE AezDec(o.k, Arg(c))]
PrpNext(st, c, r) ==
    CASE c.op = "prp.new"  -> IF r.e # "ok" THEN st
                              ELSE Put(Put(st, c.key, Emptied(st[c.key])), c.s,
                                       [t |-> "prp", k |-> PrpContext(st[c.key].k)])
      [] c.op = "prp.rand" -> NoteId(Put(st, c.s, [t |-> "prp", k |-> NewUnknown(st)]), NewUnknown(st))
      [] c.op = "prp.move" -> Put(Put(st, c.s, Emptied(st[c.s])), c.d, st[c.s])
      [] c.op \in PrpEnc \cup PrpDec \cup PrpInt /\ r.e = "ok" ->
            Learn(st, st[c.s].k, IsEnc(c), Arg(c), Answer(c, r))
      [] c.op \in {"prp.table1", "prp.table1d"} /\ r.e = "ok" /\ BUnknown(st[c.s].k) ->
            LET k == st[c.s].k
                a(i) == IF IsEnc(c) THEN BByte(i) ELSE BSlice(r.out, i, 1)
                b(i) == IF IsEnc(c) THEN BSlice(r.out, i, 1) ELSE BByte(i)
            IN  Put(Put(st, "#prp", [q \in {<<k, BByte(i)>> : i \in 0..255} |->
                                        b(CHOOSE i \in 0..255 : a(i) = q[2])] @@ st["#prp"]),
                    "#prpi", [q \in {<<k, BByte(i)>> : i \in 0..255} |->
                                        a(CHOOSE i \in 0..255 : b(i) = q[2])] @@ st["#prpi"])
      [] OTHER -> st

----------------------------------------------------------------------------
Infinity == "0100000000000000000000000000000000000000000000000000000000000000"
ElemPoint(x) == EdFromUniform(BSlice(Blake2b(x), 0, 32))
PlusE(p, x)  == EdAdd(p, ElemPoint(x))
MinusE(p, x) == EdAdd(p, EdNeg(ElemPoint(x)))
RECURSIVE SumOf(_, _)
SumOf(p, xs) == IF xs = <<>> THEN p ELSE SumOf(PlusE(p, Head(xs)), Tail(xs))
SetObj(p) == [t |-> "set", k |-> p]

SetOps == {"set.new", "set.vec", "set.bytes", "set.copy", "set.movector", "set.assign", "set.add",
           "set.rem", "set.addset", "set.remset", "set.eq", "set.print"}
SetAfter(st, c) ==       \* the value of slot c.s afterwards
    CASE c.op = "set.new"   -> Infinity
      [] c.op = "set.vec"   -> SumOf(Infinity, c.xs)
      [] c.op = "set.bytes" -> c.m
      [] c.op \in {"set.copy", "set.movector", "set.assign"} -> st[c.a].k
      [] c.op = "set.add"    -> PlusE(st[c.s].k, c.x)
      [] c.op = "set.rem"    -> MinusE(st[c.s].k, c.x)
      [] c.op = "set.addset" -> EdAdd(st[c.s].k, st[c.a].k)
      [] c.op = "set.remset" -> EdAdd(st[c.s].k, EdNeg(st[c.a].k))
      [] OTHER -> st[c.s].k
SetBad(c) == c.op = "set.bytes" /\ c.m # Infinity /\ ~EdValid(c.m)
SetResp(st, c) ==
    IF SetBad(c) THEN Err("invalid_argument")
    ELSE LET v == [out |-> SetAfter(st, c)]
         IN  CASE c.op = "set.eq" ->
                 LET same == IF Has(c, "same") THEN c.same ELSE st[c.s].k = st[c.a].k   \* the same multiset
                 IN  Ok(v @@ [eq |-> same, ne |-> ~same])
               [] c.op = "set.print" -> Ok(v)
               [] OTHER -> Ok(v)
SetNext(st, c) == IF SetBad(c) THEN st ELSE Put(st, c.s, SetObj(SetAfter(st, c)))
=============================================================================
