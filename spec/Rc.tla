-------------------------------- MODULE Rc --------------------------------
(***************************************************************************)
(* Range-constrained PRF: a binary tree of keys (GGM).  A tree of height h *)
(* has the leaves 0 .. 2^(h-1)-1; the key of a node determines the values  *)
(* of all the leaves below it and of no other leaf.                        *)
(*                                                                         *)
(*  root object         [t |-> "rc", n, h, k]                              *)
(*  constrained object  [t |-> "cr", n, h, k, els]: els is the sequence of  *)
(*    the nodes it holds, [sh, min, max, v], from left to right; v is the   *)
(*    key of the node, or the value of the leaf if sh = 1.                  *)
(* Leaf numbers are decimal strings (they need 63 bits).                    *)
(***************************************************************************)
EXTENDS PrgSpec

ChildKey(k, b)     == Stream(k, ToString(32 * b), 32)
LeafOf(k, b, n)    == Stream(k, ToString(n * b), n)

RECURSIVE LeafBelow(_, _, _)
(* value of the leaf reached from the node with key k by the path bits *)
LeafBelow(k, bits, n) ==
    IF bits = <<>> THEN Stream(k, "0", n)          \* the tree reduced to a leaf
    ELSE IF Len(bits) = 1 THEN LeafOf(k, bits[1], n)
    ELSE LeafBelow(ChildKey(k, bits[1]), Tail(bits), n)

MaxLeaf(h) == NSub(NPow2(h - 1), "1")
InDomain(o, l) == NLe(l, MaxLeaf(o.h))

RootValue(o, l) == LeafBelow(o.k, NBits(l, o.h - 1), o.n)
ElemValue(o, x, l) ==
    IF x.sh = 1 THEN x.v ELSE LeafBelow(x.v, NBits(NSub(l, x.min), x.sh - 1), o.n)

Within(l, x) == NLe(x.min, l) /\ NLe(l, x.max)
HasLeaf(o, l) == \E i \in DOMAIN o.els : Within(l, o.els[i])
CrValue(o, l) ==
    LET i == CHOOSE j \in DOMAIN o.els : Within(l, o.els[j]) IN ElemValue(o, o.els[i], l)
CrMin(o) == o.els[1].min
CrMax(o) == o.els[Len(o.els)].max

Value(o, l) == IF o.t = "rc" THEN RootValue(o, l) ELSE CrValue(o, l)
OutOfRange(o, l) == IF o.t = "rc" THEN ~InDomain(o, l) ELSE ~HasLeaf(o, l)

(* the canonical (minimal) cover of [lo, hi] by nodes strictly below a node *)
RECURSIVE CoverBelow(_, _, _, _, _, _)
CoverBelow(k, sh, min, lo, hi, n) ==
    LET half == NPow2(sh - 2)
        child(b) ==
            LET cmin == IF b = 0 THEN min ELSE NAdd(min, half)
                cmax == NSub(NAdd(cmin, half), "1")
            IN  IF NLt(hi, cmin) \/ NLt(cmax, lo) THEN <<>>
                ELSE IF NLe(lo, cmin) /\ NLe(cmax, hi)
                THEN << [sh |-> sh - 1, min |-> cmin, max |-> cmax,
                         v |-> IF sh = 2 THEN LeafOf(k, b, n) ELSE ChildKey(k, b)] >>
                ELSE CoverBelow(ChildKey(k, b), sh - 1, cmin, lo, hi, n)
    IN  child(0) \o child(1)

RECURSIVE CoverElems(_, _, _, _)
CoverElems(els, lo, hi, n) ==
    IF els = <<>> THEN <<>>
    ELSE LET x == Head(els)
             here == IF NLt(hi, x.min) \/ NLt(x.max, lo) THEN <<>>
                     ELSE IF NLe(lo, x.min) /\ NLe(x.max, hi) THEN << x >>
                     ELSE CoverBelow(x.v, x.sh, x.min, lo, hi, n)
         IN  here \o CoverElems(Tail(els), lo, hi, n)

Constrained(o, lo, hi) ==
    [t |-> "cr", n |-> o.n, h |-> o.h, k |-> "",
     els |-> IF o.t = "rc" THEN CoverBelow(o.k, o.h, "0", lo, hi, o.n)
             ELSE CoverElems(o.els, lo, hi, o.n)]

RECURSIVE Leaves(_, _)
Leaves(lo, cnt) == IF cnt = 0 THEN <<>> ELSE << lo >> \o Leaves(NAdd(lo, "1"), cnt - 1)
Count(lo, hi) == NInt(NAdd(NSub(hi, lo), "1"))
RangeVals(o, lo, hi) ==
    LET ls == Leaves(lo, Count(lo, hi))
    IN  [i \in 1..Len(ls) |-> [l |-> ls[i], v |-> Value(o, ls[i])]]

(* an element built by hand: the node of height sh whose leaves are min..max *)
ElemOk(h, sh, min, max) ==
    sh >= 1 /\ sh < h /\ NLe(min, max) /\ NSub(max, min) = MaxLeaf(sh)

----------------------------------------------------------------------------
RcOps == {"rc.new", "rc.height", "rc.move", "rc.eval", "rc.range", "rc.rangecb", "rc.rangere",
          "rc.crangere", "rc.constrain",
          "rc.ceval", "rc.crange", "rc.cconstrain", "rc.cinfo", "rc.cmove", "rc.cassign",
          "rc.leaf", "rc.inner", "rc.assemble", "rc.eeval", "rc.erange", "rc.maxleaf"}

RangeResp(o, c) ==
    LET inverted == NLt(c.hi, c.lo)
        outside  == OutOfRange(o, c.hi) \/ OutOfRange(o, c.lo)
    IN  IF inverted /\ outside THEN AnyErr @@ [vals |-> <<>>]
        ELSE IF inverted THEN Err("invalid_argument") @@ [vals |-> <<>>]
        ELSE IF outside THEN Err("out_of_range") @@ [vals |-> <<>>]
        ELSE IF o.t = "rc" /\ IsAbsent(o) THEN AnyErr
        ELSE Ok([vals |-> RangeVals(o, c.lo, c.hi)])

(* the callback evaluates the same object on the mirrored leaf: neither disturbs the other *)
Mirrored(v) == [i \in 1..(2 * Len(v)) |-> IF i % 2 = 1 THEN v[(i + 1) \div 2]
                                          ELSE v[Len(v) + 1 - i \div 2]]
ReentrantResp(o, c) ==
    LET r == RangeResp(o, c)
    IN  IF "e" \in DOMAIN r /\ r.e = "ok" THEN [r EXCEPT !.vals = Mirrored(@)] ELSE r

ConstrainResp(o, c) ==
    LET inverted == NLt(c.hi, c.lo)
        outside  == OutOfRange(o, c.hi) \/ OutOfRange(o, c.lo)
        full     == o.t = "rc" /\ c.lo = "0" /\ c.hi = MaxLeaf(o.h)
    IN  IF inverted /\ outside THEN AnyErr
        ELSE IF inverted THEN Err("invalid_argument")
        ELSE IF outside \/ full THEN Err("out_of_range")
        ELSE IF o.t = "rc" /\ IsAbsent(o) THEN AnyErr
        ELSE OkNil

EvalResp(o, l) ==
    IF OutOfRange(o, l) THEN Err("out_of_range")
    ELSE IF o.t = "rc" /\ IsAbsent(o) THEN AnyErr
    ELSE IF o.t = "rc" /\ BUnknown(o.k) THEN OkNil
    ELSE Ok([out |-> Value(o, l)])

ElemObj(c) == [t |-> "cr", n |-> c.n, h |-> c.h, k |-> "",
               els |-> << [sh |-> IF c.op = "rc.leaf" THEN 1 ELSE c.sh,
                           min |-> IF c.op = "rc.leaf" THEN c.l ELSE c.lo,
                           max |-> IF c.op = "rc.leaf" THEN c.l ELSE c.hi, v |-> c.v] >>]

(* the elements named by an assemble command, in order of their first leaf *)
RECURSIVE InsertElem(_, _)
InsertElem(x, s) == IF s = <<>> THEN << x >>
                    ELSE IF NLt(x.min, Head(s).min) THEN << x >> \o s
                    ELSE << Head(s) >> \o InsertElem(x, Tail(s))
RECURSIVE SortElems(_)
SortElems(s) == IF s = <<>> THEN <<>> ELSE InsertElem(Head(s), SortElems(Tail(s)))
Gathered(st, c) == SortElems([i \in 1..Len(c.parts) |-> st[c.parts[i]].els[1]])
Consecutive(s) == \A i \in 1..(Len(s) - 1) : NAdd(s[i].max, "1") = s[i + 1].min
SameHeight(st, c) == \A i, j \in 1..Len(c.parts) : st[c.parts[i]].h = st[c.parts[j]].h

RcResp(st, c) ==
    CASE c.op = "rc.new" -> IF c.h = 0 \/ c.h > 64 THEN Err("invalid_argument") ELSE OkNil
      [] c.op = "rc.maxleaf" ->
            Ok([out |-> IF c.h = 0 THEN "0" ELSE NSub(NPow2(IF c.h > 65 THEN 64 ELSE c.h - 1), "1")])
      [] c.op = "rc.height" -> Ok([out |-> st[c.s].h])
      [] c.op \in {"rc.move", "rc.cmove", "rc.cassign"} -> OkNil
      [] c.op \in {"rc.eval", "rc.ceval", "rc.eeval"} -> EvalResp(st[c.s], c.l)
      [] c.op \in {"rc.range", "rc.crange", "rc.erange"} -> RangeResp(st[c.s], c)
      [] c.op \in {"rc.rangere", "rc.crangere"} -> ReentrantResp(st[c.s], c)
      [] c.op = "rc.rangecb" ->
            LET v == RangeVals(st[c.s], c.lo, c.hi)
            IN  IF c.stop <= Len(v) THEN Err("length_error") @@ [vals |-> SubSeq(v, 1, c.stop)]
                ELSE Ok([vals |-> v])
      [] c.op \in {"rc.constrain", "rc.cconstrain"} -> ConstrainResp(st[c.s], c)
      [] c.op = "rc.cinfo" ->
            LET o == st[c.s] IN
            IF o.els = <<>> THEN Ok([empty |-> TRUE])
            ELSE Ok([empty |-> FALSE, min |-> CrMin(o), max |-> CrMax(o), height |-> o.h])
      [] c.op = "rc.leaf"  -> IF ElemOk(c.h, 1, c.l, c.l) THEN OkNil ELSE Err("invalid_argument")
      [] c.op = "rc.inner" -> IF c.sh > 1 /\ ElemOk(c.h, c.sh, c.lo, c.hi) THEN OkNil
                              ELSE Err("invalid_argument")
      [] c.op = "rc.assemble" ->
            IF SameHeight(st, c) /\ Consecutive(Gathered(st, c)) THEN OkNil ELSE Err("invalid_argument")
      [] OTHER -> Assert(FALSE, c.op)

RcNext(st, c, r) ==
    IF c.op = "rc.assemble" THEN
        LET s2 == [x \in DOMAIN st \ {c.parts[i] : i \in 1..Len(c.parts)} |-> st[x]]
        IN  IF r.e = "ok"
            THEN Put(s2, c.d, [t |-> "cr", n |-> c.n, k |-> "",
                               h |-> IF c.parts = <<>> THEN 0 ELSE st[c.parts[1]].h,
                               els |-> Gathered(st, c)])
            ELSE s2
    ELSE IF r.e # "ok" THEN
        IF c.op = "rc.inner" \/ c.op = "rc.new" THEN Put(st, c.key, Emptied(st[c.key])) ELSE st
    ELSE CASE c.op = "rc.new"   -> Put(Put(st, c.key, Emptied(st[c.key])), c.s,
                                       [t |-> "rc", n |-> c.n, h |-> c.h, k |-> st[c.key].k])
           [] c.op = "rc.move"  -> Put(Put(st, c.s, Emptied(st[c.s])), c.d, st[c.s])
           [] c.op = "rc.cmove" -> Put(Put(st, c.s, [st[c.s] EXCEPT !.els = <<>>]), c.d, st[c.s])
           [] c.op = "rc.cassign" -> IF c.s = c.d THEN st
                                     ELSE Put(Put(st, c.s, [st[c.s] EXCEPT !.els = <<>>]), c.d, st[c.s])
           [] c.op \in {"rc.constrain", "rc.cconstrain"} ->
                Put(st, c.d, Constrained(st[c.s], c.lo, c.hi))
           [] c.op = "rc.leaf"  -> Put(st, c.d, ElemObj(c))
           [] c.op = "rc.inner" -> Put(Put(st, c.key, Emptied(st[c.key])), c.d,
                                       ElemObj([v |-> st[c.key].k] @@ c))
           [] OTHER -> st
=============================================================================
