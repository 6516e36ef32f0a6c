------------------------------- MODULE Fresh -------------------------------
(***************************************************************************)
(* Values the library draws at random.  st["#draws"] maps the kind of a     *)
(* draw (nonces, initialisation vectors, keys, ...) to the sequence of the  *)
(* values drawn so far.  No value is drawn twice, and every byte of a drawn *)
(* value varies.                                                           *)
(***************************************************************************)
EXTENDS Perm

RandomOps == {"random.bytes", "random.str", "random.arr", "random.arr64", "random.fork"}

Draws(st, kind) == IF Has(st["#draws"], kind) THEN st["#draws"][kind] ELSE << >>

(* what a command draws: a sequence of << kind, value >>, with a third part  *)
(* for values that are nothing but random bytes                            *)
Drawn(st, c, r) ==
    IF r.e # "ok" THEN << >>
    ELSE CASE c.op = "random.fork" ->
                << << "forked/" \o ToString(c.len), r.out, "raw" >>, << "forked/" \o ToString(c.len), r.child, "raw" >> >>
           [] c.op = "big.random" -> << << "big", r.w0, "raw" >>, << "big", r.wm, "raw" >>, << "big", r.we, "raw" >> >>
           [] c.op \in RandomOps -> << << c.op \o "/" \o ToString(c.len), r.out, "raw" >> >>
           [] c.op \in {"cipher.enc", "cipher.encarr", "cipher.encalias"} ->
                << << "nonce", BSlice(r.out, 0, 16), "raw" >>,
                   << "nonce/" \o c.op \o "/" \o ToString(BLen(c.m)), BSlice(r.out, 0, 16) >> >>
           [] c.op = "wrapper.wrap" ->
                << << "iv", BSlice(r.out, 0, 16), "raw" >>, << "iv/" \o c.ty, BSlice(r.out, 0, 16) >> >>
                \o (IF BUnknown(st[c.o].k) /\ IsKnown(st[c.s])      \* the key of a random object
                    THEN << << "object/" \o c.ty, WrapOpen(st[c.s].k, c, r.out) >> >>
                    ELSE << >>)
           [] c.op = "draws.add" -> << IF Has(c, "raw") THEN << c.kind, c.v, "raw" >> ELSE << c.kind, c.v >> >>      \* drawn in another run
           [] c.op = "key.probe" /\ ~Maceable(c.n) /\ BUnknown(st[c.s].k) -> << << "read/" \o ToString(c.n), r.out, "raw" >> >>
           [] c.op = "key.peek" /\ Has(r, "bytes") -> << << "key/" \o ToString(c.n), r.bytes, "raw" >> >>
           [] c.op = "tdp.sample" -> << << "message", r.out, "raw" >> >>
           [] c.op = "tdp.pub" /\ ~KnownKey(st[c.s]) -> << << "modulus", RsaPem(r.out)[1] >> >>
           [] c.op = "tdp.priv" /\ st[c.s].p = "" ->
                LET x == RsaPem(r.out) IN << << "prime", x[5] >>, << "prime", x[6] >> >>
           [] OTHER -> << >>

(* Values shorter than 8 bytes may repeat.  Of random bytes, no 8 bytes are  *)
(* seen twice (an even source repeats some once in 2^30 runs of this size), *)
(* and no 8 bytes are the same byte.                                       *)
IsFresh(st, d) ==
    \/ BLen(d[2]) < 8
    \/ LET s == Draws(st, d[1])
       IN  /\ \A i \in DOMAIN s : s[i] # d[2]
           /\ Len(d) = 3 => BChunksFresh(s, d[2])

(* draws.check: n draws (n >= 16) take at least min(n/4, 64) values in every *)
(* byte; an even source fails that once in more than 2^60 columns           *)
AtLeast(n) == IF n > 256 THEN 64 ELSE n \div 4
ColumnsVary(s) == \A col \in 0..(BLen(s[1]) - 1) : BCountDistinctColumn(s, col) >= AtLeast(Len(s))
FreshResp(st, c) ==
    IF c.op = "draws.check"
    THEN LET s == Draws(st, c.kind) IN
         IF Len(s) >= c.min /\ (Has(c, "vary") \/ Len(s) < 16 \/ ColumnsVary(s)) THEN OkNil ELSE [e |-> "every byte of " \o c.kind \o " varies"]
    ELSE OkNil
RandomResp(c, r) ==
    IF r.e = "ok" /\ Has(r, "out") /\ BLen(r.out) = c.len
       /\ (c.op = "random.fork" => Has(r, "child") /\ BLen(r.child) = c.len)
    THEN (IF c.op = "random.bytes" THEN Ok([over |-> Guard8]) ELSE OkNil)
    ELSE [e |-> "ok", out |-> ToString(c.len) \o " random bytes"]

(* What is computed with an undisclosed key (a random object): the same      *)
(* inputs give the same output, another key gives another output.          *)
(* st["#eval"][function and input][key] is the output seen.                *)
Observed(st, c, r) ==
    IF r.e # "ok" \/ ~Has(r, "out") \/ ~Has(c, "s") THEN << >>
    ELSE IF ~Has(st, c.s) THEN << >>
    ELSE LET o == st[c.s]
             f == CASE c.op = "key.probe" -> "hmac/b/" \o c.m
                    [] c.op \in {"mac.raw", "mac.arr", "mac.str"} -> "hmac/" \o o.h \o "/" \o c.m
                    [] c.op \in {"prf.raw", "prf.arr", "prf.str"} -> "prf/" \o ToString(c.n) \o "/" \o c.m
                    [] c.op \in PrgOps /\ Has(c, "off") ->
                        "prg/" \o c.off \o "/" \o ToString(c.len)
                    [] c.op = "rc.eval" -> "rc/" \o ToString(c.n) \o "/" \o ToString(o.h) \o "/" \o c.l
                    [] OTHER -> ""
         IN  IF f # "" /\ BUnknown(o.k) THEN << f, o.k, r.out >> ELSE << >>
SeenFor(st, f) == IF Has(st["#eval"], f) THEN st["#eval"][f] ELSE [x \in {} |-> ""]
ObservedOk(st, w) ==
    w = << >> \/
    LET m == SeenFor(st, w[1])
    IN  IF Has(m, w[2]) THEN m[w[2]] = w[3]
        ELSE BLen(w[3]) >= 8 => \A x \in DOMAIN m : m[x] # w[3]
LearnEval(st, w) ==
    IF w = << >> THEN st
    ELSE Put(st, "#eval", (w[1] :> ((w[2] :> w[3]) @@ SeenFor(st, w[1]))) @@ st["#eval"])

RECURSIVE LearnDraws(_, _)
LearnDraws(st, ds) ==
    IF ds = << >> THEN st
    ELSE LET d == Head(ds)
         IN  LearnDraws(Put(st, "#draws", (d[1] :> Append(Draws(st, d[1]), d[2])) @@ st["#draws"]), Tail(ds))
=============================================================================
