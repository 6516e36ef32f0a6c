------------------------------- MODULE MC_Perm -------------------------------
(***************************************************************************)
(* Permutations under undisclosed keys, as module Perm judges them: an       *)
(* implementation answers encryptions and decryptions of a small domain in   *)
(* any way; the specification accepts an answer or not and learns.  In every *)
(* state what has been accepted is part of some permutation (Consistent) and *)
(* an implementation that follows one permutation is never refused           *)
(* (NoFalseAlarm).  With a disclosed key: every 1-byte table is a            *)
(* permutation, decryption is its inverse, and two keys differ.              *)
(***************************************************************************)
EXTENDS Perm
CONSTANTS Size
Dom == {BByte(i) : i \in 1..Size}
Perms == {f \in [Dom -> Dom] : \A x, y \in Dom : f[x] = f[y] => x = y}
Inv(f, y) == CHOOSE x \in Dom : f[x] = y
Key1 == "?0"
VARIABLES st
Init == st = [x \in {"#prp", "#prpi"} |-> [y \in {} |-> 0]]
Ask == \E enc \in {TRUE, FALSE}, x, y \in Dom : FitsP(st, Key1, enc, x, y) /\ st' = Learn(st, Key1, enc, x, y)
Spec == Init /\ [][Ask]_st
Agrees(f) == \A q \in DOMAIN st["#prp"] : f[q[2]] = st["#prp"][q]
Consistent == /\ \E f \in Perms : Agrees(f)
              /\ \A q \in DOMAIN st["#prp"] : Has(st["#prpi"], << Key1, st["#prp"][q] >>) /\ st["#prpi"][<< Key1, st["#prp"][q] >>] = q[2]
NoFalseAlarm == \A f \in Perms : Agrees(f) =>
    \A x \in Dom : FitsP(st, Key1, TRUE, x, f[x]) /\ FitsP(st, Key1, FALSE, f[x], x)
(* and whatever contradicts what was seen is refused *)
Refuses == \A q \in DOMAIN st["#prp"] : \A y \in Dom :
    /\ y # st["#prp"][q] => ~FitsP(st, Key1, TRUE, q[2], y)
    /\ y # q[2] => ~FitsP(st, Key1, FALSE, st["#prp"][q], y)

Ctx(i) == AezCtx(BRep(BByte(i), 48))
Tab(i) == [x \in 0..255 |-> AezEnc(Ctx(i), BByte(x))]
Tables == \A i \in {1, 2, 255} :
    /\ Cardinality({Tab(i)[x] : x \in 0..255}) = 256
    /\ \A x \in 0..255 : AezDec(Ctx(i), Tab(i)[x]) = BByte(x)
KeysDiffer == Tab(1) # Tab(2)
Lengths == \A n \in {1, 2, 3, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 100, 128, 129, 255, 256, 257} :
    \A v \in {"00", "a5", "ff"} : LET m == BRep(v, n)
                                     c == AezEnc(Ctx(1), m)
                                 IN  BLen(c) = n /\ AezDec(Ctx(1), c) = m /\ (n < 3 \/ c # AezEnc(Ctx(2), m))
ASSUME Tables /\ KeysDiffer /\ Lengths
=============================================================================
