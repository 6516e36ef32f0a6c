------------------------------ MODULE MC_Punct ------------------------------
(***************************************************************************)
(* Puncturable encryption over a small field, exhaustively: every choice of  *)
(* secret parameters, of random values and of tags, punctured one by one     *)
(* (tags may be punctured again).  Works: the key recovers what hides every  *)
(* message whose tag was not punctured.  The other direction, Gone: for a    *)
(* punctured tag, no combination of the pairings the holder of the key can   *)
(* compute from key and ciphertext gives that value.                        *)
(***************************************************************************)
EXTENDS Prims, FiniteSets, TLC
CONSTANTS P, MaxPunct

AddP(x, y) == (x + y) % P
SubP(x, y) == (x + P - y) % P
MulP(x, y) == (x * y) % P
InvP(x) == CHOOSE y \in 1..(P - 1) : (x * y) % P = 1
DivP(x, y) == MulP(x, InvP(y))
A == INSTANCE PunctAlg WITH Add <- AddP, Sub <- SubP, Mul <- MulP, Div <- DivP, Zero <- 0

Field == 0..(P - 1)
H0 == 1                       \* the reserved tag
Tags == 2..(P - 1)

VARIABLES sp, l, key
vars == << sp, l, key >>
Init == /\ sp \in [a : Field, b : Field, y : Field]
        /\ l = A!Start(sp)
        /\ key \in {<< A!First(sp, H0, r, A!Start(sp)) >> : r \in Field}
Puncture == /\ Len(key) <= MaxPunct
            /\ \E to \in Field, r0 \in Field, r1 \in Field, t \in Tags :
                 /\ l' = to
                 /\ key' = Append([key EXCEPT ![1] = A!First(sp, H0, r0, to)], A!Further(sp, t, r1, l, to))
            /\ UNCHANGED sp
Spec == Init /\ [][Puncture]_vars
Works == \A h \in Tags, s \in Field : LET c == A!Ct(sp, h, s) IN
            ~A!Meets(key, c) => A!Recovered(key, c) = A!Hidden(sp, s)

----------------------------------------------------------------------------
(* Linear algebra over a larger field: columns are the functions (of all the *)
(* secrets) the holder can compute, the last one the value that hides the    *)
(* message; rows are random choices of the secrets.                          *)
Q == 10007
PowQ(x, n) == FPow(x, n, Q)
AddQ(x, y) == (x + y) % Q
SubQ(x, y) == (x + Q - y) % Q
MulQ(x, y) == (x * y) % Q
DivQ(x, y) == MulQ(x, PowQ(y, Q - 2))
B == INSTANCE PunctAlg WITH Add <- AddQ, Sub <- SubQ, Mul <- MulQ, Div <- DivQ, Zero <- 0
(* the i-th pseudo-random value of row j *)
Rnd(j, i) == PowQ(5, (j * 7919 + i * 104729 + j * j * 31 + i * i * j * 17 + 13) % (Q - 1))
Row(j, tags, h) ==
    LET s == TLCEval([a |-> Rnd(j, 1), b |-> Rnd(j, 2), y |-> Rnd(j, 3)])
        d == Len(tags)
        lam == TLCEval([i \in 0..d |-> IF i = 0 THEN B!Start(s) ELSE Rnd(j, 10 + i)])
        ks == TLCEval(<< B!First(s, H0, Rnd(j, 5), lam[d]) >> \o [i \in 1..d |-> B!Further(s, tags[i], Rnd(j, 20 + i), lam[i - 1], lam[i])])
        c == TLCEval(B!Ct(s, h, Rnd(j, 4)))
    IN  [i \in 1..(6 * (d + 1)) |->
             LET k == ks[(i - 1) \div 6 + 1]
                 g == (i - 1) % 6
             IN  MulQ(IF g < 3 THEN c.c2 ELSE c.c3, IF g % 3 = 0 THEN k.k1 ELSE IF g % 3 = 1 THEN k.k2 ELSE k.k3)]
        \o << B!Hidden(s, Rnd(j, 4)) >>
Recoverable(tags, h) == FSpan([j \in 1..(6 * (Len(tags) + 1) + 8) |-> Row(j, tags, h)], Q)
TagSeqs == UNION {[1..n -> {2, 3, 4}] : n \in 0..3}
Gone == \A tags \in TagSeqs, h \in 2..5 : Recoverable(tags, h) <=> h \notin {tags[i] : i \in DOMAIN tags}
ASSUME Gone
=============================================================================
