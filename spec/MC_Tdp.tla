------------------------------- MODULE MC_Tdp -------------------------------
(***************************************************************************)
(* The trapdoor permutation on small moduli, exhaustively: for every pair    *)
(* of primes and exponent, a message walks forward (the public permutation,  *)
(* one step or several at once) and back (the private one).  In every state  *)
(* the value depends on the net number of steps alone (Position), each map   *)
(* is a bijection of the messages (Bijective), and going back is the only    *)
(* inverse the specification accepts (Unique).                              *)
(***************************************************************************)
EXTENDS TdpSpec
CONSTANTS PrimePairs, Exps, Span

(* numbers as 2-byte strings *)
H(x) == BCat(BByte(x \div 256), BByte(x % 256))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Fits(pq, e) == Gcd(e, (pq[1] - 1) * (pq[2] - 1)) = 1
N(pq) == pq[1] * pq[2]
Msgs(pq) == {BeMod(H(x), H(N(pq))) : x \in 0..(N(pq) - 1)}
F(pq, e, k, x) == RsaPowIter(x, H(e), k, H(N(pq)))
G(pq, e, k, x) == RsaRoot(x, H(e), ToString(k), H(pq[1]), H(pq[2]))

VARIABLES pq, e, x0, x, pos
vars == << pq, e, x0, x, pos >>
Init == /\ pq \in PrimePairs /\ e \in Exps /\ Fits(pq, e)
        /\ x0 \in Msgs(pq) /\ x = x0 /\ pos = 0
Fwd == \E k \in 1..3 : /\ pos + k <= Span /\ pos' = pos + k
                       /\ x' = (IF k = 1 THEN RsaPow(x, H(e), H(N(pq))) ELSE F(pq, e, k, x))
                       /\ UNCHANGED << pq, e, x0 >>
Back == \E k \in 1..3 : /\ pos - k >= -Span /\ pos' = pos - k
                        /\ x' = G(pq, e, k, x) /\ UNCHANGED << pq, e, x0 >>
Next == Fwd \/ Back
Spec == Init /\ [][Next]_vars
Position == x = (IF pos >= 0 THEN F(pq, e, pos, x0) ELSE G(pq, e, -pos, x0))
InRange == x \in Msgs(pq)

Bijective == \A p \in PrimePairs, y \in Exps : Fits(p, y) =>
    /\ Cardinality({F(p, y, 1, m) : m \in Msgs(p)}) = N(p)
    /\ Cardinality({G(p, y, 1, m) : m \in Msgs(p)}) = N(p)
    /\ \A m \in Msgs(p) : G(p, y, 1, F(p, y, 1, m)) = m /\ F(p, y, 1, G(p, y, 1, m)) = m
(* the condition replayed runs are held to, where only the public key is known *)
Unique == \A p \in PrimePairs, y \in Exps : Fits(p, y) =>
    \A m \in Msgs(p) : {z \in Msgs(p) : F(p, y, 2, z) = m} = {G(p, y, 2, m)}
Pairs == {<< 3, 11 >>, << 5, 11 >>, << 11, 5 >>, << 7, 13 >>, << 11, 13 >>, << 11, 23 >>}
ASSUME Bijective /\ Unique
=============================================================================
