------------------------------ MODULE PunctAlg ------------------------------
(***************************************************************************)
(* The algebra of puncturable encryption (Green-Miers, with shares that can  *)
(* be made one at a time), in the exponents of a pairing of prime order.     *)
(*   secret parameters  sp = [a, b, y]                                      *)
(*   V(h) = b + h y, a line through b at 0                                  *)
(*   a share  [k1, k2, k3, h] for the tag hashed to h                       *)
(*   a ciphertext [c2, c3, h], hiding its message behind a b s               *)
(* The key with d punctures: the first share (for the reserved tag h0),      *)
(* ending the chain at l_d, and for i = 1..d the share of the i-th tag,      *)
(* going from l_(i-1) to l_i; l_0 = -a.                                     *)
(***************************************************************************)
EXTENDS Sequences
CONSTANTS Add(_, _), Sub(_, _), Mul(_, _), Div(_, _), Zero

V(sp, h) == Add(sp.b, Mul(h, sp.y))
Piece(sp, h, r, w) == [k1 |-> Mul(sp.b, Add(w, r)), k2 |-> Mul(r, V(sp, h)), k3 |-> r, h |-> h]
First(sp, h0, r, l) == Piece(sp, h0, r, Sub(Zero, l))
Further(sp, h, r, from, to) == Piece(sp, h, r, Sub(to, from))
Start(sp) == Sub(Zero, sp.a)
Ct(sp, h, s) == [c2 |-> s, c3 |-> Mul(s, V(sp, h)), h |-> h]
Hidden(sp, s) == Mul(Mul(sp.a, sp.b), s)

(* what a key makes of a ciphertext: interpolation of V at 0 in each share *)
W(h, g) == Div(Sub(Zero, g), Sub(h, g))
One(k, c) == Sub(Mul(c.c2, k.k1),
                 Add(Mul(Mul(W(c.h, k.h), c.c3), k.k3), Mul(Mul(W(k.h, c.h), c.c2), k.k2)))
RECURSIVE Recovered(_, _)
Recovered(ks, c) == IF ks = << >> THEN Zero ELSE Add(One(Head(ks), c), Recovered(Tail(ks), c))
Meets(ks, c) == \E i \in DOMAIN ks : ks[i].h = c.h
=============================================================================
