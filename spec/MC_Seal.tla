------------------------------- MODULE MC_Seal -------------------------------
(***************************************************************************)
(* Sealing, on the operators of module Seal: an honest party has sealed      *)
(* messages (Cipher) and objects (Wrapper) under two keys; an adversary      *)
(* takes what was sealed and, in any order, flips bits, cuts, extends,       *)
(* splices two of them or puts another nonce in front.  In every state:      *)
(*  - what opens is something the honest party sealed, under the key it is   *)
(*    opened with and as the class it was sealed as, and it opens to what    *)
(*    was sealed (Authentic, AuthenticW)                                    *)
(*  - everything honest opens (Honest)                                      *)
(* Serialisation: every constrained key of every small tree survives (RoundTrip) *)
(* and no payload that is not of an object is accepted (OnlyObjects).        *)
(***************************************************************************)
EXTENDS Seal
CONSTANTS MaxEdits, MaxH

K(i) == BRep(BByte(160 + i), 32)
Nonce(i) == BRep(BByte(i), 16)
SealC(k, nonce, m) == BCat(nonce, AeadSeal(Blake2bKdf(k, nonce, Personal), BSlice(nonce, 0, 12), m))
Ms == {"6d", "6d6e6f7071"}
HonestC == {[k |-> i, m |-> m, b |-> SealC(K(i), Nonce(j), m)] : i \in 1..2, j \in 1..2, m \in Ms}

Seed == "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f"
RcO(h, n) == [t |-> "rc", n |-> n, h |-> h, k |-> Seed]
Objs == {[t |-> "prg", k |-> Seed], [t |-> "cipher", k |-> Seed], [t |-> "prf", n |-> 16, k |-> Seed],
         [t |-> "prf", n |-> 17, k |-> Seed], RcO(2, 16), Constrained(RcO(3, 16), "1", "2")}
N(o) == IF Has(o, "n") THEN o.n ELSE 0
HonestW == {[k |-> i, o |-> o, b |-> Wrapped(K(i), Nonce(i), o, Serial(o))] : i \in 1..2, o \in Objs}
Classes == {[t |-> o.t, n |-> N(o)] : o \in Objs} \cup {[t |-> "rc", n |-> 17], [t |-> "cr", n |-> 17]}

VARIABLES kind, b, edits
vars == << kind, b, edits >>
All(x) == IF x = "c" THEN {h.b : h \in HonestC} ELSE {h.b : h \in HonestW}
Init == \E x \in {"c", "w"} : kind = x /\ b \in All(x) /\ edits = 0
L == BLen(b)
Set(i, v) == BCat(BSlice(b, 0, i), BCat(v, BSlice(b, i + 1, L - i - 1)))
(* the first edit is any, the second one of the coarser ones *)
Flip == L > 0 /\ \E i \in 0..(L - 1), m \in (IF edits = 0 THEN {"01", "10", "80"} ELSE {"80"}) :
          b' = Set(i, BXor(BSlice(b, i, 1), m))
Cut == \E n \in {x \in {1, 12, 16, L \div 2, L - 29, L - 1} : x > 0 /\ x < L} :
          b' \in {BSlice(b, 0, L - n), BSlice(b, n, L - n)}
Grow == \E v \in {"00", "ff", BRep("00", 16)} : b' \in {BCat(b, v), BCat(v, b), BCat(BSlice(b, 0, 16), BCat(v, BSlice(b, 16, L - 16)))}
Splice == \E o \in All(kind) : \E n \in {12, 16} : n < L /\ b' \in
            {BCat(BSlice(o, 0, n), BSlice(b, n, L - n)), BCat(BSlice(b, 0, L - n), BSlice(o, BLen(o) - n, n))}
Next == L >= 16 /\ edits < MaxEdits /\ (Flip \/ Cut \/ Grow \/ Splice) /\ edits' = edits + 1 /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars
View == << kind, b >>

Authentic == kind = "c" => \A i \in 1..2 :
    LET p == IF BLen(b) <= 32 THEN "INVALID" ELSE CipherOpen(K(i), b)
    IN  p # "INVALID" <=> \E h \in HonestC : h.k = i /\ h.b = b /\ h.m = p
AuthenticW == kind = "w" => \A i \in 1..2, c \in Classes :
    LET s == IF BLen(b) <= 28 THEN "INVALID" ELSE WrapOpen(K(i), c, b)
    IN  s # "INVALID" <=> \E h \in HonestW : /\ h.k = i /\ h.b = b /\ h.o.t = c.t /\ (c.t \in {"prf", "rc", "cr"} => N(h.o) = c.n)
                                             /\ Serial(h.o) = s /\ Deserial(<< >>, c, s) = h.o

----------------------------------------------------------------------------
S(x) == ToString(x)
Top(h) == 2 ^ (h - 1) - 1
Trees == {<< h, x, y >> \in (2..MaxH) \X (0..Top(MaxH)) \X (0..Top(MaxH)) : x <= y /\ y <= Top(h) /\ ~(x = 0 /\ y = Top(h))}
Cr(t) == Constrained(RcO(t[1], 16), S(t[2]), S(t[3]))
RoundTrip == /\ \A t \in Trees : Deserial(<< >>, [t |-> "cr", n |-> 16], Serial(Cr(t))) = Cr(t)
             /\ \A h \in 1..64 : Deserial(<< >>, [t |-> "rc", n |-> 16], Serial(RcO(h, 16))) = RcO(h, 16)
(* a damaged payload is refused, or stands for a key of other leaves or values *)
Damage(s) == {BSlice(s, 0, n) : n \in 0..(BLen(s) - 1)} \cup {BCat(s, "00")}
             \cup {BCat(BSlice(s, 0, i), BCat(BXor(BSlice(s, i, 1), v), BSlice(s, i + 1, BLen(s) - i - 1)))
                     : i \in 0..(BLen(s) - 1), v \in {"01", "80"}}
WellFormed(o) == /\ Len(o.els) >= 1
                 /\ \A i \in DOMAIN o.els : ElemOk(o.h, o.els[i].sh, o.els[i].min, o.els[i].max)
                 /\ \A i \in 1..(Len(o.els) - 1) : o.els[i + 1].min = NAdd(o.els[i].max, "1")
OnlyObjects == \A t \in {<< 3, 1, 2 >>, << 3, 0, 1 >>, << 4, 1, 6 >>, << 4, 3, 4 >>, << 4, 0, 2 >>} :
    LET s == Serial(Cr(t))
    IN  \A d \in Damage(s) : LET o == Deserial(<< >>, [t |-> "cr", n |-> 16], d)
                             IN  o = Bad \/ (WellFormed(o) /\ o # Cr(t) /\ BLen(d) = BLen(s))
OnlyRoots == \A n \in {0, 1, 32, 34} : Deserial(<< >>, [t |-> "rc", n |-> 16], BRep("07", n)) = Bad
BadHeights == \A h \in {0} \cup 65..255 : Deserial(<< >>, [t |-> "rc", n |-> 16], BCat(BByte(h), Seed)) = Bad
ASSUME RoundTrip /\ OnlyRoots /\ BadHeights
ASSUME OnlyObjects
=============================================================================
