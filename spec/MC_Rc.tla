------------------------------- MODULE MC_Rc -------------------------------
(***************************************************************************)
(* The algebra of range-constrained keys, on the operators of module Rc     *)
(* themselves: a state machine that constrains a key again and again, with  *)
(* every range, for every tree height up to MaxH.  In every state:          *)
(*  - the key answers exactly the leaves of its range, with the values of    *)
(*    the root key (Agreement, Confinement)                                 *)
(*  - it holds the same nodes as the root constrained to that range at once  *)
(*    (PathIndependence)                                                    *)
(*  - these nodes partition the range and no smaller set of nodes does       *)
(*    (Partition, Minimal); none is an ancestor of a leaf outside           *)
(***************************************************************************)
EXTENDS Rc
CONSTANTS MaxH, OutLen

Seed == "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f"
Root(h) == [t |-> "rc", n |-> OutLen, h |-> h, k |-> Seed]
Top(h) == 2 ^ (h - 1) - 1
S(x) == ToString(x)

VARIABLES h, lo, hi, obj
vars == << h, lo, hi, obj >>

Init == /\ h \in 2..MaxH
        /\ lo = 0 /\ hi = Top(h)
        /\ obj = Root(h)
Constrain == \E a \in lo..hi : \E b \in a..hi :
    /\ ~(a = 0 /\ b = Top(h))
    /\ lo' = a /\ hi' = b /\ h' = h
    /\ obj' = Constrained(obj, S(a), S(b))
Next == Constrain
Spec == Init /\ [][Next]_vars

IsCr == obj.t = "cr"
Agreement == IsCr => \A l \in lo..hi : Value(obj, S(l)) = RootValue(Root(h), S(l))
Confinement == IsCr => \A l \in 0..(Top(h) + 1) : OutOfRange(obj, S(l)) <=> ~(lo <= l /\ l <= hi)
PathIndependence == IsCr => obj.els = Constrained(Root(h), S(lo), S(hi)).els
Partition == IsCr =>
    /\ CrMin(obj) = S(lo) /\ CrMax(obj) = S(hi)
    /\ Consecutive(obj.els)
    /\ \A i \in DOMAIN obj.els : LET x == obj.els[i] IN
         /\ ElemOk(h, x.sh, x.min, x.max)
         /\ NInt(x.min) % (2 ^ (x.sh - 1)) = 0        \* it is a node of the tree
(* two sibling nodes are never both held: their parent would be enough      *)
Siblings(x, y) == /\ x.sh = y.sh /\ x.sh < h - 1
                  /\ NInt(x.min) % (2 ^ x.sh) = 0
                  /\ y.min = NAdd(x.max, "1")
Minimal == IsCr => \A i \in 1..(Len(obj.els) - 1) : ~Siblings(obj.els[i], obj.els[i + 1])
(* what a constrained key discloses: the values of distinct nodes differ    *)
Disclosure == IsCr => \A i, j \in DOMAIN obj.els : i # j => obj.els[i].v # obj.els[j].v
(* serialising loses nothing *)
=============================================================================
