------------------------------- MODULE MC_Set -------------------------------
(***************************************************************************)
(* The set hash as a function of the signed multiset, on the operators of   *)
(* module Perm themselves: a machine that adds and removes elements and     *)
(* sets in any order.  The value depends on the multiset alone (so the      *)
(* order of the additions and cancelled pairs do not matter), different     *)
(* multisets have different values, and removal undoes addition.            *)
(***************************************************************************)
EXTENDS Perm
CONSTANTS Elems, Bound

Name(x) == BRep(BByte(x), 3 * x)
VARIABLES bag, pt, other, opt
vars == << bag, pt, other, opt >>
Bags == [Elems -> -Bound..Bound]
Zero == [x \in Elems |-> 0]

RECURSIVE Times(_, _)
Times(p, n) == IF n = 0 THEN Infinity ELSE EdAdd(p, Times(p, n - 1))
Signed(p, n) == IF n >= 0 THEN Times(p, n) ELSE EdNeg(Times(p, -n))
RECURSIVE ValueOf(_, _)
ValueOf(b, S) == IF S = {} THEN Infinity
                 ELSE LET x == CHOOSE y \in S : TRUE
                      IN  EdAdd(Signed(ElemPoint(Name(x)), b[x]), ValueOf(b, S \ {x}))

Init == bag = Zero /\ pt = Infinity /\ other = Zero /\ opt = Infinity
In(b) == b \in Bags
Plus(b, c) == [x \in Elems |-> b[x] + c[x]]
Minus(b, c) == [x \in Elems |-> b[x] - c[x]]
AddE == \E x \in Elems : /\ bag' = [bag EXCEPT ![x] = @ + 1] /\ In(bag')
                         /\ pt' = PlusE(pt, Name(x)) /\ UNCHANGED << other, opt >>
RemE == \E x \in Elems : /\ bag' = [bag EXCEPT ![x] = @ - 1] /\ In(bag')
                         /\ pt' = MinusE(pt, Name(x)) /\ UNCHANGED << other, opt >>
AddS == /\ bag' = Plus(bag, other) /\ In(bag')
        /\ pt' = EdAdd(pt, opt) /\ UNCHANGED << other, opt >>
RemS == /\ bag' = Minus(bag, other) /\ In(bag')
        /\ pt' = EdAdd(pt, EdNeg(opt)) /\ UNCHANGED << other, opt >>
Swap == bag' = other /\ pt' = opt /\ other' = bag /\ opt' = pt
Copy == other' = bag /\ opt' = pt /\ UNCHANGED << bag, pt >>
Next == AddE \/ RemE \/ AddS \/ RemS \/ Swap \/ Copy
Spec == Init /\ [][Next]_vars

PathIndependence == pt = ValueOf(bag, Elems)
Injective == (pt = opt) <=> (bag = other)
Valid == pt = Infinity \/ EdValid(pt)
EmptyIsInfinity == (bag = Zero) <=> (pt = Infinity)
=============================================================================
