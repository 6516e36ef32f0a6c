------------------------------- MODULE MC_Mac -------------------------------
(***************************************************************************)
(* Keyed functions as objects, on the operators of module Mac and the       *)
(* transitions of module Tk: a client creates, moves, assigns, erases and   *)
(* uses macs and prfs in every order.  In every state:                      *)
(*  - what an object answers is a function of its key and the message alone *)
(*    (Functional: the answer equals the one recorded when key and message  *)
(*    first met, whatever happened since)                                   *)
(*  - different (key, message) pairs have different answers (Separated)     *)
(*  - shorter outputs of up to a digest are prefixes, longer ones have       *)
(*    pairwise different blocks (Prefixes, Blocks)                          *)
(*  - a key has at most one owner (OneOwner)                                *)
(***************************************************************************)
EXTENDS Tk
CONSTANTS Keys, Msgs, Slot, Sizes

KeyBytes(i) == BRep(BByte(16 + i), 32)
Msg(i) == BRep(BByte(i), i * 21)
VARIABLES st, seen
vars == << st, seen >>

Used == Slots(st)
Fill == {i \in Keys : \A s \in Used : st[s].k # KeyBytes(i)}
Do(c) == st' = StoreAfter(st, c, [e |-> Resp(st, c, OkNil).e])
Init == st = EmptyStore /\ seen = << >>
New == \E s \in Slot, i \in Fill : Do([op |-> "key.new", n |-> 32, s |-> s, k |-> KeyBytes(i)]) /\ UNCHANGED seen
Of(t) == {s \in Used : st[s].t = t}
Make == \E t \in {"mac", "prf"}, k \in Of("key"), s \in Slot, n \in Sizes :
    /\ s # k
    /\ IF t = "mac" THEN n = 32 /\ Do([op |-> "mac.new", h |-> "b", n |-> 32, s |-> s, key |-> k])
       ELSE Do([op |-> "prf.new", n |-> n, s |-> s, key |-> k])
    /\ UNCHANGED seen
Move == \E s \in Used, d \in Slot : /\ s # d
                                    /\ Do([op |-> st[s].t \o ".move", n |-> 32, h |-> "b", s |-> s, d |-> d])
                                    /\ UNCHANGED seen
Assign == \E s, d \in Used : /\ st[s].t = st[d].t /\ (st[s].t = "prf" => st[s].n = st[d].n)
                             /\ Do([op |-> st[s].t \o ".assign", n |-> 32, h |-> "b", s |-> s, d |-> d])
                             /\ UNCHANGED seen
Erase == \E s \in Of("key") : Do([op |-> "key.erase", n |-> 32, s |-> s]) /\ UNCHANGED seen
Reply(s, m) == IF st[s].t = "mac" THEN Resp(st, [op |-> "mac.raw", s |-> s, m |-> Msg(m)], OkNil)
                ELSE Resp(st, [op |-> "prf.raw", s |-> s, m |-> Msg(m)], OkNil)
Name(s) == IF st[s].t = "mac" THEN 0 ELSE st[s].n
Next == New \/ Make \/ Move \/ Assign \/ Erase
Spec == Init /\ [][Next]_vars

Live == {s \in Used : st[s].k # Absent /\ st[s].t # "key"}
ValueFor(i, n, m) == IF n = 0 THEN Hmac("b", KeyBytes(i), Msg(m)) ELSE PrfValue(KeyBytes(i), n, Msg(m))
Functional == \A s \in Live, m \in Msgs : \E i \in Keys :
    st[s].k = KeyBytes(i) /\ Reply(s, m) = Ok([out |-> ValueFor(i, Name(s), m)])
Silent == \A s \in Used \ Live, m \in Msgs : st[s].t # "key" => Reply(s, m).e # "ok"
OneOwner == \A s, d \in Used : s # d /\ st[s].k = st[d].k => st[s].k = Absent

(* facts about the functions themselves *)
AllNames == {0} \cup Sizes
Separated == \A n \in {x \in AllNames : x = 0 \/ x >= 16} : \A i, j \in Keys, a, b \in Msgs :
    ValueFor(i, n, a) = ValueFor(j, n, b) => i = j /\ a = b
Prefixes == \A i \in Keys, m \in Msgs, n \in {x \in Sizes : x <= 64} : ValueFor(i, n, m) = BSlice(ValueFor(i, 0, m), 0, n)
Blocks == \A i \in Keys, m \in Msgs, n \in {x \in Sizes : x > 64} :
    LET v == ValueFor(i, n, m)
        B == n \div 64
    IN  /\ BLen(v) = n
        /\ \A a, b \in 0..(B - 1) : a # b => BSlice(v, 64 * a, 64) # BSlice(v, 64 * b, 64)
        /\ ValueFor(i, 64, m) # BSlice(v, 0, 64)       \* one size tells nothing of another
ASSUME Separated /\ Prefixes /\ Blocks
=============================================================================
