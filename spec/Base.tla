------------------------------- MODULE Base -------------------------------
(***************************************************************************)
(* Vocabulary shared by the component specifications.                      *)
(*                                                                         *)
(* The state of the system is the store: a function from slot names (the   *)
(* variables of the client program) to objects.  A command is a record c   *)
(* with a field op; a response is a record r with a field e ("ok" or the   *)
(* class of the exception that escaped).  Every component module defines   *)
(*                                                                         *)
(*   xResp(st, c, r)   the response the specification requires.  r is the  *)
(*                     observed response; it is only consulted for the     *)
(*                     values the implementation is free to choose (nonces *)
(*                     and generated keys)                                 *)
(*   xNext(st, c, r)   the store after the command                         *)
(*                                                                         *)
(* Secrets are byte strings.  Absent ("none") is the content of a key that *)
(* was moved from, consumed or erased; "?i" is the content of a key the     *)
(* library drew at random and never disclosed; Unknown an undisclosed       *)
(* RSA modulus.                                                            *)
(***************************************************************************)
EXTENDS Prims, Integers, FiniteSets, TLC

Absent  == "none"
Unknown == "unknown"

Ok(f)  == [e |-> "ok"] @@ f
OkNil  == [e |-> "ok"]
Err(x) == [e |-> x]
AnyErr == [e |-> "*"]              \* some exception, of any class

Guard8 == "eeeeeeeeeeeeeeee"       \* the canary behind an output buffer
Previous == "70726576696f7573"     \* "previous": what an output held before

Has(f, x) == x \in DOMAIN f
Put(st, s, o)  == (s :> o) @@ st

(* r has every field the specification fixes, with the required value *)
Matches(r, x) ==
    /\ r.e \notin {"CRASH", "HANG", "GARBLED"}
    /\ IF x.e = "*" THEN r.e # "ok" ELSE r.e = x.e
    /\ \A f \in DOMAIN x \ {"e"} : Has(r, f) /\ r[f] = x[f]

Del(st, s)     == [x \in DOMAIN st \ {s} |-> st[x]]

Key(n, k)  == [t |-> "key", n |-> n, k |-> k]
IsAbsent(o)  == o.k = Absent
IsKnown(o)   == o.k # Absent /\ ~BUnknown(o.k)
(* the name of the next undisclosed key: unknown keys are told apart *)
NewUnknown(st) == "?" \o ToString(Cardinality(DOMAIN st["#ids"]))
NoteId(st, k)  == IF BUnknown(k) THEN Put(st, "#ids", (k :> 1) @@ st["#ids"]) ELSE st
Emptied(o)   == [o EXCEPT !.k = Absent]

IsZero(b) == b = BRep("00", BLen(b))

RECURSIVE CatAll(_)
CatAll(s) == IF s = <<>> THEN "" ELSE BCat(Head(s), CatAll(Tail(s)))
=============================================================================
