------------------------------- MODULE MC_Str -------------------------------
(***************************************************************************)
(* Bounded search, on FirstIn of module Tk: a scanner looks at one byte of   *)
(* the haystack after the other, never beyond the bound, and stops at the    *)
(* first place where the whole needle fits; it finds what FirstIn says, for  *)
(* every haystack and needle over a two-letter alphabet.                    *)
(***************************************************************************)
EXTENDS Tk
CONSTANTS MaxHay, MaxNeedle
Letters == {"61", "62"}
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {""} ELSE {BCat(w, l) : w \in Words(n - 1), l \in Letters}
UpTo(n) == UNION {Words(k) : k \in 0..n}
VARIABLES hay, needle, at, matched, found, read
vars == << hay, needle, at, matched, found, read >>
Init == /\ hay \in UpTo(MaxHay) /\ needle \in UpTo(MaxNeedle)
        /\ at = 0 /\ matched = 0 /\ found = -2 /\ read = 0
Byte(s, i) == BSlice(s, i, 1)
Scan == /\ found = -2
        /\ IF matched = BLen(needle) THEN found' = at /\ UNCHANGED << at, matched, read >>
           ELSE IF at + BLen(needle) > BLen(hay) THEN found' = -1 /\ UNCHANGED << at, matched, read >>
           ELSE /\ read' = (IF at + matched + 1 > read THEN at + matched + 1 ELSE read)
                /\ IF Byte(hay, at + matched) = Byte(needle, matched)
                   THEN matched' = matched + 1 /\ at' = at
                   ELSE matched' = 0 /\ at' = at + 1
                /\ found' = found
        /\ UNCHANGED << hay, needle >>
Spec == Init /\ [][Scan]_vars
Agrees == found # -2 => found = FirstIn(hay, needle)
InBounds == read <= BLen(hay)
First == found >= 0 => \A i \in 0..(found - 1) : ~OccursAt(hay, needle, i)
=============================================================================
