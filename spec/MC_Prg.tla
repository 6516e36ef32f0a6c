------------------------------- MODULE MC_Prg -------------------------------
(***************************************************************************)
(* The stream of a seed, on the operators of module PrgSpec: two readers    *)
(* walk along it in steps of any of the given lengths, from every starting   *)
(* point (around block boundaries, 32-bit block numbers and 32-bit offsets). *)
(* What a reader has read is the window it has passed, however it was cut    *)
(* (Composition); where the readers overlap they agree (Agreement).  A       *)
(* third party derives keys: the i-th one is the i-th slice of the stream    *)
(* (Slices), keys of one size are disjoint windows and pairwise different    *)
(* (Disjoint), a batch is its singles, and a derived key seeds a stream of   *)
(* its own (Fork).                                                          *)
(***************************************************************************)
EXTENDS PrgSpec
CONSTANTS Starts, Steps, Far, KeySizes, MaxIdx

Seed(i) == BRep(BByte(i), 32)
VARIABLES base, pa, ra, pb, rb
vars == << base, pa, ra, pb, rb >>
At(p) == NAdd(base, ToString(p))
Init == base \in Starts /\ pa = 0 /\ ra = "" /\ pb = 0 /\ rb = ""
ReadA == \E n \in Steps : /\ pa + n <= Far /\ pa' = pa + n
                          /\ ra' = BCat(ra, Stream(Seed(1), At(pa), n)) /\ UNCHANGED << base, pb, rb >>
ReadB == \E n \in Steps : /\ pb + n <= Far /\ pb' = pb + n
                          /\ rb' = BCat(rb, Stream(Seed(1), At(pb), n)) /\ UNCHANGED << base, pa, ra >>
Next == ReadA \/ ReadB
Spec == Init /\ [][Next]_vars

Composition == BLen(ra) = pa /\ ra = Stream(Seed(1), base, pa)
Agreement == LET n == IF pa < pb THEN pa ELSE pb IN BSlice(ra, 0, n) = BSlice(rb, 0, n)

Idx == 0..MaxIdx
O(i) == [t |-> "prg", k |-> Seed(i)]
K(K0, i) == DerivedKey(O(1), K0, i, "").k
Slices == \A z \in KeySizes : \A i \in Idx :
    K(z, i) = BSlice(Stream(Seed(1), "0", z * (MaxIdx + 1)), z * i, z)
Disjoint == \A z \in KeySizes : \A i, j \in Idx : i # j => K(z, i) # K(z, j)
Batch == \A z \in KeySizes : \A lo \in {0, 1, MaxIdx - 3} :
    LET s == PutKeys([x \in {"#ids"} |-> << >>], O(1), [op |-> "prg.keys", n |-> z, i |-> lo, count |-> 3, d |-> "k"])
    IN  \A j \in 0..2 : s["k" \o ToString(j)].k = K(z, lo + j)
Seeds == \A off \in Starts : Stream(Seed(1), off, 40) # Stream(Seed(2), off, 40)
Fork == \A i, j \in 0..3 : i # j => Stream(K(32, i), "0", 32) # Stream(K(32, j), "0", 32)
ASSUME Slices /\ Disjoint /\ Batch /\ Seeds /\ Fork
=============================================================================
