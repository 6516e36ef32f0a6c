------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* The programs a client can write against the toolkit, as a state machine *)
(* over an abstract store: a slot holds an object of some class, which owns *)
(* a secret (identified by a number) or is empty (moved from, consumed,     *)
(* erased).  The machine generates the behaviours that are replayed into    *)
(* the real library; hist is the program so far, a sequence of commands in  *)
(* the vocabulary of module Tk with symbolic arguments:                     *)
(*    "@x/n"     n pseudo-random bytes named x                              *)
(*    "$i"       the output of command i;  "$i~t" the same, damaged in way t *)
(* Checked exhaustively for small constants (the invariants at the end),    *)
(* and simulated for long programs.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Families,     \* which parts of the API the program uses
          SlotNames,    \* the client's variables
          MaxLen,       \* length of the program
          MaxSecrets,   \* distinct secrets created
          Simulate      \* TRUE: parameters are drawn, FALSE: enumerated

VARIABLES store,        \* slot -> [t, n, id, ...]; id = 0: empty
          blobs,        \* ciphertexts and wrapped objects seen
          nsec,         \* secrets created so far
          hist
vars == << store, blobs, nsec, hist >>

Pick(S) == IF Simulate THEN {RandomElement(S)} ELSE S
(* in simulations, ownership actions are taken less often than uses *)
Rare(x) == IF Simulate THEN RandomElement(1..5) = 1 ELSE TRUE
Used == DOMAIN store
Of(t) == {s \in Used : store[s].t = t}
Live(s) == store[s].id # 0
On(f) == f \in Families
Put(s, o) == (s :> o) @@ store
Put2(s, o, d, p) == (d :> p) @@ ((s :> o) @@ store)
Empty(s) == [store[s] EXCEPT !.id = 0]
Add(c) == hist' = Append(hist, c)
At == ToString(Len(hist) + 1)
Bytes(tag, n) == "@" \o tag \o At \o "/" \o ToString(n)
Quiet == UNCHANGED << store, blobs, nsec >>
Room == nsec < MaxSecrets

KeySizes == IF Simulate THEN {16, 32, 32, 48, 64, 112, 128} ELSE IF On("prp") THEN {48} ELSE {32}
MsgSizes == IF Simulate THEN {0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000}
            ELSE {20}
PrfSizes == IF Simulate THEN {1, 12, 16, 32, 33, 48, 64, 65, 100, 128, 129, 264} ELSE {32}

----------------------------------------------------------------------------
(* keys *)
KeyNew == On("key") /\ Room /\ \E s \in Pick(SlotNames), n \in Pick(KeySizes) :
    /\ store' = Put(s, [t |-> "key", n |-> n, id |-> nsec + 1])
    /\ nsec' = nsec + 1
    /\ Add([op |-> "key.new", n |-> n, s |-> s, k |-> Bytes("k", n)])
    /\ UNCHANGED blobs
KeyRand == On("rand") /\ Room /\ \E s \in Pick(SlotNames), n \in Pick(KeySizes) :
    /\ store' = Put(s, [t |-> "key", n |-> n, id |-> nsec + 1])
    /\ nsec' = nsec + 1
    /\ Add([op |-> "key.rand", n |-> n, s |-> s])
    /\ UNCHANGED blobs
KeyErase == On("key") /\ Rare(hist) /\ \E s \in Of("key") :
    /\ store' = Put(s, Empty(s))
    /\ Add([op |-> "key.erase", n |-> store[s].n, s |-> s])
    /\ UNCHANGED << blobs, nsec >>
KeyProbe == On("key") /\ Rare(hist) /\ \E s \in Of("key"), m \in Pick(MsgSizes) :
    /\ store' = Put(s, Empty(s))
    /\ Add([op |-> "key.probe", n |-> store[s].n, s |-> s, m |-> Bytes("m", m)])
    /\ UNCHANGED << blobs, nsec >>
KeyNull == On("misuse") /\ Quiet /\ Add([op |-> "key.null", n |-> 32])

(* the library, initialised again: it keeps no state that an object needs *)
Lib == On("lib") /\ Rare(hist) /\ \E op \in Pick({"lib.again", "lib.twice"}) : Quiet /\ Add([op |-> op])

Drop == On("key") /\ Rare(hist) /\ \E s \in Used :
    /\ store' = [x \in Used \ {s} |-> store[x]]
    /\ Add([op |-> "drop", s |-> s])
    /\ UNCHANGED << blobs, nsec >>

(* moving, for every class *)
MoveOp(t) == CASE t = "key" -> "key.move" [] t = "mac" -> "mac.move" [] t = "prf" -> "prf.move"
               [] t = "prg" -> "prg.move" [] t = "cipher" -> "cipher.move" [] t = "wrapper" -> "wrapper.move"
               [] t = "prp" -> "prp.move" [] t = "rc" -> "rc.move" [] t = "cr" -> "rc.cmove"
AssignOp(t) == CASE t = "key" -> "key.assign" [] t = "mac" -> "mac.assign" [] t = "prf" -> "prf.assign"
                 [] t = "wrapper" -> "wrapper.assign" [] t = "cr" -> "rc.cassign"
Extra(t) == IF t = "mac" THEN [h |-> "b"] ELSE [z |-> 0]
Move == Rare(hist) /\ \E s \in Used, d \in Pick(SlotNames) :
    /\ store[s].t \notin {"set"}
    /\ s # d
    /\ store' = Put2(s, Empty(s), d, store[s])
    /\ Add([op |-> MoveOp(store[s].t), n |-> store[s].n, s |-> s, d |-> d] @@ Extra(store[s].t))
    /\ UNCHANGED << blobs, nsec >>
Assign == Rare(hist) /\ \E s \in Used : \E d \in Used :
    /\ store[s].t \in {"key", "mac", "prf", "wrapper", "cr"}
    /\ store[d].t = store[s].t /\ store[d].n = store[s].n
    /\ store[s].t = "cr" => s # d
    /\ store' = IF s = d THEN store ELSE Put2(s, Empty(s), d, store[s])
    /\ Add([op |-> AssignOp(store[s].t), n |-> store[s].n, s |-> s, d |-> d] @@ Extra(store[s].t))
    /\ UNCHANGED << blobs, nsec >>

----------------------------------------------------------------------------
(* objects made of a key: the key is consumed *)
Holders == ({"mac", "prf", "prg", "cipher", "wrapper", "rc"} \cap Families)
           \cup (IF On("prp") THEN {"prp"} ELSE {})
KeySizeOf(t) == IF t = "prp" THEN 48 ELSE 32
Heights == IF Simulate THEN {1, 2, 3, 4, 5, 8, 17, 33, 64} ELSE {4}
Build == \E k \in Of("key"), t \in Holders, s \in Pick(SlotNames) :
    /\ s # k
    /\ store[k].n = KeySizeOf(t)
    /\ Live(k) \/ t \in {"mac", "prf", "wrapper", "prp"}     \* others: checked when used
    /\ \E n \in (IF t \in {"prf"} THEN Pick(PrfSizes) ELSE IF t = "rc" THEN Pick(IF Simulate THEN {1, 16, 20, 32, 33, 100} ELSE {16, 32}) ELSE {32}),
          h \in (IF t = "rc" THEN Pick(Heights) ELSE {0}) :
        /\ store' = IF Live(k) THEN Put2(k, Empty(k), s, [t |-> t, n |-> n, id |-> store[k].id, h |-> h])
                    ELSE Put(k, Empty(k))
        /\ Add([op |-> t \o ".new", n |-> n, s |-> s, key |-> k, h |-> IF t = "mac" THEN "b" ELSE h])
        /\ UNCHANGED << blobs, nsec >>
BuildRand == On("rand") /\ Room /\ \E t \in Holders \cap {"mac", "prf", "prp"}, s \in Pick(SlotNames) :
    \E n \in (IF t = "prf" THEN Pick(PrfSizes) ELSE {32}) :
        /\ store' = Put(s, [t |-> t, n |-> n, id |-> nsec + 1, h |-> 0])
        /\ nsec' = nsec + 1
        /\ Add([op |-> t \o ".rand", n |-> n, s |-> s, h |-> "b", id |-> "r" \o At])
        /\ UNCHANGED blobs

(* using them *)
MacUse == \E s \in Of("mac"), op \in Pick({"mac.raw", "mac.arr", "mac.str", "mac.rawlen"}), m \in Pick(MsgSizes) :
    Quiet /\ Add([op |-> op, h |-> "b", n |-> store[s].n, s |-> s, m |-> Bytes("m", m),
                  len |-> IF Simulate THEN RandomElement({0, 1, 31, 32, 63, 64, 65, 100}) ELSE 64])
PrfUse == \E s \in Of("prf"), op \in Pick({"prf.raw", "prf.str"}), m \in Pick(MsgSizes) :
    Quiet /\ Add([op |-> op, n |-> store[s].n, s |-> s, m |-> Bytes("m", m)])
PrfKey == Room /\ \E s \in {x \in Of("prf") : store[x].n \in {16, 32, 33, 48, 64, 65, 100, 128}},
                     op \in Pick({"prf.key", "prf.keystr"}),
                     d \in Pick(SlotNames), m \in Pick(MsgSizes) :
    /\ d # s
    /\ store' = IF Live(s) THEN Put(d, [t |-> "key", n |-> store[s].n, id |-> nsec + 1]) ELSE store
    /\ nsec' = IF Live(s) THEN nsec + 1 ELSE nsec
    /\ Add([op |-> op, n |-> store[s].n, s |-> s, d |-> d, m |-> Bytes("m", m)])
    /\ UNCHANGED blobs
Offsets == IF Simulate THEN {"0", "1", "31", "32", "63", "64", "65", "127", "128", "1000", "4095", "65536",
                             "4294967295", "274877906943", "274877906944"} ELSE {"33"}
Lens == IF Simulate THEN {0, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 300} ELSE {40}
PrgUse == \E s \in Of("prg"), op \in Pick({"prg.str", "prg.ret", "prg.raw", "prg.str0", "prg.ret0"}),
             off \in Pick(Offsets), len \in Pick(Lens) :
    Quiet /\ Add([op |-> op, s |-> s, len |-> len,
                  off |-> IF op \in {"prg.str0", "prg.ret0"} THEN "0" ELSE off])
PrgKey == Room /\ \E s \in Of("prg"), n \in Pick({16, 32}), d \in Pick(SlotNames), i \in Pick(0..3) :
    /\ d # s
    /\ store' = IF Live(s) THEN Put(d, [t |-> "key", n |-> n, id |-> nsec + 1]) ELSE store
    /\ nsec' = IF Live(s) THEN nsec + 1 ELSE nsec
    /\ Add([op |-> "prg.key", n |-> n, s |-> s, i |-> i, d |-> d])
    /\ UNCHANGED blobs
(* one-shot derivations: the seed is consumed *)
PrgOnce == On("prg") /\ \E s \in {x \in Of("key") : store[x].n = 32},
              op \in Pick({"prg.sstr", "prg.sret", "prg.sraw", "prg.sstr0", "prg.sret0"}),
              off \in Pick(Offsets), len \in Pick(Lens) :
    /\ store' = Put(s, Empty(s))
    /\ Add([op |-> op, s |-> s, len |-> len, off |-> IF op \in {"prg.sstr0", "prg.sret0"} THEN "0" ELSE off])
    /\ UNCHANGED << blobs, nsec >>
PrgOnceKey == On("prg") /\ Room /\ \E s \in {x \in Of("key") : store[x].n = 32}, n \in Pick({16, 32}),
                     d \in Pick(SlotNames), i \in Pick(0..3) :
    /\ d # s
    /\ store' = IF Live(s) THEN Put2(s, Empty(s), d, [t |-> "key", n |-> n, id |-> nsec + 1]) ELSE store
    /\ nsec' = IF Live(s) THEN nsec + 1 ELSE nsec
    /\ Add([op |-> "prg.skey", n |-> n, s |-> s, i |-> i, d |-> d])
    /\ UNCHANGED blobs

(* ciphers *)
CipherEnc == \E s \in Of("cipher"), op \in Pick({"cipher.enc", "cipher.encalias"}), m \in Pick(MsgSizes) :
    /\ blobs' = IF Live(s) /\ m > 0 THEN Append(blobs, [at |-> Len(hist) + 1, t |-> "ct", k |-> store[s].id]) ELSE blobs
    /\ Add([op |-> op, s |-> s, m |-> Bytes("m", m)])
    /\ UNCHANGED << store, nsec >>
Damages == {"", "", "bit", "nonce", "tag", "cut", "cut1", "ext", "swap", "zero"}
Damaged(b, dmg) == "$" \o ToString(b.at) \o (IF dmg = "" THEN "" ELSE "~" \o dmg)
CipherDec == \E s \in Of("cipher"), op \in Pick({"cipher.dec", "cipher.decalias"}),
                b \in {i \in DOMAIN blobs : blobs[i].t = "ct"}, dmg \in Pick(Damages) :
    Quiet /\ Add([op |-> op, s |-> s, ct |-> Damaged(blobs[b], dmg)])

(* wrappers *)
Wrappable == {"cipher", "prf", "prg", "prp", "rc", "cr"}
DriverType(t, n) == CASE t = "prf" -> "prf" \o ToString(n) [] t = "rc" -> "rcprf" \o ToString(n)
                      [] t = "cr" -> "crcprf" \o ToString(n) [] OTHER -> t
WrapPrf == {1, 12, 16, 32, 33, 64, 65, 128}
Wrap == \E w \in Of("wrapper"), o \in UNION {Of(t) : t \in Wrappable} :
    /\ store[o].t = "prf" => store[o].n \in WrapPrf
    /\ store[o].t = "cr" => Live(o)
    /\ blobs' = IF Live(w) /\ Live(o)
                THEN Append(blobs, [at |-> Len(hist) + 1, t |-> store[o].t, n |-> store[o].n, k |-> store[w].id,
                                    o |-> store[o]])
                ELSE blobs
    /\ Add([op |-> "wrapper.wrap", s |-> w, ty |-> DriverType(store[o].t, store[o].n), t |-> store[o].t,
            n |-> store[o].n, o |-> o])
    /\ UNCHANGED << store, nsec >>
Unwrap == \E w \in Of("wrapper"), b \in {i \in DOMAIN blobs : blobs[i].t # "ct"}, dmg \in Pick(Damages),
             t \in (IF Simulate THEN Pick(Wrappable \cup {"same"}) ELSE {"same", "prf", "prg"}), d \in Pick(SlotNames) :
    /\ d # w
    /\ LET bb == blobs[b]
           ty == IF t = "same" THEN bb.t ELSE t
           n  == IF t = "same" THEN bb.n ELSE IF Simulate THEN RandomElement({16, 32}) ELSE 16
           good == Live(w) /\ dmg = "" /\ store[w].id = bb.k /\ bb.t = ty
                   /\ (ty \in {"prf", "rc", "cr"} => bb.n = n)
       IN  /\ store' = IF good THEN Put(d, bb.o) ELSE store
           /\ Add([op |-> "wrapper.unwrap", s |-> w, ty |-> DriverType(ty, n), t |-> ty, n |-> n,
                   blob |-> Damaged(bb, dmg), d |-> d])
    /\ UNCHANGED << blobs, nsec >>

(* permutations *)
PrpUse == \E s \in Of("prp"), op \in Pick({"prp.encstr", "prp.encret", "prp.encalias", "prp.encraw",
                                           "prp.decstr", "prp.decret", "prp.decalias", "prp.decraw"}),
             m \in Pick(IF Simulate THEN MsgSizes \ {0} ELSE {16}), again \in Pick({TRUE, FALSE}) :
    Quiet /\ Add([op |-> op, s |-> s,
                  m |-> IF again THEN "@p" \o ToString(m) \o "/" \o ToString(m) ELSE Bytes("m", m)])

(* trees *)
RcEval == \E s \in Of("rc"), l \in Pick(0..9) :
    Quiet /\ Add([op |-> "rc.eval", n |-> store[s].n, s |-> s, l |-> "%leaf" \o ToString(l)])
RcRange == \E s \in Of("rc"), l \in Pick(0..9) :
    Quiet /\ Add([op |-> "rc.range", n |-> store[s].n, s |-> s, lo |-> "%lo" \o ToString(l), hi |-> "%hi"])
RcConstrain == \E s \in {x \in Of("rc") : Live(x)}, l \in Pick(0..9), d \in Pick(SlotNames) :
    /\ d # s /\ store[s].h > 1
    /\ store' = Put(d, [t |-> "cr", n |-> store[s].n, id |-> store[s].id, h |-> store[s].h])
    /\ Add([op |-> "rc.constrain", n |-> store[s].n, s |-> s, lo |-> "%clo" \o ToString(l), hi |-> "%hi", d |-> d])
    /\ UNCHANGED << blobs, nsec >>
CrUse == \E s \in {x \in Of("cr") : Live(x)}, l \in Pick(0..9), op \in Pick({"rc.ceval", "rc.crange", "rc.cinfo"}) :
    Quiet /\ Add([op |-> op, n |-> store[s].n, s |-> s, l |-> "%leaf" \o ToString(l),
                  lo |-> "%lo" \o ToString(l), hi |-> "%hi"])
CrConstrain == \E s \in {x \in Of("cr") : Live(x)}, l \in Pick(0..9), d \in Pick(SlotNames) :
    /\ d # s
    /\ store' = Put(d, store[s])
    /\ Add([op |-> "rc.cconstrain", n |-> store[s].n, s |-> s, lo |-> "%dlo" \o ToString(l), hi |-> "%hi", d |-> d])
    /\ UNCHANGED << blobs, nsec >>

(* set hashes: abstractly, a signed multiset of elements *)
Elements == IF Simulate THEN 1..12 ELSE 1..2
ElemName(x) == "@e" \o ToString(x) \o "/" \o ToString(IF Simulate THEN (x * 37) % 200 ELSE 3 * x)
ZeroBag == [x \in Elements |-> 0]
Bag(s) == store[s].bag
Bounded(b) == Simulate \/ \A x \in Elements : b[x] \in -2..2
SetObj(b) == [t |-> "set", n |-> 0, id |-> 0, bag |-> b]
BagPlus(b, c)  == [x \in Elements |-> b[x] + c[x]]
BagMinus(b, c) == [x \in Elements |-> b[x] - c[x]]
RECURSIVE BagOf(_)
BagOf(xs) == IF xs = << >> THEN ZeroBag ELSE BagPlus([x \in Elements |-> IF x = Head(xs) THEN 1 ELSE 0], BagOf(Tail(xs)))
Vectors == IF Simulate THEN {[i \in 1..RandomElement(0..8) |-> RandomElement(Elements)]}
           ELSE {<< >>} \cup {<< x >> : x \in Elements} \cup {<< x, y >> : x, y \in Elements}
SetStore(s, b, c) == /\ Bounded(b)
                     /\ store' = Put(s, SetObj(b))
                     /\ Add(c)
                     /\ UNCHANGED << blobs, nsec >>
SetNew == On("set") /\ Rare(hist) /\ \E s \in Pick(SlotNames) : SetStore(s, ZeroBag, [op |-> "set.new", s |-> s])
SetVec == On("set") /\ Rare(hist) /\ \E s \in Pick(SlotNames), xs \in Vectors :
    SetStore(s, BagOf(xs), [op |-> "set.vec", s |-> s, xs |-> [i \in DOMAIN xs |-> ElemName(xs[i])]])
SetElem == On("set") /\ \E s \in Of("set"), x \in Pick(Elements), op \in Pick({"set.add", "set.rem"}) :
    SetStore(s, [Bag(s) EXCEPT ![x] = IF op = "set.add" THEN @ + 1 ELSE @ - 1],
             [op |-> op, s |-> s, x |-> ElemName(x)])
SetSet == On("set") /\ \E s \in Of("set"), a \in Of("set"), op \in Pick({"set.addset", "set.remset"}) :
    SetStore(s, IF op = "set.addset" THEN BagPlus(Bag(s), Bag(a)) ELSE BagMinus(Bag(s), Bag(a)),
             [op |-> op, s |-> s, a |-> a])
SetCopy == On("set") /\ \E s \in Pick(SlotNames), a \in Of("set"), op \in Pick({"set.copy", "set.movector"}) :
    SetStore(s, Bag(a), [op |-> op, s |-> s, a |-> a])
SetAssign == On("set") /\ \E s \in Of("set"), a \in Of("set") :
    SetStore(s, Bag(a), [op |-> "set.assign", s |-> s, a |-> a])
SetEq == On("set") /\ \E s \in Of("set"), a \in Of("set") :
    Quiet /\ Add([op |-> "set.eq", s |-> s, a |-> a, same |-> Bag(s) = Bag(a)])
SetPrint == On("set") /\ Rare(hist) /\ \E s \in Of("set") : Quiet /\ Add([op |-> "set.print", s |-> s])
SetBytes == On("set") /\ \E s \in Pick(SlotNames), a \in Of("set") :     \* through the bytes of another
    \E i \in {j \in DOMAIN hist : j = Len(hist) /\ hist[j].op \in {"set.add", "set.rem", "set.addset", "set.remset"}
                                 /\ hist[j].s = a} :
    SetStore(s, Bag(a), [op |-> "set.bytes", s |-> s, m |-> "$" \o ToString(i)])

----------------------------------------------------------------------------
Init == store = << >> /\ blobs = << >> /\ nsec = 0 /\ hist = << >>
Next ==
    /\ Len(hist) < MaxLen
    /\ \/ KeyNew \/ KeyRand \/ KeyErase \/ KeyProbe \/ KeyNull \/ Lib \/ Drop \/ Move \/ Assign
       \/ Build \/ BuildRand
       \/ MacUse \/ PrfUse \/ PrfKey \/ PrgUse \/ PrgKey \/ PrgOnce \/ PrgOnceKey
       \/ CipherEnc \/ CipherDec \/ Wrap \/ Unwrap \/ PrpUse
       \/ RcEval \/ RcRange \/ RcConstrain \/ CrUse \/ CrConstrain
       \/ SetNew \/ SetVec \/ SetElem \/ SetSet \/ SetCopy \/ SetAssign \/ SetEq \/ SetPrint \/ SetBytes
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Ownership: a secret that was never wrapped or constrained is owned by at *)
(* most one object; an object only ever owns a secret that was created.     *)
Copied == {blobs[i].o.id : i \in {j \in DOMAIN blobs : blobs[j].t # "ct"}}
          \cup {store[s].id : s \in Of("cr")}
SingleOwner == \A s, d \in Used : s # d /\ Live(s) /\ store[s].id = store[d].id => store[s].id \in Copied
Provenance == \A s \in Used : store[s].id \in 0..nsec
(* a blob is only ever opened into the object it was made from *)
RoundTrip == \A i \in DOMAIN blobs : blobs[i].k \in 1..nsec

View == << store, blobs, nsec >>
Short == Len(hist) <= MaxLen
(* every transition is reported (the shortest program that reaches it) *)
Report == PrintT("GEN " \o ToJson(hist'))
(* in simulation only complete programs are *)
ReportEnd == Len(hist) = MaxLen => PrintT("GEN " \o ToJson(hist))
=============================================================================
