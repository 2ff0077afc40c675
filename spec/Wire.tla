-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The system as a whole: a sender encodes values, the bytes travel and    *)
(* may be tampered with on the way, a receiver decodes them.  Words have W *)
(* bytes; with W = 2 the state space is small enough to visit it all, with *)
(* W = 32 the same behaviours are generated for replay into the library.   *)
(*                                                                         *)
(*   Send      values of some types are chosen and encoded                 *)
(*   Tamper    one word or byte is overwritten, or the wire cut or extended *)
(*   Receive   strict and lenient decoding of what arrived                 *)
(***************************************************************************)
EXTENDS Codec, FiniteSets, Json, IOUtils

CONSTANTS Depth,     \* 1: leaves and one level of containers, 2: two levels
          Tampers,   \* how many times the wire may be tampered with
          Flaw,      \* "none", or the mistake put in on purpose (negative controls)
          Gen        \* TRUE: print behaviours instead of checking them

VARIABLES ts, as, wire, ops,
          res,       \* what strict and lenient decoding make of the wire as it is now
          got        \* received
vars == <<ts, as, wire, ops, res, got>>

(*------------------------------- universe --------------------------------*)
U8 == [k |-> "uint", n |-> 8]     I8 == [k |-> "int", n |-> 8]
OO == [k |-> "bool"]              B1 == [k |-> "bytesN", n |-> 1]
YY == [k |-> "bytes"]             SS == [k |-> "string"]
Arr(t, n) == [k |-> "arr", t |-> t, n |-> n]
Tup(c) == [k |-> "tup", c |-> c]

Wide == IF W < 32 THEN {} ELSE
  {[k |-> "address"], [k |-> "uint", n |-> 256], [k |-> "int", n |-> 256], [k |-> "bytesN", n |-> 32],
   [k |-> "fixed", n |-> 8, p |-> 1], [k |-> "ufixed", n |-> 128, p |-> 18]}
Leaves == {U8, I8, OO, B1, YY, SS} \cup Wide
Pair == {U8, YY}
Level1 == {Arr(t, n) : t \in Leaves, n \in {-1, 2}} \cup {Arr(YY, 1), Arr(U8, 1)}
          \cup {Tup(<<t>>) : t \in {U8, YY, SS}} \cup {Tup(<<t, u>>) : t, u \in Pair}
Inner == {Arr(U8, -1), Arr(YY, -1), Arr(U8, 2), Arr(YY, 2), Tup(<<U8, U8>>), Tup(<<U8, YY>>), Tup(<<YY>>)}
Level2 == {Arr(t, n) : t \in Inner, n \in {-1, 2}} \cup {Tup(<<t>>) : t \in Inner}
          \cup {Tup(<<t, u>>) : t \in Inner, u \in Pair} \cup {Tup(<<u, t>>) : t \in Inner, u \in Pair}
TypeLists ==
  LET single == Leaves \cup Level1 \cup (IF Depth >= 2 THEN Level2 ELSE {})
  IN {<<t>> : t \in single}
     \cup {<<t, u>> : t, u \in Pair \cup (IF Depth >= 2 THEN Inner ELSE {Tup(<<U8, U8>>), Arr(U8, 2), Arr(YY, -1)})}
     \cup {<<>>}

Nat1(i) == NatOfInt(i)
RECURSIVE Vals(_), Some(_)
\* a few abstract values of type t, extremes included
Vals(t) ==
  CASE t.k \in {"uint", "ufixed"} -> {Num0(0, Nat1(0)), Num0(0, Nat1(2)), Num0(0, MaxNat(t.n \div 8, 0))}
    [] t.k \in {"int", "fixed"} -> {Num0(0, Nat1(0)), Num0(1, HalfNat(t.n \div 8)), Num0(1, Nat1(1)), Num0(0, MaxNat(t.n \div 8, 1))}
    [] t.k = "bool" -> {0, 1}
    [] t.k = "address" -> {Rep(0, 20), <<255>> \o Rep(1, 19)}
    [] t.k = "bytesN" -> {Rep(0, t.n), <<7>> \o Rep(0, t.n - 1), Rep(255, t.n)}
    [] t.k = "bytes" -> {<<>>, <<0>>, Rep(1, W), Rep(2, W + 1)}
    [] t.k = "string" -> {<<>>, <<97>>, <<195, 169>>, <<97, 226, 130, 172>>}
    [] t.k = "arr" ->
         LET few == Some(t.t)
         IN IF t.n = -1 THEN {<<>>} \cup {<<x>> : x \in few} \cup {<<x, y>> : x, y \in few}
            ELSE IF t.n = 1 THEN {<<x>> : x \in few} ELSE {<<x, y>> : x, y \in few}
    [] t.k = "tup" -> IF Len(t.c) = 1 THEN {<<x>> : x \in Vals(t.c[1])}
                      ELSE {<<x, y>> : x \in Some(t.c[1]), y \in Some(t.c[2])}
\* two of them
Some(t) == LET V == Vals(t)
               a == CHOOSE x \in V : TRUE
           IN IF Cardinality(V) = 1 THEN V ELSE {a, CHOOSE x \in V : x # a}
ValueLists(l) == IF Len(l) = 0 THEN {<<>>} ELSE IF Len(l) = 1 THEN {<<x>> : x \in Vals(l[1])}
                 ELSE {<<x, y>> : x \in Some(l[1]), y \in Some(l[2])}

(*------------------------------ the two ends -----------------------------*)
\* negative controls for the sender
FlawedItems(l, a) ==
  LET n == Len(l)
      body == TLCEval([j \in 1..n |-> Enc(l[j], a[j])])
      headLen == W * n                                   \* static items taken for one word
      tails == TLCEval([j \in 1..n |-> IF Dynamic(l[j]) THEN body[j] ELSE <<>>])
      offs == FoldLeft(LAMBDA acc, x : Append(acc, acc[Len(acc)] + Len(x)), <<headLen>>, tails)
  IN Concat(TLCEval([j \in 1..n |-> IF Dynamic(l[j]) THEN Word(offs[j]) ELSE body[j]])) \o Concat(tails)
Encoded(l, a) == IF Flaw = "headlen" THEN FlawedItems(l, a)
                 ELSE LET e == EncItems(l, a)
                      IN IF Flaw = "nopad" /\ Len(l) = 1 /\ l[1].k = "bytes"
                         THEN SubSeq(e, 1, Len(e) - (CeilW(Len(a[1])) - Len(a[1]))) ELSE e
Decoded(l, b, strict) ==
  IF Flaw = "short"                                      \* missing bytes read as zeros
  THEN DecTop(l, b \o Rep(0, 4 * W), strict)
  ELSE IF Flaw = "whole" /\ Len(b) % (2 * W) = 0 THEN DecTop(l, SubSeq(b, W + 1, Len(b)), strict)
  ELSE IF Flaw = "lax" THEN DecTop(l, b, FALSE)             \* padding never looked at
  ELSE IF Flaw = "swap" THEN DecTop(l, b, ~strict)
  ELSE IF Flaw = "raw" /\ l = <<OO>> /\ Len(b) >= W THEN Ok(<<b[W]>>)
  ELSE DecTop(l, b, strict)

(*-------------------------------- behaviour ------------------------------*)
Results(l, b) == IF Gen THEN <<>> ELSE [s |-> Decoded(l, b, TRUE), l |-> Decoded(l, b, FALSE)]
Init == /\ ts \in TypeLists
        /\ as \in ValueLists(ts)
        /\ wire = Encoded(ts, as)
        /\ ops = <<>>
        /\ res = Results(ts, wire)
        /\ got = "no"

NWords(b) == Len(b) \div W
WordChoices(b) == {Word(i) : i \in {0, 1, 2, W, 2 * W, 3 * W, 4 * W, Len(b) - W, Len(b) - 1, Len(b), Len(b) + W} \ {-W, -1}}
                  \cup {Rep(255, W), <<128>> \o Rep(0, W - 1), <<1>> \o Rep(0, W - 1), Rep(0, W - 1) \o <<128>>}
Over(b, p, s) == SubSeq(b, 1, p) \o s \o SubSeq(b, p + Len(s) + 1, Len(b))
SetWord == \E i \in 0..(NWords(wire) - 1) : \E w \in WordChoices(wire) :
             /\ Slice(wire, i * W, W) # w
             /\ wire' = Over(wire, i * W, w) /\ ops' = Append(ops, "word")
\* the places of a word where padding may sit, and its middle
BytePlaces(b) == {p \in 0..(Len(b) - 1) : p % W \in {0, 1, 2, 3, W \div 2, W - 2, W - 1}}
SetByte == \E p \in BytePlaces(wire) : \E x \in {1, 128, 255} :
             /\ wire[p + 1] # x
             /\ wire' = Over(wire, p, <<x>>) /\ ops' = Append(ops, "byte")
Cut == \E p \in 0..(Len(wire) - 1) :
             /\ p % W \in {0, 1, 2, W - 1}
             /\ wire' = SubSeq(wire, 1, p) /\ ops' = Append(ops, "cut")
Extend == \E x \in {<<0>>, <<9>>, Word(1), Rep(255, W)} :
             /\ wire' = wire \o x /\ ops' = Append(ops, "more")
Tamper == /\ got = "no" /\ Len(ops) < Tampers
          /\ (SetWord \/ SetByte \/ Cut \/ Extend)
          /\ res' = Results(ts, wire')
          /\ UNCHANGED <<ts, as, got>>
Receive == /\ Gen /\ got = "no" /\ got' = "yes"
           /\ UNCHANGED <<ts, as, wire, ops, res>>
Next == Tamper \/ Receive
Spec == Init /\ [][Next]_vars

(*------------------------------- properties ------------------------------*)
S == res.s
L == res.l
Only(o) == ops # <<>> /\ \A i \in 1..Len(ops) : ops[i] = o

RECURSIVE InRange(_, _)
InRange(t, a) ==
  CASE t.k \in NumKinds -> ~OutOfRange(t, a.s, [m |-> a.m, r |-> FALSE, huge |-> FALSE])
    [] t.k = "bool" -> a \in {0, 1}
    [] t.k = "bytesN" -> Len(a) = t.n
    [] t.k = "address" -> Len(a) = 20
    [] t.k = "bytes" -> \A i \in 1..Len(a) : a[i] \in 0..255
    [] t.k = "string" -> Utf8Valid(a)
    [] t.k = "arr" -> (t.n = -1 \/ Len(a) = t.n) /\ \A i \in 1..Len(a) : InRange(t.t, a[i])
    [] t.k = "tup" -> Len(a) = Len(t.c) /\ \A i \in 1..Len(a) : InRange(t.c[i], a[i])
    [] OTHER -> FALSE

\* C01
RoundTripOk == ops = <<>> => S.f = {} /\ S.v = as /\ L.f = {} /\ L.v = as
\* C02, C15: the encoding consists of whole words, the head of all heads
WholeWords == ops = <<>> => /\ Len(wire) % W = 0
                            /\ Len(wire) >= SumOver(TLCEval([i \in 1..Len(ts) |-> HeadSize(ts[i])]))
                            /\ (\A i \in 1..Len(ts) : ~Dynamic(ts[i])) =>
                                 Len(wire) = SumOver(TLCEval([i \in 1..Len(ts) |-> StaticSize(ts[i])]))
\* C05: what is accepted is a value of the type; what is rejected has a named fault
FaultsNamed == /\ S.f \subseteq {"insuff", "padding", "pointer", "unicode"}
               /\ S.f = {} => InRange(Tup(ts), S.v)
\* C05: no other bytes denote the same value in the same place
SamePlace == LET n == Len(Encoded(ts, as)) IN SubSeq(wire, 1, Min2(n, Len(wire))) # Encoded(ts, as)
Detects == (ops # <<>> /\ SamePlace /\
            (\/ \A i \in 1..Len(ts) : ~Dynamic(ts[i])
             \/ Len(ts) = 1 /\ ts[1].k \in {"bytes", "string"} /\ Len(wire) >= W /\ SubSeq(wire, 1, W) = Word(W)))
           => S.f # {} \/ S.v # as
\* C08
LenientWider == /\ S.f = {} => L.f = {} /\ L.v = S.v
                /\ L.f \subseteq S.f
                /\ L.f = {} => S.f \subseteq {"insuff", "padding"}
\* C19
NoPrefix == Only("cut") => S.f # {}
NoSuffix == /\ Only("more") => S.f = {} /\ S.v = as
            /\ \A x \in {<<0>>, Word(2), Rep(255, W)} :
                 LET s2 == Decoded(ts, wire \o x, TRUE)  l2 == Decoded(ts, wire \o x, FALSE)
                 IN (S.f = {} => s2.f = {} /\ s2.v = S.v) /\ (L.f = {} => l2.f = {} /\ l2.v = L.v)
\* C21
Recodes == L.f = {} => /\ InRange(Tup(ts), L.v)
                       /\ LET d == Decoded(ts, Encoded(ts, L.v), TRUE) IN d.f = {} /\ d.v = L.v

(*------------------------------ for replay -------------------------------*)
Line == ToJson([ts |-> ts, as |-> as, wire |-> wire, ops |-> ops])
Emitted == got = "yes" => PrintT("@@H@@" \o Line)
=============================================================================
