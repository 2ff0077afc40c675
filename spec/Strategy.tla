------------------------------ MODULE Strategy ------------------------------
(***************************************************************************)
(* A strategy draws a value of a type piece by piece (C20): the bits of a  *)
(* number, the characters of a text, the bytes of a byte string, the       *)
(* length of an array and then its items.  Whatever the draws, the value   *)
(* must be of the type (Fits) and of the declared shape, and every number  *)
(* of the type, every truth value and, up to the lengths tried, every byte *)
(* string, text and array can come out (Spanned: a set is collected in     *)
(* which TLC, visiting all draws, finds everything).                       *)
(***************************************************************************)
EXTENDS Codec, FiniteSets

CONSTANTS Slack      \* a mistake put in on purpose (negative controls), or ""

VARIABLES ty, todo, got, st
vars == <<ty, todo, got, st>>

U8 == [k |-> "uint", n |-> 8]   I8 == [k |-> "int", n |-> 8]
F81 == [k |-> "fixed", n |-> 8, p |-> 1]   UF82 == [k |-> "ufixed", n |-> 8, p |-> 2]
OO == [k |-> "bool"]  B2 == [k |-> "bytesN", n |-> 2]  YY == [k |-> "bytes"]  SS == [k |-> "string"]
Arr(t, n) == [k |-> "arr", t |-> t, n |-> n]
Tup(c) == [k |-> "tup", c |-> c]
Kinds == {U8, I8, F81, UF82, OO, B2, YY, SS, Arr(OO, -1), Arr(OO, 2), Arr(Arr(OO, 1), -1), Arr(YY, 1), Tup(<<OO, YY>>), Tup(<<Arr(OO, -1), OO>>),
          Arr(Tup(<<OO, OO>>), 2)}
SomeBytes == {0, 97, 255}
Chars == {0, 97, 233, 8364, 128512} \cup (IF Slack = "surrogates" THEN {55296} ELSE {})
MaxLen == 2

PInt(i) == [k |-> "int", y |-> "int", s |-> IF i < 0 THEN 1 ELSE 0, m |-> NatOfInt(IF i < 0 THEN -i ELSE i)]
Digits3(n) == <<n \div 100, (n \div 10) % 10, n % 10>>
PDec(i, e) == [k |-> "dec", y |-> "Decimal", s |-> IF i < 0 THEN 1 ELSE 0, d |-> Digits3(IF i < 0 THEN -i ELSE i), e |-> e]
BitsVal(b, signed) == LET u == FoldLeft(LAMBDA a, x : 2 * a + x, 0, b)
                      IN IF signed /\ u >= 128 /\ Slack # "unsigned" THEN u - 256 ELSE u
Do(o, t, n) == [o |-> o, t |-> t, n |-> n]
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Give(v, rest) == got' = Append(got, v) /\ todo' = rest
Init == ty \in Kinds /\ todo = <<Do("draw", ty, 0)>> /\ got = <<>> /\ st = "run"
\* pieces drawn so far lie on top of got as a sequence
More(S, max, full, t, d, rest, Make(_)) ==
  LET cur == Top(got) IN
  \/ \E x \in S : Len(cur) < max /\ got' = Pop(got) \o <<Append(cur, x)>> /\ todo' = todo
  \/ (full => Len(cur) = max) /\ got' = Pop(got) \o <<Make(cur)>> /\ todo' = rest
Step ==
  LET d == Top(todo)  rest == Pop(todo)  t == d.t IN
  CASE d.o = "draw" /\ t.k = "bool" -> \E x \in {0, 1} : Give([k |-> "bool", x |-> x], rest)
    [] d.o = "draw" /\ t.k \in {"arr"} /\ t.n = -1 ->
         \E n \in 0..MaxLen : todo' = rest \o <<Do("pack", t, n)>> \o Rep(Do("draw", t.t, 0), n) /\ got' = got
    [] d.o = "draw" /\ t.k = "arr" ->
         \E n \in (IF Slack = "shape" THEN {t.n, t.n + 1} ELSE {t.n}) :
            todo' = rest \o <<Do("pack", t, n)>> \o Rep(Do("draw", t.t, 0), n) /\ got' = got
    [] d.o = "draw" /\ t.k = "tup" ->
         todo' = rest \o <<Do("pack", t, Len(t.c))>> \o TLCEval([j \in 1..Len(t.c) |-> Do("draw", t.c[Len(t.c) + 1 - j], 0)]) /\ got' = got
    [] d.o = "draw" -> todo' = rest \o <<Do("more", t, 0)>> /\ got' = Append(got, <<>>)
    [] d.o = "pack" -> got' = SubSeq(got, 1, Len(got) - d.n) \o <<[k |-> "seq", y |-> "tuple", i |-> SubSeq(got, Len(got) - d.n + 1, Len(got))]>> /\ todo' = rest
    [] d.o = "more" /\ t.k \in NumKinds ->
         More({0, 1}, IF Slack = "narrow" THEN 7 ELSE 8, TRUE, t, d, rest,
              LAMBDA b : IF t.k \in {"uint", "int"} THEN PInt(BitsVal(b, Signed(t)))
                         ELSE PDec(BitsVal(b, Signed(t)), -(t.p + (IF Slack = "places" THEN 1 ELSE 0))))
    [] d.o = "more" /\ t.k = "bytesN" -> More(SomeBytes, t.n, TRUE, t, d, rest, LAMBDA b : [k |-> "bytes", y |-> "bytes", b |-> b])
    [] d.o = "more" /\ t.k = "bytes" -> More(SomeBytes, MaxLen, FALSE, t, d, rest, LAMBDA b : [k |-> "bytes", y |-> "bytes", b |-> b])
    [] d.o = "more" -> More(Chars, MaxLen, FALSE, t, d, rest, LAMBDA c : [k |-> "str", y |-> "str", c |-> c])
Next == \/ st = "run" /\ todo # <<>> /\ Step /\ UNCHANGED <<ty, st>>
        \/ st = "run" /\ todo = <<>> /\ st' = "done" /\ UNCHANGED <<ty, todo, got>>
Spec == Init /\ [][Next]_vars

Fits == st = "done" => Len(got) = 1 /\ Faults(ty, got[1]) = {}
Recodes == st = "done" => LET a == Abs(ty, got[1]) d == DecTop(<<ty>>, EncItems(<<ty>>, <<a>>), TRUE) IN d.f = {} /\ d.v = <<a>>
\* everything drawn, counted at the end (one worker)
Collect == st = "done" => TLCSet(1, TLCGet(1) \cup {<<ty, Abs(ty, got[1])>>})
Start == TLCSet(1, {}) /\ Init
SpecCount == Start /\ [][Next]_vars
Of(t) == {x[2] : x \in {y \in TLCGet(1) : y[1] = t}}
Spanned ==
  /\ \A t \in {U8, I8, F81, UF82} : Cardinality(Of(t)) = 256
  /\ {Num0(1, HalfNat(1)), Num0(0, MaxNat(1, 1))} \subseteq Of(I8) \cap Of(F81)
  /\ {Num0(0, <<>>), Num0(0, MaxNat(1, 0))} \subseteq Of(U8) \cap Of(UF82)
  /\ Of(OO) = {0, 1}
  /\ Of(Arr(OO, -1)) = {<<>>, <<0>>, <<1>>} \cup {<<x, y>> : x, y \in {0, 1}}
  /\ Of(Arr(OO, 2)) = {<<x, y>> : x, y \in {0, 1}}
  /\ Of(YY) = {<<>>} \cup {<<x>> : x \in SomeBytes} \cup {<<x, y>> : x, y \in SomeBytes}
  /\ Cardinality(Of(SS)) = 1 + 5 + 25
=============================================================================
