------------------------------ MODULE Encoder ------------------------------
(***************************************************************************)
(* Encoding as a machine that works through the values given to it: things *)
(* left to do, chunks of bytes produced, and heads and tails put together  *)
(* when a container is complete.  It sees Python values, good and bad, and *)
(* computes numbers with plain integers.  Codec!Faults, Enc and PEnc say   *)
(* what must come of it: the machine must give exactly those bytes, or     *)
(* refuse naming a fault the values have (Emits), and answer the question  *)
(* whether something can be encoded accordingly (Answers).  Items may be   *)
(* worked off in any order (back).  A type of the user's own ("own", with  *)
(* a built-in type it is laid out like) is coded by the user's coder; the  *)
(* machine only knows whether it is dynamic.                               *)
(***************************************************************************)
EXTENDS Codec, FiniteSets, Json

CONSTANTS Set,        \* "num": single numbers, all of them; "shape": containers; "own": the user's types
          Slip,       \* a mistake put in on purpose (negative controls): "" or its name
          Gen

VARIABLES ts, vs, mode, back, todo, out, st
vars == <<ts, vs, mode, back, todo, out, st>>
input == <<ts, vs, mode, back>>

(*------------------------------- universe --------------------------------*)
U8 == [k |-> "uint", n |-> 8]     I8 == [k |-> "int", n |-> 8]
OO == [k |-> "bool"]              B1 == [k |-> "bytesN", n |-> 1]
YY == [k |-> "bytes"]             SS == [k |-> "string"]
Fix(n, p) == [k |-> "fixed", n |-> n, p |-> p]
UFix(n, p) == [k |-> "ufixed", n |-> n, p |-> p]
Arr(t, n) == [k |-> "arr", t |-> t, n |-> n]
Tup(c) == [k |-> "tup", c |-> c]
Own(t) == [k |-> "own", as |-> t]

PInt(s, m) == [k |-> "int", y |-> "int", s |-> s, m |-> m]
PI(i) == IF i < 0 THEN PInt(1, NatOfInt(-i)) ELSE PInt(0, NatOfInt(i))
PBool(x) == [k |-> "bool", y |-> "bool", x |-> x]
PDec(s, d, e) == [k |-> "dec", y |-> "Decimal", s |-> s, d |-> d, e |-> e]
PBytes(b) == [k |-> "bytes", y |-> "bytes", b |-> b]
PStr(c) == [k |-> "str", y |-> "str", c |-> c]
PSeq(i) == [k |-> "seq", y |-> "list", i |-> i]
PNone == [k |-> "other", y |-> "NoneType"]
PSpecial(z) == [k |-> "decs", y |-> "Decimal", z |-> z]

Digits(n) == IF n < 10 THEN <<n>> ELSE IF n < 100 THEN <<n \div 10, n % 10>> ELSE <<n \div 100, (n \div 10) % 10, n % 10>>
NumTypes == {U8, I8, Fix(8, 1), Fix(8, 2), UFix(8, 1), UFix(8, 3)}
NumValues(t) == {PI(i) : i \in -260..260}
   \cup (IF t.k \in {"fixed", "ufixed"}
         THEN {PDec(s, Digits(n), e) : s \in {0, 1}, n \in 0..260, e \in -3..1} \cup {PSpecial("nan"), PSpecial("inf")}
         ELSE {PDec(0, <<1>>, 0), PBool(1), PBytes(<<1>>), PStr(<<49>>), PSeq(<<PI(1)>>), PNone})

\* around the limits of number types of any width
Edge(t) ==
  LET k == t.n \div 8
      top == IF Signed(t) THEN MaxNat(k, 1) ELSE MaxNat(k, 0)
      low == IF Signed(t) THEN HalfNat(k) ELSE <<>>
  IN {PInt(0, top), PInt(0, MulAdd(top, 1, 1)), PInt(1, MulAdd(low, 1, 1)), PI(0)} \cup (IF Signed(t) THEN {PInt(1, low), PI(-1)} ELSE {PI(-1)})
LeafVals(t) ==
  CASE t.k \in {"uint", "int"} -> Edge(t) \cup {PBool(0), PNone}
    [] t.k \in {"fixed", "ufixed"} -> {PI(0), PDec(0, <<1>>, -t.p), PDec(0, <<1>>, -(t.p + 1)), PDec(1, <<2>>, -t.p), PDec(0, <<9>>, 90), PSpecial("nan"), PStr(<<49>>)}
    [] t.k = "bool" -> {PBool(0), PBool(1), PI(1)}
    [] t.k = "address" -> {PBytes(Rep(255, 20)), PBytes(Rep(1, 19)), PStr(<<48, 120>> \o Rep(65, 40)), PStr(Rep(97, 39)), PI(7)}
    [] t.k = "bytesN" -> {PBytes(<<>>), PBytes(Rep(7, t.n)), PBytes(Rep(7, t.n + 1)), PStr(<<97>>)}
    [] t.k = "bytes" -> {PBytes(<<>>), PBytes(Rep(9, W)), PBytes(Rep(0, W + 1)), PStr(<<97>>)}
    [] t.k = "string" -> {PStr(<<>>), PStr(<<233, 128512>>), PStr(<<97, 55296>>), PBytes(<<97>>)}
\* one good and two bad ones
Picks(t) == LET good == {v \in LeafVals(t) : Faults(t, v) = {} /\ v # PI(0)}
                bad == {v \in LeafVals(t) : Faults(t, v) # {}}
                b1 == CHOOSE v \in bad : TRUE
            IN {CHOOSE v \in good : TRUE, b1} \cup (IF bad = {b1} THEN {} ELSE {CHOOSE v \in bad : v # b1})
RECURSIVE Vals(_)
Few(t) == IF t.k \in {"arr", "tup"} THEN {v \in Vals(t) : v.k = "seq" /\ Len(v.i) <= 2} ELSE Picks(t)
Seqs(S, n) == {PSeq(s) : s \in [1..n -> S]}
Vals(t) ==
  CASE t.k = "own" -> {v \in Vals(t.as) : Faults(t.as, v) # {"unspecified"}}
    [] t.k = "arr" -> {PSeq(<<>>), PNone, PBytes(<<1>>), PStr(<<97>>)} \cup Seqs(Few(t.t), 1) \cup Seqs(Few(t.t), 2)
                      \cup {PSeq(Rep(CHOOSE v \in Few(t.t) : TRUE, 3))}
    [] t.k = "tup" -> {PSeq(<<>>), PNone} \cup
         (IF Len(t.c) = 1 THEN {PSeq(<<v>>) : v \in Few(t.c[1])} \cup {PSeq(<<v, v>>) : v \in Few(t.c[1])}
          ELSE {PSeq(<<v, w>>) : v \in Few(t.c[1]), w \in Few(t.c[2])} \cup {PSeq(<<v>>) : v \in Few(t.c[1])})
    [] OTHER -> LeafVals(t)

Wide == IF W < 32 THEN {} ELSE {[k |-> "address"], [k |-> "uint", n |-> 256], [k |-> "int", n |-> 256], [k |-> "int", n |-> 64],
                                [k |-> "bytesN", n |-> 32], Fix(128, 18), UFix(256, 80)}
Leaves == {U8, I8, OO, B1, YY, SS, Fix(8, 1)} \cup Wide
Ones == {Arr(t, n) : t \in Leaves, n \in {-1, 2}} \cup {Tup(<<t>>) : t \in {U8, YY, SS}} \cup {Tup(<<t, u>>) : t, u \in {U8, YY}}
Twos == {Arr(Arr(U8, 2), -1), Arr(Arr(YY, -1), 1), Arr(Tup(<<U8, YY>>), -1), Tup(<<Arr(U8, -1), YY>>), Tup(<<Arr(U8, 2)>>), Arr(Tup(<<YY>>), 2)}
Owns == {Own(U8), Own(YY), Own(Arr(U8, 2)), Own(Tup(<<U8, YY>>))}
OwnLists == {<<o>> : o \in Owns} \cup {<<o, YY>> : o \in Owns} \cup {<<Arr(o, n)>> : o \in Owns, n \in {-1, 2}}
            \cup {<<Tup(<<o, YY>>)>> : o \in Owns} \cup {<<Tup(<<U8, o>>), YY>> : o \in Owns}
TypeLists ==
  CASE Set = "num" -> {<<t>> : t \in NumTypes}
    [] Set = "own" -> OwnLists
    [] OTHER -> {<<>>} \cup {<<t>> : t \in Leaves \cup Ones \cup Twos}
                \cup {<<t, u>> : t, u \in {U8, YY, Arr(U8, 2), Tup(<<U8, U8>>), Arr(YY, -1)}}
\* a type as Codec knows it
RECURSIVE Like(_)
Like(t) == CASE t.k = "own" -> t.as
             [] t.k = "arr" -> [t EXCEPT !.t = Like(@)]
             [] t.k = "tup" -> [t EXCEPT !.c = TLCEval([j \in 1..Len(@) |-> Like(@[j])])]
             [] OTHER -> t
Likes(l) == TLCEval([j \in 1..Len(l) |-> Like(l[j])])
RECURSIVE OwnFew(_)
OwnFew(t) == CASE t.k = "own" -> {v \in Vals(t.as) : (Faults(t.as, v) = {} /\ (v.k # "seq" \/ Len(v.i) > 0)) \/ v = PNone}
               [] t.k = "arr" -> {PSeq(s) : s \in [1..2 -> OwnFew(t.t)]} \cup {PSeq(<<>>)}
               [] t.k = "tup" -> {PSeq(<<v, w>>) : v \in OwnFew(t.c[1]), w \in OwnFew(t.c[2])}
               [] OTHER -> Picks(t)
Lists(l) ==
  IF l = <<>> THEN {<<>>, <<PI(1)>>}
  ELSE IF Set = "num" THEN {<<v>> : v \in NumValues(l[1])}
  ELSE IF Len(l) = 1 THEN {<<v>> : v \in (IF Set = "own" THEN OwnFew(l[1]) ELSE Vals(l[1]))} \cup {<<>>}
  ELSE {<<v, w>> : v \in (IF Set = "own" THEN OwnFew(l[1]) ELSE Few(l[1])), w \in (IF Set = "own" THEN OwnFew(l[2]) ELSE Few(l[2]))}

(*------------------------------- machine ---------------------------------*)
Pow(b, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN b ELSE IF n = 2 THEN b * b ELSE IF n = 3 THEN b * b * b
             ELSE IF n = 4 THEN b * b * b * b ELSE b * b * b * b * b
Sgn(v) == IF v.s = 1 THEN -1 ELSE 1
\* v * 10^p as a fraction of plain integers
Numer(v, p) == IF v.k = "int" THEN Sgn(v) * SatInt(v.m) * Pow(10, p)
               ELSE Sgn(v) * DigitsSat(v.d) * Pow(10, Max2(0, v.e + p))
Denom(v, p) == IF v.k = "int" THEN 1 ELSE Pow(10, Max2(0, -(v.e + p)))
Low(t) == IF Signed(t) THEN -128 ELSE 0
High(t) == IF Signed(t) THEN 127 ELSE 255
NumBad(t, v) ==
  LET p == Places(t)  a == Numer(v, p)  d == Denom(v, p)
  IN (IF (a < Low(t) * d \/ a > High(t) * d) /\ Slip # "wrap" THEN {"bounds"} ELSE {})
     \cup (IF a % d # 0 /\ Slip # "round" THEN {"illegal"} ELSE {})
NumBytes(t, v, size) ==
  LET i == Numer(v, Places(t)) \div Denom(v, Places(t))
  IN IF size = 1 THEN <<i % 256>> ELSE <<(i % 65536) \div 256, i % 256>>
LeafBad(t, v) ==
  CASE t.k \in {"uint", "int"} -> IF v.k = "int" THEN NumBad(t, v)
                                  ELSE IF v.k = "bool" /\ Slip = "coerce" THEN {} ELSE {"type"}
    [] t.k \in {"fixed", "ufixed"} -> IF v.k \in {"int", "dec"} THEN NumBad(t, v) ELSE Faults(t, v)
    [] t.k = "own" -> Faults(t.as, v)
    [] OTHER -> Faults(t, v)
\* the user's coder answers what a built-in one for the like type would
LeafBytes(t, v, pk) ==
  CASE t.k \in NumKinds -> IF v.k = "bool" THEN NumBytes(t, PI(v.x), IF pk THEN 1 ELSE W) ELSE NumBytes(t, v, IF pk THEN 1 ELSE W)
    [] t.k = "own" -> IF pk THEN PEnc(t.as, Abs(t.as, v)) ELSE Enc(t.as, Abs(t.as, v))
    [] t.k \in {"bytes", "string"} /\ ~pk ->
         LET c == Abs(t, v) IN Word(Len(c)) \o c \o Rep(0, (W - (Len(c) % W)) % W)
    [] OTHER -> IF pk THEN PEnc(t, Abs(t, v)) ELSE Enc(t, Abs(t, v))
RECURSIVE IsDyn(_)
IsDyn(t) == CASE t.k = "own" -> Slip # "flat" /\ Dynamic(t.as)
              [] t.k = "arr" -> t.n = -1 \/ IsDyn(t.t)
              [] t.k = "tup" -> \E j \in 1..Len(t.c) : IsDyn(t.c[j])
              [] OTHER -> t.k \in {"bytes", "string"}

Do(o, t, v, n) == [o |-> o, t |-> t, v |-> v, n |-> n]
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Abort(f) == /\ st' = f /\ todo' = <<>> /\ out' = out
Refuse(F) == \E f \in F : Abort(f)
Asks == mode = "ask"
Pk == mode = "packed"
\* the items, the one to begin with last; what they give is put together by "join"
Work(l, items) ==
  LET n == Len(l)
      m == IF Asks /\ Slip = "asklax" THEN Min2(n, 1) ELSE n
  IN <<Do("join", Tup(l), PNone, n)>>
     \o TLCEval([j \in 1..m |-> LET i == IF back THEN j ELSE m + 1 - j IN Do("put", l[i], items[i], i)])
\* chunks come in order of the items
InOrder(c) == IF back THEN Reverse(c) ELSE c
\* heads first, each offset the place where the next tail begins
Joined(l, c) ==
  LET n == Len(l)
      dyn == TLCEval([j \in 1..n |-> IsDyn(l[j])])
      size(j) == IF dyn[j] THEN W ELSE IF Slip = "oneword" /\ l[j].k = "own" THEN W ELSE Len(c[j])
      head == SumOver(TLCEval([j \in 1..n |-> size(j)]))
      put(acc, j) == IF dyn[j]
                     THEN [h |-> acc.h \o Word(IF Slip = "tailbase" THEN Len(acc.t) ELSE head + Len(acc.t)), t |-> acc.t \o c[j]]
                     ELSE [h |-> acc.h \o c[j], t |-> acc.t]
      r == FoldLeft(put, [h |-> <<>>, t |-> <<>>], TLCEval([j \in 1..n |-> j]))
  IN r.h \o r.t
Start == /\ ts \in TypeLists /\ vs \in Lists(ts)
         /\ mode \in (IF Gen THEN {"std"} ELSE {"std", "packed", "ask"}) /\ back \in (IF Gen \/ Set = "num" THEN {FALSE} ELSE BOOLEAN)
         /\ out = <<>>
         /\ IF Gen THEN st = "gen" /\ todo = <<>>
            ELSE IF Len(vs) # Len(ts) THEN st = "bounds" /\ todo = <<>>
            ELSE st = "run" /\ todo = Work(ts, vs)
Step ==
  LET d == Top(todo)  rest == Pop(todo)  t == d.t  v == d.v
  IN CASE d.o = "join" ->
            LET n == IF Asks THEN 0 ELSE d.n
                c == InOrder(SubSeq(out, Len(out) - n + 1, Len(out)))
            IN /\ out' = SubSeq(out, 1, Len(out) - n) \o <<IF Pk THEN Concat(c) ELSE IF Asks THEN <<>> ELSE Joined(t.c, c)>>
               /\ todo' = rest /\ st' = st
       [] d.o = "count" -> /\ out' = Pop(out) \o <<Word(d.n) \o Top(out)>> /\ todo' = rest /\ st' = st
       [] d.o = "put" /\ t.k = "arr" ->
            IF v.k # "seq" THEN Abort("type")
            ELSE IF t.n # -1 /\ Len(v.i) # t.n /\ Slip # "anysize" THEN Abort("bounds")
            ELSE /\ todo' = rest \o (IF t.n = -1 /\ mode = "std" THEN <<Do("count", t, v, Len(v.i))>> ELSE <<>>)
                            \o Work(TLCEval([j \in 1..Len(v.i) |-> t.t]), v.i)
                 /\ UNCHANGED <<out, st>>
       [] d.o = "put" /\ t.k = "tup" ->
            IF v.k # "seq" THEN Abort("type")
            ELSE IF Len(v.i) # Len(t.c) THEN Abort("bounds")
            ELSE /\ todo' = rest \o Work(t.c, v.i) /\ UNCHANGED <<out, st>>
       [] d.o = "put" ->
            IF LeafBad(t, v) # {} THEN Refuse(LeafBad(t, v))
            ELSE /\ out' = IF Asks THEN out
                           ELSE Append(out, LeafBytes(t, v, IF Slip = "pkpad" /\ d.n > 1 THEN FALSE ELSE Pk))
                 /\ todo' = rest /\ st' = st
Next == /\ st = "run"
        /\ IF todo = <<>> THEN st' = "ok" /\ UNCHANGED <<todo, out>> ELSE Step
        /\ UNCHANGED input
Spec == Start /\ [][Next]_vars /\ WF_vars(Next)

(*------------------------------- properties ------------------------------*)
All == TopFaults(Likes(ts), vs)
Emits == mode # "ask" =>
  /\ st = "ok" => /\ All = {}
                  /\ out = <<IF Pk THEN PEncItems(Likes(ts), TopAbs(Likes(ts), vs)) ELSE EncItems(Likes(ts), TopAbs(Likes(ts), vs))>>
  /\ st \notin {"ok", "run"} => st \in All
Answers == mode = "ask" => /\ st = "ok" => All = {}
                           /\ st \notin {"ok", "run"} => All # {}
\* an accepted value is read back unaltered
Unaltered == (st = "ok" /\ mode = "std") =>
   LET d == DecTop(Likes(ts), out[1], TRUE) IN d.f = {} /\ d.v = TopAbs(Likes(ts), vs)
\* no more is produced than there are items, and nothing is lost on the way
Tidy == /\ st = "ok" => Len(out) = (IF Asks THEN Len(out) ELSE 1)
        /\ (mode = "std") => \A i \in 1..Len(out) : Len(out[i]) % W = 0
Ends == <>(st # "run")
Emitted == Gen => PrintT("@@H@@" \o ToJson([ts |-> ts, vs |-> vs]))
=============================================================================
