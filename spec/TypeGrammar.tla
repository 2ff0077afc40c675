---------------------------- MODULE TypeGrammar ----------------------------
(***************************************************************************)
(* Type strings, as sequences of code points.                              *)
(*   Parse   : string -> parse tree (or failure)                           *)
(*   Render  : parse tree -> string                                        *)
(*   Normal  : string -> string with whole-word aliases replaced           *)
(*   TypeOf  : parse tree -> ABI type, or BadType                          *)
(* A parse tree is [k |-> "b", base, sub, arr] or [k |-> "t", c, arr]; sub  *)
(* is a sequence of 0..2 digit strings, arr one of dimensions, each a digit *)
(* string (empty = dynamic).                                               *)
(***************************************************************************)
EXTENDS Bytes

cLP == 40  cRP == 41  cCOMMA == 44  cLB == 91  cRB == 93  cX == 120
IsDigit(c) == c \in 48..57
IsAlpha(c) == c \in 65..90 \/ c \in 97..122
\* "word" characters, for ASCII and a few sample characters beyond
IsWord(c) == IsDigit(c) \/ IsAlpha(c) \/ c = 95 \/ c \in {233, 955, 1637, 22269}

Fail == [ok |-> FALSE]

\* end (exclusive) of the maximal run of P-characters of s starting at i
RECURSIVE AlphaEnd(_, _), DigitEnd(_, _), WordEnd(_, _)
AlphaEnd(s, i) == IF i <= Len(s) /\ IsAlpha(s[i]) THEN AlphaEnd(s, i + 1) ELSE i
DigitEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitEnd(s, i + 1) ELSE i
WordEnd(s, i)  == IF i <= Len(s) /\ IsWord(s[i]) THEN WordEnd(s, i + 1) ELSE i

At(s, i, c) == i <= Len(s) /\ s[i] = c

\* digits: no leading zero; end = i if there are none
SizeEnd(s, i) == IF i <= Len(s) /\ s[i] \in 49..57 THEN DigitEnd(s, i) ELSE i

\* sub = digits "x" digits / digits / nothing
PSub(s, i) ==
  LET j == SizeEnd(s, i)
      k == IF At(s, j, cX) THEN SizeEnd(s, j + 1) ELSE j
  IN IF j = i THEN [v |-> <<>>, i |-> i]
     ELSE IF At(s, j, cX) /\ k > j + 1
          THEN [v |-> <<SubSeq(s, i, j - 1), SubSeq(s, j + 1, k - 1)>>, i |-> k]
          ELSE [v |-> <<SubSeq(s, i, j - 1)>>, i |-> j]

\* as many complete dimensions as there are
RECURSIVE PArr(_, _)
PArr(s, i) ==
  IF ~At(s, i, cLB) THEN [v |-> <<>>, i |-> i]
  ELSE IF At(s, i + 1, cRB)
       THEN LET r == PArr(s, i + 2) IN [v |-> << <<>> >> \o r.v, i |-> r.i]
  ELSE LET j == SizeEnd(s, i + 1)
       IN IF j > i + 1 /\ At(s, j, cRB)
          THEN LET r == PArr(s, j + 1)
               IN [v |-> << SubSeq(s, i + 1, j - 1) >> \o r.v, i |-> r.i]
          ELSE [v |-> <<>>, i |-> i]

RECURSIVE PType(_, _), PComps(_, _)
\* components after the opening parenthesis, up to and including the closing one
PComps(s, i) ==
  LET h == PType(s, i)
  IN IF ~h.ok THEN Fail
     ELSE IF At(s, h.i, cRP) THEN [ok |-> TRUE, v |-> <<h.v>>, i |-> h.i + 1]
     ELSE IF ~At(s, h.i, cCOMMA) THEN Fail
     ELSE LET r == PComps(s, h.i + 1)
          IN IF r.ok THEN [ok |-> TRUE, v |-> <<h.v>> \o r.v, i |-> r.i] ELSE Fail
PType(s, i) ==
  IF At(s, i, cLP)
  THEN LET c == PComps(s, i + 1)
       IN IF ~c.ok THEN Fail
          ELSE LET a == PArr(s, c.i)
               IN [ok |-> TRUE, v |-> [k |-> "t", c |-> c.v, arr |-> a.v], i |-> a.i]
  ELSE LET j == AlphaEnd(s, i)
       IN IF j = i THEN Fail
          ELSE LET b == PSub(s, j)
                   a == PArr(s, b.i)
               IN [ok |-> TRUE,
                   v |-> [k |-> "b", base |-> SubSeq(s, i, j - 1), sub |-> b.v, arr |-> a.v],
                   i |-> a.i]

Parse(s) == LET r == PType(s, 1)
            IN IF r.ok /\ r.i = Len(s) + 1 THEN [ok |-> TRUE, v |-> r.v] ELSE Fail

RenderArr(a) == Concat(TLCEval([i \in 1..Len(a) |-> <<cLB>> \o a[i] \o <<cRB>>]))
JoinWith(ss, c) == IF ss = <<>> THEN <<>>
                   ELSE ss[1] \o Concat(TLCEval([i \in 1..(Len(ss) - 1) |-> <<c>> \o ss[i + 1]]))
RECURSIVE Render(_)
Render(n) ==
  (IF n.k = "b" THEN n.base \o JoinWith(n.sub, cX)
   ELSE <<cLP>> \o JoinWith(TLCEval([i \in 1..Len(n.c) |-> Render(n.c[i])]), cCOMMA) \o <<cRP>>)
  \o RenderArr(n.arr)

ItemNode(n) == [n EXCEPT !.arr = SubSeq(@, 1, Len(@) - 1)]

HasEmptyParens(s) == \E i \in 1..(Len(s) - 1) : s[i] = cLP /\ s[i + 1] = cRP

(*-------------------------------- names ----------------------------------*)
sUint == <<117,105,110,116>>            sInt == <<105,110,116>>
sUfixed == <<117,102,105,120,101,100>>  sFixed == <<102,105,120,101,100>>
sBytes == <<98,121,116,101,115>>        sByte == <<98,121,116,101>>
sString == <<115,116,114,105,110,103>>  sBool == <<98,111,111,108>>
sAddress == <<97,100,100,114,101,115,115>>
sFunction == <<102,117,110,99,116,105,111,110>>
sHash == <<104,97,115,104>>
d256 == <<50,53,54>>  d128 == <<49,50,56>>  d18 == <<49,56>>  d24 == <<50,52>>  d1 == <<49>>

AliasOf(w) ==
  CASE w = sInt -> sInt \o d256
    [] w = sUint -> sUint \o d256
    [] w = sFixed -> sFixed \o d128 \o <<cX>> \o d18
    [] w = sUfixed -> sUfixed \o d128 \o <<cX>> \o d18
    [] w = sFunction -> sBytes \o d24
    [] w = sByte -> sBytes \o d1
    [] OTHER -> w

RECURSIVE NormalFrom(_, _)
NormalFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET j == WordEnd(s, i)
       IN IF j = i THEN <<s[i]>> \o NormalFrom(s, i + 1)
          ELSE AliasOf(SubSeq(s, i, j - 1)) \o NormalFrom(s, j)
Normal(s) == NormalFrom(s, 1)

(*-------------------------------- types ----------------------------------*)
BadType == [k |-> "bad"]
DigitVals(d) == TLCEval([i \in 1..Len(d) |-> d[i] - 48])
Num(d) == DigitsSat(DigitVals(d))

BitsOk(n) == n >= 8 /\ n <= 256 /\ n % 8 = 0
Elementary(base, sub) ==
  LET n == IF Len(sub) >= 1 THEN Num(sub[1]) ELSE 0
      p == IF Len(sub) = 2 THEN Num(sub[2]) ELSE 0
      numeric(k) == CASE Len(sub) = 0 -> [k |-> k, n |-> 256]
                      [] Len(sub) = 1 /\ BitsOk(n) -> [k |-> k, n |-> n]
                      [] OTHER -> BadType
      fixedp(k) == CASE Len(sub) = 0 -> [k |-> k, n |-> 128, p |-> 18]
                     [] Len(sub) = 2 /\ BitsOk(n) /\ p >= 1 /\ p <= 80 -> [k |-> k, n |-> n, p |-> p]
                     [] OTHER -> BadType
      plain(t) == IF Len(sub) = 0 THEN t ELSE BadType
  IN CASE base = sUint -> numeric("uint")
       [] base = sInt -> numeric("int")
       [] base = sFixed -> fixedp("fixed")
       [] base = sUfixed -> fixedp("ufixed")
       [] base = sBytes -> CASE Len(sub) = 0 -> [k |-> "bytes"]
                             [] Len(sub) = 1 /\ n >= 1 /\ n <= 32 -> [k |-> "bytesN", n |-> n]
                             [] OTHER -> BadType
       [] base = sByte -> plain([k |-> "bytesN", n |-> 1])
       [] base = sFunction -> plain([k |-> "bytesN", n |-> 24])
       [] base = sString -> plain([k |-> "string"])
       [] base = sBool -> plain([k |-> "bool"])
       [] base = sAddress -> plain([k |-> "address"])
       [] OTHER -> BadType

\* wrap t in array dimensions, leftmost innermost
WrapArr(t, dims) ==
  FoldLeft(LAMBDA a, d : [k |-> "arr", t |-> a, n |-> IF d = <<>> THEN -1 ELSE Num(d)], t, dims)

RECURSIVE TypeOf(_)
TypeOf(n) ==
  LET inner == IF n.k = "b" THEN Elementary(n.base, n.sub)
               ELSE LET cs == TLCEval([i \in 1..Len(n.c) |-> TypeOf(n.c[i])])
                    IN IF \E i \in 1..Len(cs) : cs[i].k = "bad" THEN BadType
                       ELSE [k |-> "tup", c |-> cs]
  IN IF inner.k = "bad" THEN BadType ELSE WrapArr(inner, n.arr)

\* type string -> ABI type, BadType for whatever is not one
TypeOfStr(s) == LET p == Parse(s) IN IF p.ok THEN TypeOf(p.v) ELSE BadType

\* `validate()` on parse trees: only the sizes of known bases are judged
RECURSIVE ValidNode(_)
KnownBase(b) == b \in {sUint, sInt, sFixed, sUfixed, sBytes, sString, sBool, sAddress}
ValidNode(n) ==
  IF n.k = "t" THEN \A i \in 1..Len(n.c) : ValidNode(n.c[i])
  ELSE IF KnownBase(n.base)
       THEN /\ Elementary(n.base, n.sub).k # "bad"
            /\ (n.sub = <<>> => n.base \notin {sUint, sInt, sFixed, sUfixed})
       ELSE n.base = sHash => Len(n.sub) = 1

RECURSIVE Dynamic(_), DynamicNode(_)
Dynamic(t) ==
  CASE t.k \in {"bytes", "string"} -> TRUE
    [] t.k = "arr" -> t.n = -1 \/ Dynamic(t.t)
    [] t.k = "tup" -> \E i \in 1..Len(t.c) : Dynamic(t.c[i])
    [] OTHER -> FALSE
DynamicNode(n) ==
  \/ \E i \in 1..Len(n.arr) : n.arr[i] = <<>>
  \/ IF n.k = "t" THEN \E i \in 1..Len(n.c) : DynamicNode(n.c[i])
     ELSE n.base = sString \/ (n.base = sBytes /\ n.sub = <<>>)
=============================================================================
