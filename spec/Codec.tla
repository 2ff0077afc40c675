------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* The ABI codec as functions, for a word of W bytes (32 in reality).      *)
(*                                                                         *)
(*   Faults(t, v)   what keeps Python value v from being encoded as type t *)
(*   Abs(t, v)      the abstract value v denotes, when Faults = {}         *)
(*   Enc / PEnc     standard / packed encoding of an abstract value        *)
(*   DecTop         all faults of a payload, and the abstract values it    *)
(*                  denotes when there are none                            *)
(*   Denotes        whether a returned Python value is the canonical form  *)
(*                  of an abstract value                                   *)
(*                                                                         *)
(* Python values are records: k = "int" (s: sign, m: magnitude bytes),     *)
(* "bool" (x), "dec" (s, d: digits, e: exponent), "decs" (z: "nan"/"inf"), *)
(* "bytes" (b), "str" (c: code points), "seq" (i: items), "other"; y names *)
(* the exact Python class.                                                 *)
(* Abstract values: numbers [s, m] (fixed ones scaled to integers), bools  *)
(* 0/1, byte strings (texts as UTF-8), sequences.                          *)
(***************************************************************************)
EXTENDS TypeGrammar, Utf8
CONSTANT W

NumKinds == {"uint", "int", "fixed", "ufixed"}
Signed(t) == t.k \in {"int", "fixed"}

(*------------------------------ Python side ------------------------------*)
\* value * 10^p as integer part, whether something is left, whether it is huge
RECURSIVE MulPow10(_, _)
MulPow10(m, p) == IF p = 0 THEN m ELSE IF p >= 4 THEN MulPow10(MulAdd(m, 10000, 0), p - 4)
                  ELSE MulAdd(m, Pow10(p), 0)
StripD(d) == Strip(d)
Scale(v, p) ==
  IF v.k = "int"
  THEN IF Len(v.m) > 64 THEN [m |-> <<>>, r |-> FALSE, huge |-> TRUE]
       ELSE [m |-> MulPow10(v.m, p), r |-> FALSE, huge |-> FALSE]
  ELSE LET d == StripD(v.d)
           sh == v.e + p
       IN IF d = <<>> THEN [m |-> <<>>, r |-> FALSE, huge |-> FALSE]
          ELSE IF sh >= 0
          THEN IF sh > 200 \/ Len(d) + sh > 200 THEN [m |-> <<>>, r |-> FALSE, huge |-> TRUE]
               ELSE [m |-> DigitsToNat(d \o Rep(0, sh)), r |-> FALSE, huge |-> FALSE]
          ELSE LET n == Len(d) + sh                   \* digits of the integer part
               IN IF n <= 0 THEN [m |-> <<>>, r |-> TRUE, huge |-> FALSE]
                  ELSE IF n > 200 THEN [m |-> <<>>, r |-> FALSE, huge |-> TRUE]
                  ELSE [m |-> DigitsToNat(SubSeq(d, 1, n)),
                        r |-> ~AllEq(SubSeq(d, n + 1, Len(d)), 0), huge |-> FALSE]

Places(t) == IF t.k \in {"fixed", "ufixed"} THEN t.p ELSE 0

\* is the number with sign s, integer part q.m (and fraction q.r) outside the range of t
OutOfRange(t, s, q) ==
  LET k == t.n \div 8
      nonzero == q.m # <<>> \/ q.r \/ q.huge
      limit == IF ~Signed(t) THEN MaxNat(k, 0) ELSE IF s = 1 THEN HalfNat(k) ELSE MaxNat(k, 1)
  IN \/ s = 1 /\ nonzero /\ ~Signed(t)
     \/ q.huge
     \/ NLess(limit, q.m)
     \/ q.m = limit /\ q.r

NumFaults(t, v) ==
  LET q == Scale(v, Places(t))
  IN (IF OutOfRange(t, v.s, q) THEN {"bounds"} ELSE {}) \cup (IF q.r THEN {"illegal"} ELSE {})

IsHexCp(c) == IsDigit(c) \/ c \in 97..102 \/ c \in 65..70
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
\* the 40 digits of an address text, or <<>>
AddressDigits(c) ==
  LET body == IF Len(c) = 42 /\ c[1] = 48 /\ c[2] \in {120, 88} THEN SubSeq(c, 3, 42) ELSE c
  IN IF Len(body) = 40 /\ \A i \in 1..40 : IsHexCp(body[i]) THEN body ELSE <<>>
HexPairs(d) == TLCEval([i \in 1..(Len(d) \div 2) |-> HexVal(d[2*i - 1]) * 16 + HexVal(d[2*i])])

RECURSIVE Faults(_, _)
Faults(t, v) ==
  CASE t.k \in {"uint", "int"} -> IF v.k = "int" THEN NumFaults(t, v) ELSE {"type"}
    [] t.k \in {"fixed", "ufixed"} ->
         IF v.k \in {"int", "dec"} THEN NumFaults(t, v)
         ELSE IF v.k = "decs" THEN (IF v.z = "nan" THEN {"illegal"} ELSE {"illegal", "bounds"})
         ELSE IF v.k = "bool" THEN {"unspecified"} ELSE {"type"}
    [] t.k = "bool" -> IF v.k = "bool" THEN {} ELSE {"type"}
    [] t.k = "address" ->
         IF v.k = "str" THEN (IF AddressDigits(v.c) # <<>> THEN {} ELSE {"type", "bounds", "illegal"})
         ELSE IF v.k = "bytes" THEN (IF Len(v.b) = 20 THEN {} ELSE {"type", "bounds", "illegal"})
         ELSE {"type"}
    [] t.k = "bytesN" -> IF v.k # "bytes" THEN {"type"}
                         ELSE IF Len(v.b) > t.n THEN {"bounds"} ELSE {}
    [] t.k = "bytes" -> IF v.k = "bytes" THEN {} ELSE {"type"}
    [] t.k = "string" -> IF v.k # "str" THEN {"type"} ELSE IF TextOk(v.c) THEN {} ELSE {"illegal"}
    [] t.k = "arr" ->
         IF v.k # "seq" THEN {"type"}
         ELSE (IF t.n # -1 /\ Len(v.i) # t.n THEN {"bounds"} ELSE {})
              \cup UNION {Faults(t.t, v.i[j]) : j \in 1..Len(v.i)}
    [] t.k = "tup" ->
         IF v.k # "seq" THEN {"type"}
         ELSE (IF Len(v.i) # Len(t.c) THEN {"bounds"} ELSE {})
              \cup UNION {Faults(t.c[j], v.i[j]) : j \in 1..Min2(Len(v.i), Len(t.c))}

Num0(s, m) == [s |-> IF m = <<>> THEN 0 ELSE s, m |-> m]

RECURSIVE Abs(_, _)
Abs(t, v) ==
  CASE t.k \in {"uint", "int"} -> Num0(v.s, v.m)
    [] t.k \in {"fixed", "ufixed"} -> Num0(v.s, Scale(v, t.p).m)
    [] t.k = "bool" -> v.x
    [] t.k = "address" -> IF v.k = "str" THEN HexPairs(AddressDigits(v.c)) ELSE v.b
    [] t.k = "bytesN" -> PadR(v.b, t.n)
    [] t.k = "bytes" -> v.b
    [] t.k = "string" -> Utf8Of(v.c)
    [] t.k = "arr" -> TLCEval([j \in 1..Len(v.i) |-> Abs(t.t, v.i[j])])
    [] t.k = "tup" -> TLCEval([j \in 1..Len(v.i) |-> Abs(t.c[j], v.i[j])])

TopFaults(ts, vs) ==
  (IF Len(ts) # Len(vs) THEN {"bounds"} ELSE {})
  \cup UNION {Faults(ts[j], vs[j]) : j \in 1..Min2(Len(ts), Len(vs))}
TopAbs(ts, vs) == TLCEval([j \in 1..Len(ts) |-> Abs(ts[j], vs[j])])

LowerHex(b) == Concat(TLCEval([i \in 1..Len(b) |-> <<HexDigit(b[i] \div 16), HexDigit(b[i] % 16)>>]))

\* r is exactly the canonical Python value for the abstract value a of type t
RECURSIVE Denotes(_, _, _)
Denotes(t, r, a) ==
  CASE t.k \in {"uint", "int"} -> r.k = "int" /\ r.y = "int" /\ Num0(r.s, r.m) = a
    [] t.k \in {"fixed", "ufixed"} ->
         /\ r.k = "dec" /\ r.y = "Decimal"
         /\ LET q == Scale(r, t.p) IN ~q.huge /\ ~q.r /\ Num0(r.s, q.m) = a
    [] t.k = "bool" -> r.k = "bool" /\ r.x = a
    [] t.k = "address" -> r.k = "str" /\ r.y = "str" /\ r.c = <<48, 120>> \o LowerHex(a)
    [] t.k \in {"bytesN", "bytes"} -> r.k = "bytes" /\ r.y = "bytes" /\ r.b = a
    [] t.k = "string" -> r.k = "str" /\ r.y = "str" /\ TextOk(r.c) /\ Utf8Of(r.c) = a
    [] t.k = "arr" -> /\ r.k = "seq" /\ r.y = "tuple" /\ Len(r.i) = Len(a)
                      /\ \A j \in 1..Len(a) : Denotes(t.t, r.i[j], a[j])
    [] t.k = "tup" -> /\ r.k = "seq" /\ r.y = "tuple" /\ Len(r.i) = Len(a)
                      /\ \A j \in 1..Len(a) : Denotes(t.c[j], r.i[j], a[j])
DenotesTop(ts, r, as) ==
  /\ r.k = "seq" /\ r.y = "tuple" /\ Len(r.i) = Len(ts)
  /\ \A j \in 1..Len(ts) : Denotes(ts[j], r.i[j], as[j])

\* r consists of canonical Python values in the range of t (whatever they denote)
RECURSIVE Canonical(_, _)
Canonical(t, r) ==
  CASE t.k \in {"uint", "int"} -> r.k = "int" /\ r.y = "int" /\ Faults(t, r) = {}
    [] t.k \in {"fixed", "ufixed"} -> r.k = "dec" /\ r.y = "Decimal" /\ Faults(t, r) = {}
    [] t.k = "bool" -> r.k = "bool"
    [] t.k = "address" -> /\ r.k = "str" /\ r.y = "str" /\ Len(r.c) = 42
                          /\ r.c[1] = 48 /\ r.c[2] = 120
                          /\ \A i \in 3..42 : IsDigit(r.c[i]) \/ r.c[i] \in 97..102
    [] t.k = "bytesN" -> r.k = "bytes" /\ r.y = "bytes" /\ Len(r.b) = t.n
    [] t.k = "bytes" -> r.k = "bytes" /\ r.y = "bytes"
    [] t.k = "string" -> r.k = "str" /\ r.y = "str" /\ TextOk(r.c)
    [] t.k = "arr" -> /\ r.k = "seq" /\ r.y = "tuple" /\ (t.n = -1 \/ Len(r.i) = t.n)
                      /\ \A j \in 1..Len(r.i) : Canonical(t.t, r.i[j])
    [] t.k = "tup" -> /\ r.k = "seq" /\ r.y = "tuple" /\ Len(r.i) = Len(t.c)
                      /\ \A j \in 1..Len(t.c) : Canonical(t.c[j], r.i[j])

(*-------------------------------- layout ---------------------------------*)
\* bytes a static type occupies
RECURSIVE StaticSize(_)
StaticSize(t) ==
  CASE t.k = "arr" -> SatMul(t.n, StaticSize(t.t))
    [] t.k = "tup" -> FoldLeft(LAMBDA a, x : SatAdd(a, StaticSize(x)), 0, t.c)
    [] OTHER -> W
HeadSize(t) == IF Dynamic(t) THEN W ELSE StaticSize(t)

CeilW(n) == ((n + W - 1) \div W) * W
Word(i) == PadL(NatOfInt(i), W)

(*------------------------------- encoding --------------------------------*)
EncNum(t, a, size) ==
  LET k == t.n \div 8
  IN IF a.s = 0 THEN PadL(a.m, size) ELSE PadLWith(TwosNeg(a.m, k), size, 255)

RECURSIVE Enc(_, _), EncItems(_, _)
\* head/tail encoding of the items as_ of types ts
EncItems(ts, as_) ==
  LET n == Len(ts)
      body == TLCEval([j \in 1..n |-> Enc(ts[j], as_[j])])
      dyn == TLCEval([j \in 1..n |-> Dynamic(ts[j])])
      headLen == SumOver(TLCEval([j \in 1..n |-> IF dyn[j] THEN W ELSE Len(body[j])]))
      tails == TLCEval([j \in 1..n |-> IF dyn[j] THEN body[j] ELSE <<>>])
      \* offs[j]: where tail j begins
      offs == FoldLeft(LAMBDA acc, x : Append(acc, acc[Len(acc)] + Len(x)), <<headLen>>, tails)
      heads == TLCEval([j \in 1..n |-> IF dyn[j] THEN Word(offs[j]) ELSE body[j]])
  IN Concat(heads) \o Concat(tails)
Enc(t, a) ==
  CASE t.k \in NumKinds -> EncNum(t, a, W)
    [] t.k = "bool" -> PadL(<<a>>, W)
    [] t.k = "address" -> PadL(a, W)
    [] t.k = "bytesN" -> PadR(a, W)
    [] t.k \in {"bytes", "string"} -> Word(Len(a)) \o PadR(a, CeilW(Len(a)))
    [] t.k = "arr" -> (IF t.n = -1 THEN Word(Len(a)) ELSE <<>>)
                      \o EncItems(TLCEval([j \in 1..Len(a) |-> t.t]), a)
    [] t.k = "tup" -> EncItems(t.c, a)

RECURSIVE PEnc(_, _)
PEnc(t, a) ==
  CASE t.k \in NumKinds -> EncNum(t, a, t.n \div 8)
    [] t.k = "bool" -> <<a>>
    [] t.k \in {"address", "bytesN", "bytes", "string"} -> a
    [] t.k = "arr" -> Concat(TLCEval([j \in 1..Len(a) |-> PEnc(t.t, a[j])]))
    [] t.k = "tup" -> Concat(TLCEval([j \in 1..Len(a) |-> PEnc(t.c[j], a[j])]))
PEncItems(ts, as_) == Concat(TLCEval([j \in 1..Len(ts) |-> PEnc(ts[j], as_[j])]))

(*------------------------------- decoding --------------------------------*)
\* All faults are collected, in no particular order: an implementation may report any of them.
Ok(v) == [f |-> {}, v |-> v]
Bad(f) == [f |-> f, v |-> <<>>]
HasBytes(b, pos, n) == SatAdd(pos, n) <= Len(b)

DecNum(t, w) ==
  LET k == t.n \div 8
      pad == SubSeq(w, 1, W - k)
      data == SubSeq(w, W - k + 1, W)
      neg == Signed(t) /\ data[1] >= 128
      m == IF neg THEN Strip(TwosNeg(Strip(data), k)) ELSE Strip(data)
  IN IF AllEq(pad, IF neg THEN 255 ELSE 0) THEN Ok([s |-> IF neg THEN 1 ELSE 0, m |-> m])
     ELSE Bad({"padding"})

DecWord(t, w) ==
  CASE t.k \in NumKinds -> DecNum(t, w)
    [] t.k = "bool" -> IF AllEq(SubSeq(w, 1, W - 1), 0) /\ w[W] \in {0, 1} THEN Ok(w[W])
                       ELSE Bad({"padding"})
    [] t.k = "address" -> IF AllEq(SubSeq(w, 1, W - 20), 0) THEN Ok(SubSeq(w, W - 19, W))
                          ELSE Bad({"padding"})
    [] t.k = "bytesN" -> IF AllEq(SubSeq(w, t.n + 1, W), 0) THEN Ok(SubSeq(w, 1, t.n))
                         ELSE Bad({"padding"})

DecBytes(b, pos, strict, text) ==
  IF ~HasBytes(b, pos, W) THEN Bad({"insuff"})
  ELSE LET n == SatInt(Slice(b, pos, W))
           from == pos + W
           have == Max2(0, Min2(n, Len(b) - from))
           content == Slice(b, from, have)
           full == IF n >= CAP THEN CAP ELSE CeilW(n)
           pad == IF n >= CAP THEN <<>>
                  ELSE SubSeq(b, from + n + 1, Min2(from + full, Len(b)))
           f == (IF have < n \/ (strict /\ ~HasBytes(b, from, full)) THEN {"insuff"} ELSE {})
                \cup (IF strict /\ ~AllEq(pad, 0) THEN {"padding"} ELSE {})
                \cup (IF text /\ have = n /\ ~Utf8Valid(content) THEN {"unicode"} ELSE {})
       IN [f |-> f, v |-> content]

RECURSIVE DecIn(_, _, _, _), DecTail(_, _, _, _), DecItems(_, _, _, _, _)
\* items of types ts laid out from org on, where the head section ends at headEnd
DecItems(ts, b, org, headEnd, strict) ==
  LET n == Len(ts)
      at == FoldLeft(LAMBDA acc, x : Append(acc, SatAdd(acc[Len(acc)], HeadSize(x))), <<org>>, ts)
      item(j) ==
        LET t == ts[j]  p == at[j]
        IN IF ~Dynamic(t) THEN DecIn(t, b, p, strict)
           ELSE IF ~HasBytes(b, p, W) THEN Bad({"insuff"})
           ELSE LET tgt == SatAdd(org, SatInt(Slice(b, p, W)))
                IN IF tgt < headEnd \/ tgt >= Len(b) THEN Bad({"pointer"})
                   ELSE DecTail(t, b, tgt, strict)
      rs == TLCEval([j \in 1..n |-> item(j)])
  IN [f |-> UNION {rs[j].f : j \in 1..n}, v |-> TLCEval([j \in 1..n |-> rs[j].v])]
\* n items of type t from org on; only those that begin inside the payload, and one more, matter
DecRun(t, n, b, org, strict) ==
  LET hs == HeadSize(t)
      fit == Max2(0, Len(b) - org) \div hs + 1
      k == Min2(n, fit)
      r == DecItems(TLCEval([j \in 1..k |-> t]), b, org, SatAdd(org, SatMul(n, hs)), strict)
  IN IF k < n THEN [r EXCEPT !.f = @ \cup {"insuff"}] ELSE r
\* static type t at pos
DecIn(t, b, pos, strict) ==
  CASE t.k = "arr" -> DecRun(t.t, t.n, b, pos, strict)
    [] t.k = "tup" -> DecItems(t.c, b, pos, CAP, strict)
    [] OTHER -> IF HasBytes(b, pos, W) THEN DecWord(t, Slice(b, pos, W)) ELSE Bad({"insuff"})
\* body of dynamic type t at pos
DecTail(t, b, pos, strict) ==
  CASE t.k = "bytes" -> DecBytes(b, pos, strict, FALSE)
    [] t.k = "string" -> DecBytes(b, pos, strict, TRUE)
    [] t.k = "tup" ->
         DecItems(t.c, b, pos,
                  FoldLeft(LAMBDA a, x : SatAdd(a, HeadSize(x)), pos, t.c), strict)
    [] t.k = "arr" /\ t.n # -1 -> DecRun(t.t, t.n, b, pos, strict)
    [] t.k = "arr" /\ t.n = -1 ->
         IF ~HasBytes(b, pos, W) THEN Bad({"insuff"})
         ELSE DecRun(t.t, SatInt(Slice(b, pos, W)), b, pos + W, strict)

DecTop(ts, b, strict) == DecTail([k |-> "tup", c |-> ts], b, 0, strict)
=============================================================================
