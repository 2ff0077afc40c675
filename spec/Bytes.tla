------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings and natural numbers of any size.  TLC integers have 32     *)
(* bits, so naturals are big-endian byte sequences without leading zeros   *)
(* (<<>> is 0); lengths and positions are TLC integers saturating at CAP.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

CAP == 1073741824                           \* 2^30: larger than any payload

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SatAdd(a, b) == IF a >= CAP - b THEN CAP ELSE a + b
SatMul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a >= CAP \div b THEN CAP ELSE a * b

\* TLCEval only makes TLC compute a function once instead of at every application
Rep(b, n) == TLCEval([i \in 1..n |-> b])
PadL(s, n) == IF Len(s) >= n THEN s ELSE Rep(0, n - Len(s)) \o s
PadLWith(s, n, b) == IF Len(s) >= n THEN s ELSE Rep(b, n - Len(s)) \o s
PadR(s, n) == IF Len(s) >= n THEN s ELSE s \o Rep(0, n - Len(s))
AllEq(s, b) == \A i \in 1..Len(s) : s[i] = b
Slice(s, pos, n) == SubSeq(s, pos + 1, pos + n)      \* pos counts from 0
RECURSIVE ConcatR(_, _, _)
ConcatR(ss, lo, hi) ==
  IF lo > hi THEN <<>>
  ELSE IF hi - lo < 8 THEN FoldLeft(LAMBDA a, b : a \o b, <<>>, SubSeq(ss, lo, hi))
  ELSE LET m == (lo + hi) \div 2 IN ConcatR(ss, lo, m) \o ConcatR(ss, m + 1, hi)
Concat(ss) == ConcatR(ss, 1, Len(ss))
SumOver(ss) == FoldLeft(LAMBDA a, b : a + b, 0, ss)

(*------------------------------ naturals ---------------------------------*)
Strip(s) ==
  IF AllEq(s, 0) THEN <<>>
  ELSE LET k == CHOOSE k \in 1..Len(s) : s[k] # 0 /\ \A j \in 1..(k-1) : s[j] = 0
       IN SubSeq(s, k, Len(s))

\* a < b for stripped naturals
NLess(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE IF a = b THEN FALSE
  ELSE LET k == CHOOSE k \in 1..Len(a) : a[k] # b[k] /\ \A j \in 1..(k-1) : a[j] = b[j]
       IN a[k] < b[k]

\* a * k + c, for small k and c (k <= 10000, c < 2^20)
MulAdd(a, k, c) ==
  LET r == FoldRight(LAMBDA d, acc : LET x == d * k + acc[1]
                                     IN << x \div 256, <<x % 256>> \o acc[2] >>,
                     a, << c, <<>> >>)
      c1 == r[1]
  IN Strip(<<c1 \div 65536, (c1 \div 256) % 256, c1 % 256>> \o r[2])

\* 256^n - a, as n bytes, for 0 < a <= 256^n
TwosNeg(a, n) ==
  LET p == PadL(a, n)
      comp == TLCEval([i \in 1..Len(p) |-> 255 - p[i]])
      r == MulAdd(comp, 1, 1)
  IN IF Len(a) > n THEN Rep(0, n) ELSE PadL(r, n)

NatOfInt(i) == Strip(<<i \div 16777216, (i \div 65536) % 256, (i \div 256) % 256, i % 256>>)

\* value of a natural as TLC integer, CAP if it is CAP or more
SatInt(s) ==
  LET a == Strip(s)
  IN IF Len(a) > 4 \/ (Len(a) = 4 /\ a[1] >= 64) THEN CAP
     ELSE FoldLeft(LAMBDA acc, d : acc * 256 + d, 0, a)

\* 2^(8*k - sh) - 1 where sh is 0 or 1, for k >= 1
MaxNat(k, sh) == Strip(<<IF sh = 0 THEN 255 ELSE 127>> \o Rep(255, k - 1))
\* 2^(8*k - 1)
HalfNat(k) == <<128>> \o Rep(0, k - 1)

(*------------------------------ decimals ---------------------------------*)
Pow10(n) == <<1, 10, 100, 1000, 10000>>[n + 1]
\* sequence of decimal digits (any leading zeros) to natural
RECURSIVE DigitsFrom(_, _, _)
DigitsFrom(d, i, acc) ==
  IF i > Len(d) THEN acc
  ELSE LET n == Min2(4, Len(d) - i + 1)
           chunk == FoldLeft(LAMBDA a, x : a * 10 + x, 0, SubSeq(d, i, i + n - 1))
       IN DigitsFrom(d, i + n, MulAdd(acc, Pow10(n), chunk))
DigitsToNat(d) == DigitsFrom(d, 1, <<>>)

\* sequence of decimal digits to TLC integer, saturating
DigitsSat(d) == FoldLeft(LAMBDA a, x : SatAdd(SatMul(a, 10), x), 0, d)
=============================================================================
