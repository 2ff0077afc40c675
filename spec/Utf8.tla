-------------------------------- MODULE Utf8 --------------------------------
(***************************************************************************)
(* UTF-8 (Unicode 15, table 3-7), on code points and bytes, and decoding   *)
(* under the standard error handlers: each maximal subpart of an           *)
(* ill-formed sequence is one error.                                       *)
(***************************************************************************)
EXTENDS Bytes

IsSurrogate(c) == c >= 55296 /\ c <= 57343
CpOk(c) == c >= 0 /\ c <= 1114111 /\ ~IsSurrogate(c)

Utf8Cp(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
TextOk(cs) == \A i \in 1..Len(cs) : CpOk(cs[i])
\* ASCII texts are their own UTF-8 form (said separately only to keep TLC fast)
Utf8Of(cs) == IF \A i \in 1..Len(cs) : cs[i] < 128 THEN cs
              ELSE Concat(TLCEval([i \in 1..Len(cs) |-> Utf8Cp(cs[i])]))

\* what a lead byte announces: number of continuation bytes and range of the first
Lead(b) ==
  IF b < 128 THEN [n |-> 0, lo |-> 0, hi |-> 0]
  ELSE IF b < 194 \/ b > 244 THEN [n |-> -1, lo |-> 0, hi |-> 0]
  ELSE IF b < 224 THEN [n |-> 1, lo |-> 128, hi |-> 191]
  ELSE IF b < 240 THEN [n |-> 2, lo |-> IF b = 224 THEN 160 ELSE 128,
                        hi |-> IF b = 237 THEN 159 ELSE 191]
  ELSE [n |-> 3, lo |-> IF b = 240 THEN 144 ELSE 128, hi |-> IF b = 244 THEN 143 ELSE 191]

\* automaton: need = continuation bytes missing, range of the next one
ValidStep(st, b) ==
  IF ~st.ok THEN st
  ELSE IF st.need = 0
       THEN LET l == Lead(b) IN [ok |-> l.n >= 0, need |-> l.n, lo |-> l.lo, hi |-> l.hi]
       ELSE [ok |-> b >= st.lo /\ b <= st.hi, need |-> st.need - 1, lo |-> 128, hi |-> 191]
Utf8Valid(s) ==
  LET r == FoldLeft(ValidStep, [ok |-> TRUE, need |-> 0, lo |-> 0, hi |-> 0], s)
  IN r.ok /\ r.need = 0

(*--------------------------- error handlers ------------------------------*)
(* A handler is told which bytes are in error and answers with a text and  *)
(* the number of bytes that text stands for, or refuses ([ok |-> FALSE]).  *)
(* s is the whole content, bytes i..i+n-1 are in error.  The standard      *)
(* handlers are Python's; verif.* are handlers of our own, registered by   *)
(* the harness.                                                            *)
HexDigit(x) == IF x < 10 THEN 48 + x ELSE 87 + x
Says(t, n) == [ok |-> TRUE, t |-> t, n |-> n]
Refuses == [ok |-> FALSE, t |-> <<>>, n |-> 1]
Handle(h, s, i, n) ==
  CASE h = "strict" -> Refuses
    [] h = "replace" -> Says(<<65533>>, n)
    [] h = "ignore" -> Says(<<>>, n)
    [] h = "backslashreplace" ->
         Says(Concat(TLCEval([j \in 1..n |-> <<92, 120, HexDigit(s[i+j-1] \div 16), HexDigit(s[i+j-1] % 16)>>])), n)
    [] h = "surrogateescape" -> Says(TLCEval([j \in 1..n |-> 56320 + s[i+j-1]]), n)
    [] h = "surrogatepass" ->   \* the three-byte form of a surrogate stands for it
         IF i + 2 <= Len(s) /\ s[i] = 237 /\ s[i+1] \in 160..191 /\ s[i+2] \in 128..191
         THEN Says(<<53248 + (s[i+1] % 64) * 64 + (s[i+2] % 64)>>, 3)
         ELSE Refuses
    [] h = "verif.count" -> Says(<<60, 48 + n, 62>>, n)
    [] h = "verif.step" -> Says(<<63>>, 1)
    [] h = "verif.skip" -> Says(<<46>>, IF i + n <= Len(s) THEN n + 1 ELSE n)
    [] h = "verif.rest" -> Says(<<33>>, Len(s) - i + 1)
Handlers == {"strict", "replace", "ignore", "backslashreplace", "surrogateescape", "surrogatepass",
             "verif.count", "verif.step", "verif.skip", "verif.rest"}

Cont(b) == b % 64
\* the sequence that starts at position i: how many bytes, and its text under h
Unit(s, i, h) ==
  LET b == s[i]
      l == Lead(b)
      in1 == i + 1 <= Len(s) /\ s[i+1] >= l.lo /\ s[i+1] <= l.hi
      in2 == in1 /\ i + 2 <= Len(s) /\ s[i+2] \in 128..191
      in3 == in2 /\ i + 3 <= Len(s) /\ s[i+3] \in 128..191
      good == IF in3 THEN 3 ELSE IF in2 THEN 2 ELSE IF in1 THEN 1 ELSE 0
  IN IF l.n = 0 THEN Says(<<b>>, 1)
     ELSE IF l.n < 0 THEN Handle(h, s, i, 1)
     ELSE IF good >= l.n
     THEN Says(<<IF l.n = 1 THEN (b - 192) * 64 + Cont(s[i+1])
                 ELSE IF l.n = 2 THEN (b - 224) * 4096 + Cont(s[i+1]) * 64 + Cont(s[i+2])
                 ELSE (b - 240) * 262144 + Cont(s[i+1]) * 4096 + Cont(s[i+2]) * 64 + Cont(s[i+3])>>, l.n + 1)
     ELSE Handle(h, s, i, good + 1)

(* Reading from left to right: at = position of the byte looked at,         *)
(* next = first byte not yet accounted for.  Result: [ok, t].               *)
Utf8Dec(s, h) ==
  IF \A i \in 1..Len(s) : s[i] < 128 THEN [ok |-> TRUE, t |-> s]
  ELSE
  LET step(st, b) ==
        IF ~st.ok \/ st.at < st.next THEN [st EXCEPT !.at = st.at + 1]
        ELSE LET u == Unit(s, st.at, h) IN
             [ok |-> u.ok, at |-> st.at + 1, next |-> st.at + u.n, t |-> st.t \o u.t]
      r == FoldLeft(step, [ok |-> TRUE, at |-> 1, next |-> 1, t |-> <<>>], s)
  IN [ok |-> r.ok, t |-> r.t]
=============================================================================
