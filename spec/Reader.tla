------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* Text decoding as a machine that receives one byte after the other and   *)
(* never looks ahead, against the definition of Utf8.tla, and the laws     *)
(* that tie the error handlers together.  Handlers that answer for more or *)
(* fewer bytes than are in error cannot be followed byte by byte; for them *)
(* only the laws are checked.                                              *)
(***************************************************************************)
EXTENDS Utf8, FiniteSets

CONSTANTS Alphabet,  \* the bytes fed
          MaxLen,    \* at most so many
          Bend       \* "none", or a deliberate mistake (negative controls)

VARIABLES h,     \* the error handler
          s,     \* all bytes received
          pend,  \* bytes of a sequence begun and not yet complete
          out,   \* the text so far
          ok     \* nothing was refused
vars == <<h, s, pend, out, ok>>

InPlace == {"strict", "replace", "ignore", "backslashreplace", "surrogateescape", "verif.count"}

Init == h \in Handlers /\ s = <<>> /\ pend = <<>> /\ out = <<>> /\ ok = TRUE

Follow(p) ==   \* what may come after the bytes p of a sequence
  LET l == Lead(p[1]) IN
  IF Len(p) = 1 /\ ~(Bend = "cesu" /\ p[1] = 237) /\ ~(Bend = "overlong" /\ p[1] \in {224, 240}) THEN l.lo..l.hi ELSE 128..191
Whole(p) == Len(p) = Lead(p[1]).n + 1
Value(p) ==
  CASE Len(p) = 1 -> p[1]
    [] Len(p) = 2 -> (p[1] % 32) * 64 + Cont(p[2])
    [] Len(p) = 3 -> (p[1] % 16) * 4096 + Cont(p[2]) * 64 + Cont(p[3])
    [] Len(p) = 4 -> (p[1] % 8) * 262144 + Cont(p[2]) * 4096 + Cont(p[3]) * 64 + Cont(p[4])
Bad(p) == Handle(h, p, 1, Len(p))
\* the machine m = [pend, out, ok] after byte b that begins a sequence
Begin(m, b) ==
  IF ~m.ok THEN m
  ELSE IF Lead(b).n < 0 THEN [pend |-> <<>>, out |-> m.out \o Bad(<<b>>).t, ok |-> Bad(<<b>>).ok]
  ELSE IF Lead(b).n = 0 THEN [m EXCEPT !.out = Append(m.out, b)]
  ELSE [m EXCEPT !.pend = <<b>>]
Step(m, b) ==
  IF ~m.ok \/ m.pend = <<>> THEN Begin(m, b)
  ELSE IF b \in Follow(m.pend)
  THEN LET p == Append(m.pend, b) IN
       IF Whole(p) THEN [m EXCEPT !.pend = <<>>, !.out = Append(m.out, Value(p))] ELSE [m EXCEPT !.pend = p]
  ELSE LET e == Bad(m.pend)
           n == [pend |-> <<>>, out |-> m.out \o e.t, ok |-> e.ok]
       IN IF Bend = "swallow" THEN n   \* the byte after the broken sequence is lost
          ELSE Begin(n, b)

Feed(b) ==
  /\ Len(s) < MaxLen
  /\ s' = Append(s, b)
  /\ LET m == Step([pend |-> pend, out |-> out, ok |-> ok], b)
     IN pend' = m.pend /\ out' = m.out /\ ok' = m.ok
  /\ UNCHANGED h
Next == \E b \in Alphabet : Feed(b)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* what the text is if the content ends here
Final == LET e == Bad(pend) IN
  IF ~ok \/ pend = <<>> THEN [ok |-> ok, t |-> out] ELSE [ok |-> e.ok, t |-> out \o e.t]

Reads == h \in InPlace =>
  LET d == Utf8Dec(s, h) IN d.ok = Final.ok /\ (d.ok => d.t = Final.t)
StrictIsValidity == Utf8Dec(s, "strict").ok = Utf8Valid(s)
HandlersAgree == Utf8Valid(s) =>
  LET d == Utf8Dec(s, h) IN d.ok /\ TextOk(d.t) /\ Utf8Of(d.t) = s
\* no handler but the surrogate ones invents surrogates
Clean == LET d == Utf8Dec(s, h) IN
  d.ok /\ h \notin {"surrogateescape", "surrogatepass"} => TextOk(d.t)
\* escaping loses nothing: the content can be had back
EscapeLossless == h = "surrogateescape" =>
  LET d == Utf8Dec(s, h)
      back == Concat(TLCEval([i \in 1..Len(d.t) |-> IF d.t[i] \in 56448..56575 THEN <<d.t[i] - 56320>> ELSE Utf8Cp(d.t[i])]))
  IN d.ok /\ back = s
\* reading resumes after a complete sequence as if nothing had come before
Restarts == \A i \in 0..Len(s) :
  LET a == SubSeq(s, 1, i)
      z == SubSeq(s, i + 1, Len(s))
      d == Utf8Dec(s, h)
  IN Utf8Valid(a) => /\ d.ok = Utf8Dec(z, h).ok
                     /\ d.ok => d.t = Utf8Dec(a, h).t \o Utf8Dec(z, h).t
Inv == Reads /\ StrictIsValidity /\ HandlersAgree /\ Clean /\ EscapeLossless /\ Restarts
=============================================================================
