---------------------------- MODULE FrameStream ----------------------------
(***************************************************************************)
(* The decoding stream: a position in a byte string, and a stack of frames *)
(* [org |-> origin before the push, ret |-> position at the push].         *)
(***************************************************************************)
EXTENDS Registry

FS0 == [pos |-> 0, org |-> 0, fr |-> <<>>]
FOp(o, n) == [o |-> o, n |-> n]

\* FApply(s, op, len): new state, outcome kind, and number of bytes read
FApply(s, op, len) ==
  CASE op.o = "read" -> LET k == Max2(0, Min2(op.n, len - s.pos))
                        IN [s |-> [s EXCEPT !.pos = @ + k], out |-> "ok", k |-> k]
    [] op.o = "seek" -> [s |-> [s EXCEPT !.pos = op.n], out |-> "ok", k |-> 0]
    [] op.o = "seekf" -> [s |-> [s EXCEPT !.pos = s.org + op.n], out |-> "ok", k |-> 0]
    [] op.o = "push" -> [s |-> [pos |-> s.org + op.n, org |-> s.org + op.n,
                                fr |-> Append(s.fr, [org |-> s.org, ret |-> s.pos])], out |-> "ok", k |-> 0]
    [] op.o = "pop" -> IF s.fr = <<>> THEN [s |-> s, out |-> "index", k |-> 0]
                       ELSE LET f == s.fr[Len(s.fr)]
                            IN [s |-> [pos |-> f.ret, org |-> f.org, fr |-> SubSeq(s.fr, 1, Len(s.fr) - 1)], out |-> "ok", k |-> 0]

(* C18: len, ops with outcome r0, position t and origin g after each (g = -1: not looked at), bytes d read; at the
   end everything is popped: pops lists the positions, each with the origin *)
\* byte number i (from 0) of the stream that histories are replayed on
StreamByte(i) == (i * 7 + 3) % 251
Stream(e) ==
  LET step(acc, op) ==
        IF acc.v # "" THEN acc
        ELSE LET a == FApply(acc.s, op, e.len)
             IN IF a.out = "index" /\ ~Raised(op.r0, "IndexError") THEN [s |-> a.s, v |-> "popping without a frame: no index error"]
                ELSE IF a.out = "ok" /\ op.r0.ok = 0 THEN [s |-> a.s, v |-> "operation " \o op.o \o " failed"]
                ELSE IF op.t # a.s.pos THEN [s |-> a.s, v |-> "wrong position after " \o op.o]
                ELSE IF op.g # -1 /\ op.g # a.s.org THEN [s |-> a.s, v |-> "wrong origin after " \o op.o]
                ELSE IF op.o = "read" /\ op.d # [i \in 1..a.k |-> StreamByte(acc.s.pos + i - 1)]
                     THEN [s |-> a.s, v |-> "wrong bytes read"]
                ELSE [s |-> a.s, v |-> ""]
      end == FoldLeft(step, [s |-> FS0, v |-> ""], e.ops)
      n == Len(end.s.fr)
      unwound == [i \in 1..n |-> [t |-> end.s.fr[n - i + 1].ret, g |-> end.s.fr[n - i + 1].org]]
  IN IF end.v # "" THEN end.v ELSE IF e.pops # unwound THEN "frames do not unwind to where they were pushed" ELSE ""

(* C18: ts decoded as a tuple at origin org from position org; ok, then position t, origin g, and what popping the
   enclosing frame gives (pt) where pushing was done at position p0 *)
AfterDecode(e) ==
  LET ts == Types(e)
      head == FoldLeft(LAMBDA a, x : SatAdd(a, HeadSize(x)), 0, ts)
  IN IF ~AllValid(ts) \/ e.r.ok = 0 THEN "skip"
     ELSE IF e.t # e.org + head THEN "after decoding the position is not just past the head"
     ELSE IF e.g # e.org THEN "after decoding the origin has moved"
     ELSE IF e.pt # e.p0 \/ e.pg # e.o0 THEN "after decoding the frame stack has changed"
     ELSE ""
=============================================================================
