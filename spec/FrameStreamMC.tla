--------------------------- MODULE FrameStreamMC ---------------------------
(* Histories of stream operations: properties of the frame stack, and histories for replay. *)
EXTENDS FrameStream, Json
CONSTANTS FDepth, FLen, FNums, FEmit

VARIABLES s, hist
fvars == <<s, hist>>
FOps == {FOp("read", n) : n \in FNums} \cup {FOp("seek", n) : n \in FNums} \cup {FOp("seekf", n) : n \in FNums}
        \cup {FOp("push", n) : n \in FNums} \cup {FOp("pop", 0)}
Init == s = FS0 /\ hist = <<>>
Next == /\ Len(hist) < FDepth
        /\ \E op \in FOps : s' = FApply(s, op, FLen).s /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_fvars
FEmitted == IF FEmit /\ Len(hist) = FDepth THEN PrintT("@@H@@" \o ToJson(hist)) ELSE TRUE

\* the origin is the sum of what was pushed and not popped
PushedSum ==
  LET st == FoldLeft(LAMBDA acc, op : IF op.o = "push" THEN Append(acc, op.n)
                                      ELSE IF op.o = "pop" /\ acc # <<>> THEN SubSeq(acc, 1, Len(acc) - 1) ELSE acc, <<>>, hist)
  IN s.org = SumOver(st) /\ Len(s.fr) = Len(st)
\* a frame pushed now and popped after any single further operation restores everything
Restores == \A n \in FNums : \A op \in FOps :
  op.o \notin {"push", "pop"} =>
  LET a == FApply(s, FOp("push", n), FLen).s
      b == FApply(a, op, FLen).s
  IN FApply(b, FOp("pop", 0), FLen).s = s
\* popping all frames leads back to origin 0
RECURSIVE Unwind(_)
Unwind(x) == IF x.fr = <<>> THEN x ELSE Unwind(FApply(x, FOp("pop", 0), FLen).s)
Balanced == Unwind(s).org = 0
=============================================================================
