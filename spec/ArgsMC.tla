------------------------------ MODULE ArgsMC ------------------------------
(***************************************************************************)
(* Histories of calls and changes to their arguments; how a library may go *)
(* wrong about them: answers that are references, results remembered by    *)
(* the identity of the arguments, arguments used as scratch space.         *)
(***************************************************************************)
EXTENDS Args, Json
CONSTANTS ADepth, AEmit, Wrong,
          Again       \* TRUE: only a call, a change, and a call with the same objects, and so on
VARIABLES heap, ghost, answers, memo, hist
vars == <<heap, ghost, answers, memo, hist>>

Init == /\ heap = AFill /\ ghost = AFill /\ answers = <<>> /\ memo = <<>> /\ hist = <<>>
Key(c) == <<c.f, c.ts, c.vs>>
\* what is answered: a value, or a reference to an object
Given(c) ==
  IF Wrong = "memo" /\ \E i \in 1..Len(memo) : memo[i][1] = Key(c)
  THEN [ref |-> "", v |-> memo[CHOOSE i \in 1..Len(memo) : memo[i][1] = Key(c)][2]]
  ELSE IF Wrong = "alias" /\ c.f = "packed" /\ c.vs = <<"a">> /\ AAnswer(heap, c).f = {} THEN [ref |-> "a", v |-> AAnswer(heap, c)]
  ELSE [ref |-> "", v |-> AAnswer(heap, c)]
Scratch(c) ==
  CASE Wrong = "inplace" /\ c.f = "enc" /\ c.ts = <<AB2>> /\ c.vs = <<"b">> /\ Len(heap.b) <= 2 -> [heap EXCEPT !.b = PadR(@, 2)]
    [] Wrong = "eats" /\ c.f = "enc" /\ c.ts = <<>> /\ heap.t # <<>> -> [heap EXCEPT !.t = Tail(@)]
    [] OTHER -> heap
Call(c) == LET g == Given(c) IN
           /\ answers' = Append(answers, [c |-> c, ref |-> g.ref, v |-> g.v, due |-> AAnswer(ghost, c)])
           /\ memo' = IF Wrong = "memo" THEN Append(memo, <<Key(c), g.v>>) ELSE memo
           /\ heap' = Scratch(c) /\ UNCHANGED ghost
Poke(p) == heap' = APoked(heap, p) /\ ghost' = APoked(ghost, p) /\ UNCHANGED <<answers, memo>>
Next == /\ Len(hist) < ADepth
        /\ \/ \E c \in ACalls : (Again => Len(hist) % 2 = 0 /\ (hist # <<>> => c.vs = hist[1].vs)) /\ Call(c) /\ hist' = Append(hist, c)
           \/ \E p \in APokes : (Again => Len(hist) % 2 = 1) /\ Poke(p) /\ hist' = Append(hist, p)
Spec == Init /\ [][Next]_vars

Seen(a) == IF a.ref = "" THEN a.v ELSE Ok(heap[a.ref])
Kept == heap = ghost
Stands == \A i \in 1..Len(answers) : Seen(answers[i]) = answers[i].due
Emitted == (AEmit /\ Len(hist) = ADepth) => PrintT("@@H@@" \o ToJson(hist))
=============================================================================
