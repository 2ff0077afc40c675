------------------------------ MODULE Overlap ------------------------------
(***************************************************************************)
(* Overlapping calls (C22).  Threads 1..Len(Quanta) make one call each; a  *)
(* call goes through Quanta[t] steps: the first looks up its coder, the    *)
(* following ones use it (opening a stream, moving in it), the last one    *)
(* answers.  Steps of different threads interleave freely.  Shares says    *)
(* what an implementation shares between calls in flight: "nothing", or    *)
(* (negative controls) the strictness flag of a coder, the frames of a     *)
(* stream, or a scratch buffer.  Alone: every call answers what it would   *)
(* answer by itself.  Complete behaviours are printed as schedules (the    *)
(* sequence of thread numbers) for replay in real threads.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS OEmit, Shares, OQuanta, OCalls
Q2 == <<4, 4>>
Q1 == <<24, 1>>
Q240 == <<240, 1>>
Q123 == <<12, 3>>
Q62 == <<6, 2>>
Q3 == <<2, 2, 2>>
QMC == <<4, 4, 3>>
Quanta == CASE OQuanta = "44" -> Q2 [] OQuanta = "241" -> Q1 [] OQuanta = "2401" -> Q240 [] OQuanta = "123" -> Q123 [] OQuanta = "62" -> Q62 [] OQuanta = "222" -> Q3 [] OQuanta = "443" -> QMC
Threads == 1..Len(Quanta)
C(st, p, nest) == [st |-> st, p |-> p, nest |-> nest]
Calls == IF OCalls = "one" THEN {C(1, "good", 0)}
         ELSE {C(st, p, n) : st \in 0..1, p \in {"good", "slack", "bad"}, n \in 0..1}

VARIABLES call, pc, own, flag, frames, owner, ans, sched
vars == <<call, pc, own, flag, frames, owner, ans, sched>>
View == <<call, pc, own, flag, frames, owner, ans>>

Pure(c) == IF c.p = "good" \/ (c.p = "slack" /\ c.st = 0) THEN "ok" ELSE "fail"
Init == /\ call \in [Threads -> Calls]
        /\ pc = [t \in Threads |-> 0]
        /\ own = [t \in Threads |-> [flag |-> 1, frames |-> 0]]
        /\ flag = 1 /\ frames = 0 /\ owner = 0
        /\ ans = [t \in Threads |-> "none"] /\ sched = <<>>

LookUp(t) ==
  /\ own' = [own EXCEPT ![t].flag = call[t].st]
  /\ flag' = IF Shares = "flag" THEN call[t].st ELSE flag
  /\ owner' = IF Shares = "buffer" THEN t ELSE owner
  /\ UNCHANGED <<frames, ans>>
Enter(t) ==    \* nested values push a frame in the middle of the call
  /\ own' = [own EXCEPT ![t].frames = @ + call[t].nest]
  /\ frames' = IF Shares = "frames" THEN frames + call[t].nest ELSE frames
  /\ UNCHANGED <<flag, owner, ans>>
Leave(t) ==
  LET f == IF Shares = "flag" THEN flag ELSE own[t].flag
      fr == IF Shares = "frames" THEN frames ELSE own[t].frames
      a == IF fr # call[t].nest \/ (Shares = "buffer" /\ owner # t) THEN "fail" ELSE Pure([call[t] EXCEPT !.st = f])
  IN /\ ans' = [ans EXCEPT ![t] = a]
     /\ frames' = IF Shares = "frames" THEN frames - call[t].nest ELSE frames
     /\ own' = [own EXCEPT ![t].frames = 0]
     /\ UNCHANGED <<flag, owner>>
Whole(t) ==    \* a call of one step
  /\ own' = [own EXCEPT ![t].flag = call[t].st]
  /\ flag' = IF Shares = "flag" THEN call[t].st ELSE flag
  /\ owner' = IF Shares = "buffer" THEN t ELSE owner
  /\ ans' = [ans EXCEPT ![t] = Pure(call[t])]
  /\ UNCHANGED frames
Idle == UNCHANGED <<own, flag, frames, owner, ans>>
Step(t) ==
  /\ pc[t] < Quanta[t]
  /\ pc' = [pc EXCEPT ![t] = @ + 1]
  /\ sched' = Append(sched, t)
  /\ UNCHANGED call
  /\ IF Quanta[t] = 1 THEN Whole(t)
     ELSE IF pc[t] = 0 THEN LookUp(t)
     ELSE IF pc[t] = Quanta[t] - 1 THEN Leave(t)
     ELSE IF pc[t] = 1 THEN Enter(t)
     ELSE Idle
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars

Alone == \A t \in Threads : ans[t] # "none" => ans[t] = Pure(call[t])
Done == \A t \in Threads : pc[t] = Quanta[t]
Emitted == IF OEmit /\ Done THEN PrintT("@@H@@" \o ToJson([q |-> Quanta, s |-> sched])) ELSE TRUE
=============================================================================
