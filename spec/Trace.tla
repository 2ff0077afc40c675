------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Replays a recorded ndjson log (file named by the environment variable   *)
(* TRACE) against the specification: every event is one step, taken        *)
(* whatever the verdict, so that one violation does not hide another.  The *)
(* log is dealt out to CHAINS independent chains to use all workers.       *)
(***************************************************************************)
EXTENDS Clauses, Json, IOUtils, TLC

Log == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Log)
K == atoi(IOEnv.CHAINS)

VARIABLES ch, i
vars == <<ch, i>>

Init == ch \in 1..K /\ i = ch
Judged(j) ==
  LET v == Verdict(Log[j])
  IN IF v = "" THEN TRUE ELSE PrintT("@@" \o ToString(j) \o "@@" \o v)
Next == /\ i <= N
        /\ Judged(i)
        /\ i' = i + K
        /\ UNCHANGED ch
Spec == Init /\ [][Next]_vars
=============================================================================
