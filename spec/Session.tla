------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Histories of calls on shared codecs (C09).  A call is abstract: which   *)
(* operation, through which registry (1: the default one, 2: one with a    *)
(* decoder object registered once for byte strings, 3: a copy of 2), for   *)
(* which shape of type, with which strictness, on which class of input.    *)
(* The state is what an implementation may keep between calls: coder       *)
(* caches, the strictness flag of the registered object, the frames of a   *)
(* decoding stream, remembered encodings.  Answer computes the response by *)
(* that mechanism; NoMemory says it is always the pure function of the     *)
(* call.  Keeps selects the mechanism; all but "nothing" are negative      *)
(* controls.                                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS SDepth, SEmit, SAlphabet, Keeps, Traps, Themes

Shapes == {"B", "T", "A", "S"}   \* byte string, tuple with one, array of them, static
C(o, r, t, st, p) == [o |-> o, r |-> r, t |-> t, st |-> st, p |-> p, k |-> 0]
DecCalls == {C("dec", r, t, st, p) : r \in 1..3, t \in Shapes, st \in 0..1, p \in {"good", "slack", "bad"}}
EncCalls == {C(o, r, t, 1, p) : o \in {"enc", "ask"}, r \in 1..2, t \in Shapes, p \in {"good", "bad"}}
ValCalls == {C("val", 1, t, 1, p) : t \in {"U", "Bool"}, p \in {"one", "true"}}
HeldCalls == {C("held", r, t, st, p) : r \in 1..2, t \in {"B", "A"}, st \in 0..1, p \in {"good", "slack"}}
ParseCalls == {C("parse", 1, "S", 1, p) : p \in {"good", "bad"}}
TrapCalls == {[C("trap", 1, "S", 1, "good") EXCEPT !.k = k] : k \in 1..Traps}
\* closely related calls: k says which one; what it answers is its own affair
ThemeCalls == {[C("theme", 1, "S", 1, "good") EXCEPT !.k = k] : k \in 1..Themes}
Calls == CASE SAlphabet = "calls" -> DecCalls \cup EncCalls \cup ValCalls \cup HeldCalls \cup ParseCalls
           [] SAlphabet = "traps" -> TrapCalls
           [] SAlphabet = "themes" -> ThemeCalls
           [] SAlphabet = "all" -> DecCalls \cup EncCalls \cup ValCalls \cup HeldCalls \cup ParseCalls \cup TrapCalls \cup ThemeCalls

VARIABLES flag,   \* strictness of the registered object
          cache,  \* strictness of the coder found first, by registry and shape
          frames, \* frames left on a stream
          memo,   \* remembered encodings, by type and equality class of the value
          last,   \* last call and its answer
          hist
vars == <<flag, cache, frames, memo, last, hist>>
State == <<flag, cache, frames, memo, last>>

\* what the call means by itself
Pure(c) ==
  CASE c.o \in {"dec", "held"} ->
         (IF c.p = "good" THEN "ok" ELSE IF c.p = "slack" /\ c.st = 0 /\ c.t # "S" THEN "ok" ELSE "fail")
    [] c.o = "val" -> (IF (c.t = "U") = (c.p = "one") THEN "ok" ELSE "fail")
    [] c.o = "theme" -> ToString(c.k)
    [] OTHER -> IF c.p = "good" THEN "ok" ELSE "fail"

Effective(c) ==   \* strictness the decoding really applies
  CASE Keeps = "flag" /\ c.r \in 2..3 -> IF c.o = "held" THEN flag ELSE c.st
    [] Keeps = "onekey" /\ <<c.r, c.t>> \in DOMAIN cache -> cache[<<c.r, c.t>>]
    [] OTHER -> c.st
Answer(c) ==
  IF Keeps = "wears" /\ frames > 3 THEN "fail"
  ELSE IF c.o \in {"dec", "held"} THEN
       IF Keeps = "frames" /\ frames > 0 /\ c.t \in {"T", "A"} THEN "fail"
       ELSE Pure([c EXCEPT !.st = Effective(c)])
  ELSE IF c.o = "val" /\ Keeps = "memo" /\ c.t \in DOMAIN memo THEN memo[c.t]
  ELSE IF c.o = "theme" /\ Keeps = "coarse" /\ c.k % 3 \in DOMAIN memo THEN memo[c.k % 3]
  ELSE Pure(c)

Init == /\ flag = 1 /\ frames = 0 /\ hist = <<>>
        /\ cache = <<>> /\ memo = <<>> /\ last = [c |-> C("none", 1, "S", 1, "good"), a |-> "ok"]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Do(c) ==
  /\ last' = [c |-> c, a |-> Answer(c)]
  /\ flag' = IF Keeps = "flag" /\ c.o = "dec" /\ c.r \in 2..3 THEN c.st ELSE flag
  /\ cache' = IF Keeps = "onekey" /\ c.o = "dec" /\ <<c.r, c.t>> \notin DOMAIN cache
              THEN Put(cache, <<c.r, c.t>>, c.st) ELSE cache
  /\ frames' = IF Keeps = "wears" THEN frames + 1
               ELSE IF Keeps = "frames" /\ c.o = "dec" /\ Answer(c) = "fail" /\ c.t \in {"T", "A"} THEN 1 ELSE frames
  /\ memo' = IF Keeps = "memo" /\ c.o = "val" /\ c.t \notin DOMAIN memo THEN Put(memo, c.t, Pure(c))
             ELSE IF Keeps = "coarse" /\ c.o = "theme" /\ c.k % 3 \notin DOMAIN memo THEN Put(memo, c.k % 3, Pure(c))
             ELSE memo
  /\ hist' = Append(hist, c)
Next == Len(hist) < SDepth /\ \E c \in Calls : Do(c)
Spec == Init /\ [][Next]_vars

NoMemory == last.a = Pure(last.c) \/ last.c.o = "none"
Emitted == IF SEmit /\ Len(hist) = SDepth THEN PrintT("@@H@@" \o ToJson(hist)) ELSE TRUE
=============================================================================
