------------------------------ MODULE Decoder ------------------------------
(***************************************************************************)
(* Decoding as a machine that works through a stream, the way decoders do: *)
(* a position, a stack of frames (origin for offsets, position to return   *)
(* to), a stack of things left to do, and a stack of values obtained.      *)
(* Codec!DecTop is what a payload denotes; the machine must arrive there   *)
(* for every payload (Arrives), naming only faults the payload has, with   *)
(* its frames unwound (Unwound), in finitely many steps (Ends).  Offsets   *)
(* may be validated before anything else of a container is decoded or when *)
(* they are followed (early).                                              *)
(***************************************************************************)
EXTENDS Codec, FiniteSets, Json

CONSTANTS MaxWords,   \* payloads have at most so many words
          Few,        \* TRUE: only a few types
          Slips,      \* mistakes put in on purpose (negative controls): "" or the name of one
          Gen

VARIABLES ts, b, strict, early,
          pos, frames, todo, out, st, steps
vars == <<ts, b, strict, early, pos, frames, todo, out, st, steps>>
input == <<ts, b, strict, early>>

(*------------------------------- universe --------------------------------*)
U8 == [k |-> "uint", n |-> 8]   OO == [k |-> "bool"]   I8 == [k |-> "int", n |-> 8]
YY == [k |-> "bytes"]           SS == [k |-> "string"]
Arr(t, n) == [k |-> "arr", t |-> t, n |-> n]
Tup(c) == [k |-> "tup", c |-> c]
TypeLists == IF Few THEN {<<YY, U8>>, <<Arr(Arr(U8, -1), -1)>>, <<Arr(YY, 2)>>} ELSE {<<U8>>, <<I8>>, <<OO>>, <<YY>>, <<SS>>, <<U8, YY>>, <<YY, U8>>, <<YY, YY>>,
  <<Arr(U8, -1)>>, <<Arr(YY, -1)>>, <<Arr(U8, 2)>>, <<Arr(YY, 2)>>, <<Arr(YY, 1)>>,
  <<Arr(Arr(U8, -1), -1)>>, <<Arr(Arr(U8, 2), -1)>>, <<Arr(Arr(U8, -1), 2)>>,
  <<Tup(<<YY>>)>>, <<Tup(<<U8, YY>>)>>, <<Tup(<<U8, U8>>), YY>>, <<Tup(<<Tup(<<YY>>), U8>>)>>,
  <<Arr(Tup(<<U8, YY>>), -1)>>, <<Arr(Tup(<<YY>>), 1)>>, <<Arr(U8, 2), YY>>, <<U8, Tup(<<YY>>)>>}
Words == {Word(i) : i \in {0, 1, 2, W, 2 * W, 3 * W}} \cup {Rep(255, W)}

(*------------------------------- machine ---------------------------------*)
Origin == IF frames = <<>> THEN 0 ELSE frames[Len(frames)].org
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Top(s) == s[Len(s)]
Do(o, t, n) == [o |-> o, t |-> t, n |-> n]
\* things to do for items of types l, headEnd being where their head section ends; last first
Items(l, headEnd) ==
  LET n == Len(l)
  IN <<Do("collect", U8, n)>> \o TLCEval([j \in 1..n |->
        LET t == l[n + 1 - j] IN IF Dynamic(t) THEN Do("offset", t, headEnd) ELSE Do("inline", t, 0)])
HeadsOf(l) == FoldLeft(LAMBDA a, x : SatAdd(a, HeadSize(x)), 0, l)
Abort(f) == /\ st' = f /\ todo' = <<>> /\ UNCHANGED <<pos, frames, out>>
\* the n bytes at pos are there; a slipping machine reads what there is
Has(n) == HasBytes(b, pos, n)
WordHere == Slice(b, pos, W)

Start == /\ ts \in TypeLists /\ b = <<>> /\ strict \in BOOLEAN /\ early \in BOOLEAN
         /\ pos = 0 /\ frames = <<>> /\ out = <<>> /\ st = "idle" /\ steps = 0
         /\ todo = <<Do("items", Tup(ts), 0)>>

\* containers: their items, after validating all offsets where that is done early
BadOffset(l, at) ==
  LET heads == FoldLeft(LAMBDA acc, x : Append(acc, SatAdd(acc[Len(acc)], HeadSize(x))), <<at>>, l)
      bad(j) == /\ Dynamic(l[j]) /\ HasBytes(b, heads[j], W)
                /\ LET tgt == SatAdd(Origin, SatInt(Slice(b, heads[j], W)))
                   IN tgt < Top(heads) \/ tgt >= Len(b)
  IN \E j \in 1..Len(l) : bad(j)
Enter(l, rest) ==
  IF early /\ BadOffset(l, pos) THEN Abort("pointer")
  ELSE /\ todo' = rest \o Items(l, SatAdd(pos, HeadsOf(l)))
       /\ UNCHANGED <<pos, frames, out, st>>
\* only as many items as can begin inside the payload, and one more, are laid out
Run(t, n) == LET k == Min2(n, Max2(0, Len(b) - pos) \div HeadSize(t) + 1) IN TLCEval([j \in 1..k |-> t])
EnterRun(t, n, rest) ==
  LET l == Run(t, n)
      headEnd == IF Slips = "running" THEN SatAdd(pos, W) ELSE SatAdd(pos, SatMul(n, HeadSize(t)))
  IN IF early /\ Len(l) = n /\ BadOffset(l, pos) THEN Abort("pointer")
     ELSE /\ todo' = rest \o (IF Len(l) < n THEN <<Do("short", U8, 0)>> ELSE <<>>) \o Items(l, headEnd)
          /\ UNCHANGED <<pos, frames, out, st>>

Step ==
  LET d == Top(todo)  rest == Pop(todo)  t == d.t
  IN CASE d.o = "items" -> Enter(t.c, rest)
       [] d.o = "collect" ->
            /\ out' = SubSeq(out, 1, Len(out) - d.n) \o <<SubSeq(out, Len(out) - d.n + 1, Len(out))>>
            /\ todo' = rest /\ UNCHANGED <<pos, frames, st>>
       [] d.o = "short" -> Abort("insuff")
       [] d.o = "offset" ->
            IF ~Has(W) THEN Abort("insuff")
            ELSE LET tgt == SatAdd(Origin, SatInt(WordHere))
                 IN IF (tgt < d.n /\ Slips # "backward") \/ tgt >= Len(b) THEN Abort("pointer")
                    ELSE /\ frames' = Append(frames, [org |-> tgt, back |-> pos + W])
                         /\ pos' = tgt
                         /\ todo' = rest \o <<Do("leave", U8, 0), Do("tail", t, 0)>>
                         /\ UNCHANGED <<out, st>>
       [] d.o = "leave" ->
            /\ pos' = IF Slips = "noreturn" THEN pos ELSE Top(frames).back
            /\ frames' = IF Slips = "nopop" THEN frames ELSE Pop(frames)
            /\ todo' = rest /\ UNCHANGED <<out, st>>
       [] d.o = "inline" /\ t.k = "tup" -> /\ todo' = rest \o Items(t.c, 0) /\ UNCHANGED <<pos, frames, out, st>>
       [] d.o = "inline" /\ t.k = "arr" -> EnterRun(t.t, t.n, rest)
       [] d.o = "inline" ->
            IF ~Has(W) THEN Abort("insuff")
            ELSE LET r == DecWord(t, WordHere)
                 IN IF r.f # {} THEN Abort(CHOOSE f \in r.f : TRUE)
                    ELSE /\ out' = Append(out, r.v) /\ pos' = pos + W /\ todo' = rest
                         /\ UNCHANGED <<frames, st>>
       [] d.o = "tail" /\ t.k = "tup" -> Enter(t.c, rest)
       [] d.o = "tail" /\ t.k = "arr" /\ t.n # -1 -> EnterRun(t.t, t.n, rest)
       [] d.o = "tail" /\ t.k = "arr" ->      \* the count, then items relative to what follows it
            IF ~Has(W) THEN Abort("insuff")
            ELSE /\ frames' = Append(Pop(frames), [Top(frames) EXCEPT !.org = IF Slips = "count" THEN @ ELSE pos + W])
                 /\ pos' = pos + W
                 /\ todo' = rest \o <<Do("run", t, SatInt(WordHere))>>
                 /\ UNCHANGED <<out, st>>
       [] d.o = "run" -> EnterRun(t.t, d.n, rest)
       [] d.o = "tail" ->                     \* byte string: length, content, padding
            IF ~Has(W) THEN Abort("insuff")
            ELSE LET n == SatInt(WordHere)
                     from == pos + W
                     full == IF n >= CAP THEN CAP ELSE CeilW(n)
                     content == Slice(b, from, n)
                 IN IF ~HasBytes(b, from, IF strict THEN full ELSE n) THEN Abort("insuff")
                    ELSE IF strict /\ ~AllEq(SubSeq(b, from + n + 1, from + full), 0) THEN Abort("padding")
                    ELSE IF t.k = "string" /\ ~Utf8Valid(content) THEN Abort("unicode")
                    ELSE /\ out' = Append(out, content) /\ pos' = from + n /\ todo' = rest
                         /\ UNCHANGED <<frames, st>>

\* the payload arrives word by word, perhaps ending in a part of one
Arrive == /\ st = "idle"
          /\ \/ \E w \in Words : Len(b) < MaxWords * W /\ b' = b \o w /\ st' = st
             \/ b' = b /\ st' = "run"
             \/ b' = b \o <<0>> /\ st' = "run"
          /\ UNCHANGED <<ts, strict, early, pos, frames, todo, out, steps>>
Next == \/ Arrive
        \/ /\ st = "run" /\ todo # <<>> /\ Step /\ steps' = steps + 1 /\ UNCHANGED input
        \/ /\ st = "run" /\ todo = <<>> /\ st' = "ok" /\ UNCHANGED <<input, pos, frames, todo, out, steps>>
Spec == Start /\ [][Next]_vars /\ WF_vars(Next) /\ SF_vars(st = "idle" /\ Arrive /\ st' = "run")

(*------------------------------- properties ------------------------------*)
Meaning == DecTop(ts, b, strict)
Arrives == /\ st = "ok" => Meaning.f = {} /\ out = <<Meaning.v>>
           /\ st \notin {"idle", "run", "ok"} => st \in Meaning.f
Unwound == st = "ok" => frames = <<>>
\* every frame begins inside the payload, inner ones not before outer ones
Nested == \A i \in 1..Len(frames) : /\ frames[i].org <= Len(b)
                                    /\ i > 1 => frames[i - 1].org <= frames[i].org
\* bytes are read inside the payload only
Inside == pos <= Len(b)
Stops == steps <= 400
Ends == <>(st \notin {"idle", "run"})
Emitted == (Gen /\ st \notin {"idle", "run"}) => PrintT("@@H@@" \o ToJson([ts |-> ts, wire |-> b, ops |-> <<"grid">>, as |-> <<>>]))
=============================================================================
