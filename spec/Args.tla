------------------------------- MODULE Args -------------------------------
(***************************************************************************)
(* A caller with objects of its own that it passes to calls, changes       *)
(* between them, and passes again (C24): a and b are byte buffers, l a     *)
(* list of references to them, d a buffer with a payload, t a list of      *)
(* types.  What a call answers is a function of what the objects hold at   *)
(* that time; calls change none of them, and answers do not change when    *)
(* the objects do later.                                                   *)
(***************************************************************************)
EXTENDS Judge

AYY == [k |-> "bytes"]
AB2 == [k |-> "bytesN", n |-> 2]
ArrOf(t, n) == [k |-> "arr", t |-> t, n |-> n]

ACall(f, ts, vs) == [o |-> "call", f |-> f, ts |-> ts, vs |-> vs, x |-> "", w |-> ""]
APoke(x, w) == [o |-> "poke", f |-> "", ts |-> <<>>, vs |-> <<>>, x |-> x, w |-> w]
\* ts = <<>>: the types are those held by t
ACalls ==
  {ACall(f, ts, vs) : f \in {"enc", "packed"}, ts \in {<<AYY>>, <<AB2>>}, vs \in {<<"a">>, <<"b">>}}
  \cup {ACall(f, <<AYY, AYY>>, <<"a", "a">>) : f \in {"enc", "packed"}}
  \cup {ACall(f, <<AYY, AB2, ArrOf(AYY, -1)>>, <<"a", "b", "l">>) : f \in {"enc", "packed"}}
  \cup {ACall(f, <<t>>, <<"l">>) : f \in {"enc", "packed", "ask"}, t \in {ArrOf(AYY, -1), ArrOf(AB2, 2), [k |-> "tup", c |-> <<AYY, AYY>>]}}
  \cup {ACall("ask", <<AB2>>, <<"b">>)}
  \cup {ACall(f, <<>>, <<"a", "b">>) : f \in {"enc", "packed"}}
  \cup {ACall(f, ts, <<"d">>) : f \in {"dec", "lax"}, ts \in {<<AYY, AB2>>, <<>>}}
APokes ==
  {APoke(x, w) : x \in {"a", "b"}, w \in {"flip", "grow", "clear"}}
  \cup {APoke("l", w) : w \in {"adda", "addb", "drop"}}
  \cup {APoke("d", w) : w \in {"flip", "grow", "cut", "dirty"}}
  \cup {APoke("t", w) : w \in {"add", "drop", "turn"}}
AFill == [a |-> <<1, 2>>, b |-> <<4>>, l |-> <<"a">>,
          d |-> EncItems(<<AYY, AB2>>, <<<<7, 8, 9>>, <<5, 0>>>>), t |-> <<AYY, AB2>>]
AFlip(s, i) == IF i < 1 \/ i > Len(s) THEN s ELSE [s EXCEPT ![i] = 255 - @]
APoked(h, p) ==
  LET s == h[p.x]
      n == Len(s)
      new == CASE p.x \in {"a", "b"} -> (CASE p.w = "flip" -> AFlip(s, 1) [] p.w = "grow" -> Append(s, 9) [] OTHER -> <<>>)
               [] p.x = "l" -> (CASE p.w = "adda" -> Append(s, "a") [] p.w = "addb" -> Append(s, "b")
                                  [] OTHER -> IF n = 0 THEN s ELSE SubSeq(s, 1, n - 1))
               [] p.x = "d" -> (CASE p.w = "flip" -> AFlip(s, 3 * W + 1) [] p.w = "grow" -> s \o Rep(255, W)
                                  [] p.w = "dirty" -> AFlip(s, 4 * W) [] OTHER -> IF n < W THEN s ELSE SubSeq(s, 1, n - 1))
               [] OTHER -> (CASE p.w = "add" -> Append(s, AYY) [] p.w = "turn" -> Reverse(s)
                              [] OTHER -> IF n = 0 THEN s ELSE SubSeq(s, 1, n - 1))
  IN [h EXCEPT ![p.x] = new]

\* Python values as the objects hold them
AVal(h, x) == IF x = "l" THEN [k |-> "seq", y |-> "list", i |-> TLCEval([j \in 1..Len(h.l) |-> [k |-> "bytes", y |-> "bytearray", b |-> h[h.l[j]]]])]
              ELSE [k |-> "bytes", y |-> "bytearray", b |-> h[x]]
AVals(h, c) == TLCEval([j \in 1..Len(c.vs) |-> AVal(h, c.vs[j])])
ATypes(h, c) == IF c.ts = <<>> THEN h.t ELSE c.ts
\* what the call must answer: f: faults to choose from, v: bytes / 0 or 1 / values
AAnswer(h, c) ==
  LET ts == ATypes(h, c)
  IN IF c.f \in {"dec", "lax"} THEN DecTop(ts, h.d, c.f = "dec")
     ELSE LET vs == AVals(h, c)
              f == TopFaults(ts, vs)
          IN IF c.f = "ask" THEN Ok(IF f = {} THEN 1 ELSE 0)
             ELSE IF f # {} THEN Bad(f)
             ELSE Ok(IF c.f = "packed" THEN PEncItems(ts, TopAbs(ts, vs)) ELSE EncItems(ts, TopAbs(ts, vs)))

(* verdict on a recorded history: e.ops; for every operation e.obs[i]: h: what the objects hold after it,
   r: outcome of the call as seen then, z: the same outcome as seen at the very end, q: outcome of the call with
   fresh objects that hold the same *)
AHeld(h) == [a |-> h.a, b |-> h.b, l |-> h.l, d |-> h.d, t |-> h.t]
RECURSIVE AWalk(_, _, _)
AWalk(e, i, h) ==
  IF i > Len(e.ops) THEN ""
  ELSE LET op == e.ops[i]  o == e.obs[i]
           h2 == IF op.o = "poke" THEN APoked(h, op) ELSE h
       IN IF AHeld(o.h) # AHeld(h2) THEN (IF op.o = "call" THEN "a call changed its arguments" ELSE "an argument could not be changed by its owner")
          ELSE IF op.o = "call" /\ o.r # o.q THEN "a call did not answer for what its arguments held at the time"
          ELSE IF op.o = "call" /\ o.r # o.z THEN "an answer changed after it was given"
          ELSE AWalk(e, i + 1, h2)
ArgsHistory(e) == AWalk(e, 1, AFill)
=============================================================================
