------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* Registries of coders and what happens to them.                          *)
(*                                                                         *)
(* The state is a sequence of registries; a registry has two independent   *)
(* sides, "e" (encoders) and "d" (decoders), each a set of entries         *)
(* [p |-> predicate, c |-> coder, l |-> label, <<>> for none].             *)
(* Predicates: [k |-> "eq", v] (a type string), [k |-> "base", b, ws]      *)
(* (BaseEquals; ws: 1 with / 0 without / -1 whatever sub), [k |-> "arr"],  *)
(* [k |-> "tuple"], [k |-> "fn", id, ms] (a function true for the strings  *)
(* ms), [k |-> "pre", v] (a predicate class of the user's: strings that    *)
(* go on after v).  Two predicates are equal when these records are.       *)
(* Coders: tags (positive integers: user coders for one word each), and    *)
(* the built-in classes 0 (tuple class), -1 (array class), -2 (classes of  *)
(* elementary types).                                                      *)
(* Operations are records; Apply gives the new state and the outcome, and  *)
(* Resolve what coding a type must do in a state.                          *)
(***************************************************************************)
EXTENDS Boundary

cTUP == 0  cARR == -1  cELEM == -2

\* entries of the registry every history starts from
pBase(b, ws) == [k |-> "base", b |-> b, ws |-> ws]
pArr == [k |-> "arr"]
pTuple == [k |-> "tuple"]
Ent(p, c, l) == [p |-> p, c |-> c, l |-> l]
sBytesM == sBytes \o <<60, 77, 62>>                                      \* bytes<M>
sHasArr == <<104,97,115,95,97,114,114,108,105,115,116>>                   \* has_arrlist
sIsTuple == <<105,115,95,98,97,115,101,95,116,117,112,108,101>>           \* is_base_tuple
DefaultSide ==
  { Ent(pBase(sUint, -1), cELEM, sUint), Ent(pBase(sInt, -1), cELEM, sInt),
    Ent(pBase(sAddress, -1), cELEM, sAddress), Ent(pBase(sBool, -1), cELEM, sBool),
    Ent(pBase(sUfixed, -1), cELEM, sUfixed), Ent(pBase(sFixed, -1), cELEM, sFixed),
    Ent(pBase(sBytes, 1), cELEM, sBytesM), Ent(pBase(sBytes, 0), cELEM, sBytes),
    Ent(pBase(sFunction, -1), cELEM, sFunction), Ent(pBase(sByte, 0), cELEM, sByte),
    Ent(pBase(sString, -1), cELEM, sString),
    Ent(pArr, cARR, sHasArr), Ent(pTuple, cTUP, sIsTuple) }
DefaultReg == [e |-> DefaultSide, d |-> DefaultSide]

(*------------------------------- matching --------------------------------*)
\* n: parse of s
Matches(p, s, n) ==
  CASE p.k = "eq" -> p.v = s
    [] p.k = "base" -> /\ n.ok /\ n.v.k = "b" /\ n.v.arr = <<>> /\ n.v.base = p.b
                       /\ (p.ws = 1 => n.v.sub # <<>>) /\ (p.ws = 0 => n.v.sub = <<>>)
    [] p.k = "arr" -> n.ok /\ n.v.arr # <<>>
    [] p.k = "tuple" -> n.ok /\ n.v.k = "t" /\ n.v.arr = <<>>
    [] p.k = "pre" -> Len(s) > Len(p.v) /\ SubSeq(s, 1, Len(p.v)) = p.v
    [] p.k = "fn" -> \E i \in 1..Len(p.ms) : p.ms[i] = s

Unknown == [f |-> {"none"}, v |-> <<>>]
\* items a value of a dynamic array has in the histories
DynLen == 2

\* all reasons why s cannot be coded, or the coders of its words, in order
RECURSIVE Resolve(_, _), ResolveAll(_, _)
ResolveAll(side, ss) ==
  LET rs == TLCEval([i \in 1..Len(ss) |-> Resolve(side, ss[i])])
  IN [f |-> UNION {rs[i].f : i \in 1..Len(rs)}, v |-> Concat(TLCEval([i \in 1..Len(rs) |-> rs[i].v]))]
Resolve(side, s) ==
  LET n0 == TLCEval(Parse(s))
      ms == {x \in side : Matches(x.p, s, n0)}
      n == TLCEval(Parse(Normal(s)))
  IN IF ms = {} THEN (IF n0.ok THEN Unknown ELSE [f |-> {"parse"}, v |-> <<>>])
     ELSE IF \E x, y \in ms : x # y THEN [f |-> {"multi"}, v |-> <<>>]
     ELSE LET c == (CHOOSE x \in ms : TRUE).c
          IN IF c > 0 THEN Ok(<<c>>)
             ELSE IF c = cELEM THEN (IF n.ok /\ TypeOf(n.v).k # "bad" THEN Ok(<<-2>>) ELSE [f |-> {"bad"}, v |-> <<>>])
             ELSE IF ~n.ok THEN [f |-> {"bad"}, v |-> <<>>]
             ELSE IF c = cTUP
             THEN IF n.v.k # "t" \/ n.v.arr # <<>> THEN [f |-> {"bad"}, v |-> <<>>]
                  ELSE ResolveAll(side, TLCEval([i \in 1..Len(n.v.c) |-> Render(n.v.c[i])]))
             ELSE IF n.v.arr = <<>> THEN [f |-> {"bad"}, v |-> <<>>]
                  ELSE LET d == n.v.arr[Len(n.v.arr)]
                           it == Resolve(side, Render(ItemNode(n.v)))
                           k == IF d = <<>> THEN DynLen ELSE Num(d)
                       IN [f |-> it.f, v |-> Concat(TLCEval([i \in 1..k |-> it.v]))]

(*------------------------------ operations -------------------------------*)
\* the predicate and label a registration with lookup lk and label l gets
PredOf(lk) == IF lk.k = "str" THEN [k |-> "eq", v |-> lk.v] ELSE lk
LabelOf(lk, l) == IF lk.k = "str" THEN lk.v ELSE l

CanAdd(side, lk, l) ==
  /\ lk.k # "junk"
  /\ \A x \in side : x.p # PredOf(lk) /\ (LabelOf(lk, l) # <<>> => x.l # LabelOf(lk, l))
Add(side, lk, c, l) == side \cup {Ent(PredOf(lk), c, LabelOf(lk, l))}
\* what unregistering by lk designates
Target(side, lk) ==
  IF lk.k = "str" THEN {x \in side : x.l = lk.v} ELSE {x \in side : x.p = lk}

\* outcomes: "ok", "refused" (any error), "key" (a key error), "type" (a type error), "open" (not specified)
Apply(st, op) ==
  CASE op.o = "copy" -> [st |-> Append(st, st[op.r]), out |-> "ok"]
    [] op.o = "new" -> [st |-> Append(st, [e |-> {}, d |-> {}]), out |-> "ok"]
    [] op.o = "reg" ->
         LET R == st[op.r]
             ce == CanAdd(R.e, op.lk, op.l)
             cd == CanAdd(R.d, op.lk, op.l)
             bad == IF op.lk.k = "junk" THEN "type" ELSE "refused"
         IN IF op.sd = "e" THEN (IF ce THEN [st |-> [st EXCEPT ![op.r].e = Add(@, op.lk, op.c, op.l)], out |-> "ok"]
                                 ELSE [st |-> st, out |-> bad])
            ELSE IF op.sd = "d" THEN (IF cd THEN [st |-> [st EXCEPT ![op.r].d = Add(@, op.lk, op.c, op.l)], out |-> "ok"]
                                      ELSE [st |-> st, out |-> bad])
            ELSE IF ce /\ cd
                 THEN [st |-> [st EXCEPT ![op.r] = [e |-> Add(@.e, op.lk, op.c, op.l), d |-> Add(@.d, op.lk, op.c, op.l)]],
                       out |-> "ok"]
            ELSE IF ~ce THEN [st |-> st, out |-> bad]
            ELSE [st |-> st, out |-> "open"]
    [] op.o = "unreg" ->
         LET R == st[op.r]
             te == Target(R.e, op.lk)
             td == Target(R.d, op.lk)
             bad == IF op.lk.k = "junk" THEN "type" ELSE "key"
         IN IF op.sd = "e" THEN (IF te # {} THEN [st |-> [st EXCEPT ![op.r].e = @ \ te], out |-> "ok"]
                                 ELSE [st |-> st, out |-> bad])
            ELSE IF op.sd = "d" THEN (IF td # {} THEN [st |-> [st EXCEPT ![op.r].d = @ \ td], out |-> "ok"]
                                      ELSE [st |-> st, out |-> bad])
            ELSE IF te # {} /\ td # {}
                 THEN [st |-> [st EXCEPT ![op.r] = [e |-> @.e \ te, d |-> @.d \ td]], out |-> "ok"]
            ELSE IF te = {} THEN [st |-> st, out |-> bad]
            ELSE [st |-> st, out |-> "open"]
    [] op.o = "look" -> [st |-> st, out |-> "ok"]

(*----------------------- verdicts on recorded histories ------------------*)
OutOk(out, r) ==
  CASE out = "ok" -> r.ok = 1
    [] out = "refused" -> r.ok = 0
    [] out = "key" -> Raised(r, "KeyError")
    [] out = "type" -> Raised(r, "TypeError")

\* outcome r of coding a type on a side: ok with the words' coders, or an error
LookErr(r) ==
  IF Raised(r, "MultipleEntriesFound") THEN "multi"
  ELSE IF Raised(r, "NoEntriesFound") THEN "none"
  ELSE IF Raised(r, "ParseError") THEN "parse"
  ELSE "bad"
Sorted(v) == SortSeq(v, LAMBDA a, b : a < b)
\* the encoder's words are found in the order of the layout, which is judged elsewhere
CodeOk(x, r, ordered) ==
  IF x.f = {} THEN r.ok = 1 /\ (IF ordered THEN r.v = x.v ELSE Sorted(r.v) = Sorted(x.v))
  ELSE r.ok = 0 /\ LookErr(r) \in x.f
\* has_encoder and is_encodable: a boolean, or the ambiguity error
HasOk(x, r) ==
  IF x.f = {} THEN r.ok = 1 /\ r.v = 1
  ELSE IF x.f = {"multi"} THEN Raised(r, "MultipleEntriesFound")
  ELSE IF "multi" \in x.f THEN (r.ok = 1 /\ r.v = 0) \/ Raised(r, "MultipleEntriesFound")
  ELSE r.ok = 1 /\ r.v = 0

\* one observation: registry r, type s; fields e, d, h, i as far as present
Looked(st, b) ==
  LET R == st[b.r]
      xe == Resolve(R.e, b.s)
      xd == Resolve(R.d, b.s)
      \* a list of five such types
      five(x) == IF x.f = {} THEN [x EXCEPT !.v = x.v \o x.v \o x.v \o x.v \o x.v] ELSE x
  IN IF "e" \in DOMAIN b /\ ~CodeOk(xe, b.e, FALSE) THEN "encoding did not use the one matching registration"
     ELSE IF "d" \in DOMAIN b /\ ~CodeOk(xd, b.d, TRUE) THEN "decoding did not use the one matching registration"
     ELSE IF "e5" \in DOMAIN b /\ ~CodeOk(five(xe), b.e5, FALSE) THEN "encoding several did not use the one matching registration"
     ELSE IF "d5" \in DOMAIN b /\ ~CodeOk(five(xd), b.d5, TRUE) THEN "decoding several did not use the one matching registration"
     ELSE IF "h" \in DOMAIN b /\ ~HasOk(xe, b.h) THEN "the type check disagrees with the registrations"
     ELSE IF "i" \in DOMAIN b /\ ~HasOk(xe, b.i) THEN "the encodability check disagrees with the registrations"
     ELSE ""
LookedAll(st, bs) ==
  LET vs == TLCEval([i \in 1..Len(bs) |-> Looked(st, bs[i])])
      bad == {i \in 1..Len(bs) : vs[i] # ""}
  IN IF bad = {} THEN "" ELSE vs[CHOOSE i \in bad : \A j \in bad : i <= j]

(* C10, C11: ops: the history, each with its outcome r and the observations b made after it *)
\* acc: [st, v: verdict so far]
History(e) ==
  LET step(acc, op) ==
        IF acc.v # "" THEN acc
        ELSE LET a == Apply(acc.st, op)
             IN IF a.out = "open" THEN [st |-> acc.st, v |-> "skip"]
                ELSE IF op.o # "look" /\ ~OutOk(a.out, op.r0)
                     THEN [st |-> a.st, v |-> "operation " \o op.o \o ": expected " \o a.out]
                ELSE [st |-> a.st, v |-> LookedAll(a.st, op.b)]
  IN FoldLeft(step, [st |-> <<DefaultReg>>, v |-> ""], e.ops).v

(* C12: what a registry of a family has gone through itself: the operations on its ancestors up to the copies, on it
   thereafter (lookups on ancestors excluded); a registry is known by its number *)
Born(x) == x.o \in {"copy", "new"}
\* number of registries made by the first n operations
Copies(ops, n) == Len(SelectSeq(SubSeq(ops, 1, n), Born))
\* position of the operation that created registry r (> 1)
BirthOf(ops, r) == CHOOSE i \in 1..Len(ops) : Born(ops[i]) /\ Copies(ops, i) = r - 1
ParentOf(ops, r) == ops[BirthOf(ops, r)].r
RECURSIVE Lineage(_, _, _)
Lineage(ops, r, upto) ==
  LET own == SelectSeq(SubSeq(ops, IF r = 1 THEN 1 ELSE BirthOf(ops, r) + 1, upto),
                       LAMBDA x : x.r = r /\ ~Born(x))
  IN IF r = 1 \/ ops[BirthOf(ops, r)].o = "new" THEN own
     ELSE SelectSeq(Lineage(ops, ParentOf(ops, r), BirthOf(ops, r)), LAMBDA x : x.o # "look") \o own
\* an operation without its results and without the registry it was applied to
Bare(op) == [o |-> op.o, sd |-> op.sd, lk |-> op.lk, l |-> op.l, c |-> op.c, s |-> op.s]
(* ops: the family's history with outcomes; r: the registry looked at, at the end; fin: its observations; lone: the
   history of a registry on its own, with lfin *)
Family(e) ==
  LET lin == Lineage(e.ops, e.r, Len(e.ops))
      barelin == TLCEval([i \in 1..Len(lin) |-> Bare(lin[i])])
      barelone == TLCEval([i \in 1..Len(e.lone) |-> Bare(e.lone[i])])
      own == SelectSeq(e.ops, LAMBDA x : x.r = e.r /\ ~Born(x))
      k == Len(e.lone) - Len(own)
  IN IF barelin # barelone THEN "skip"
     ELSE IF e.fin # e.lfin THEN "a registry of a family of copies behaves unlike one on its own"
     ELSE IF \E i \in 1..Len(own) : own[i].r0 # e.lone[k + i].r0
          THEN "an operation on a registry of a family of copies had another outcome than on its own"
     ELSE ""
=============================================================================
