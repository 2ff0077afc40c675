----------------------------- MODULE RegistryMC -----------------------------
(***************************************************************************)
(* Histories over a small alphabet of lookups, labels and types: checked   *)
(* for the properties of the registry design (with caches as in the        *)
(* implementation), and printed for replay into the real code.             *)
(***************************************************************************)
EXTENDS Registry, Json, IOUtils

CONSTANTS Depth,      \* length of the histories
          MaxRegs,    \* registries in a family
          Alphabet,   \* name of the set of operations
          Emit,       \* print complete histories
          Clearing    \* "all": a change empties the caches of the side; "some": negative control

sFoo == <<102,111,111>>  sFoo8 == sFoo \o <<56>>  sBar == <<98,97,114>>
sUnd == sFoo \o <<95>> \o sBar                                   \* foo_bar: no type of the grammar
sFoo2 == sFoo \o <<91,50,93>>                                    \* foo[2]
sBarD == sBar \o <<91,93>>                                       \* bar[]
sTupFB == <<cLP>> \o sFoo \o <<cCOMMA>> \o sBar \o <<cRP>>       \* (foo,bar)
sTupMix == <<cLP>> \o sFoo8 \o <<cCOMMA>> \o sUint \o <<cRP,91,50,93>>   \* (foo8,uint)[2]
sTupDeep == <<cLP>> \o sBarD \o <<cCOMMA>> \o sTupFB \o <<cRP>>  \* (bar[],(foo,bar))
sU8 == sUint \o <<56>>
sU256 == sUint \o d256
sFoo22 == sFoo2 \o <<91,93>>                                     \* foo[2][]
sTupAl == <<cLP>> \o sUint \o <<cCOMMA>> \o sFoo \o <<cRP>>       \* (uint,foo)
L1 == <<108,49>>  L2 == <<108,50>>
L0 == <<0>>                                                      \* stands for the empty text, which is a label too

Str(v) == [k |-> "str", v |-> v]
Fn(id, ms) == [k |-> "fn", id |-> id, ms |-> ms]
f1 == Fn(1, <<sFoo, sBar>>)
f2 == Fn(2, <<sFoo8>>)
f3 == Fn(3, <<sFoo2, sTupFB>>)
Pre(v) == [k |-> "pre", v |-> v]
Junk == [k |-> "junk"]
Reg(sd, lk, c, l) == [o |-> "reg", sd |-> sd, lk |-> lk, l |-> l, c |-> c, s |-> <<>>]
Un(sd, lk) == [o |-> "unreg", sd |-> sd, lk |-> lk, l |-> <<>>, c |-> 0, s |-> <<>>]
Look(s) == [o |-> "look", sd |-> "b", lk |-> Junk, l |-> <<>>, c |-> 0, s |-> s]
New == [o |-> "new", sd |-> "b", lk |-> Junk, l |-> <<>>, c |-> 0, s |-> <<>>]     \* an empty registry
Copy(how) == [o |-> "copy", sd |-> how, lk |-> Junk, l |-> <<>>, c |-> 0, s |-> <<>>]

TypesMC == {sFoo, sFoo8, sBar, sUnd, sFoo2, sBarD, sTupFB, sTupMix, sTupDeep, sU8, sUint, sU256, sFoo22, sTupAl}

\* routing: what is matched by whom
RouteOps ==
  { Reg("b", Str(sFoo), 1, <<>>), Reg("b", pBase(sFoo, -1), 2, L1), Reg("e", pBase(sFoo, 1), 3, L2), Reg("b", f1, 4, <<>>),
    Reg("b", f3, 5, <<>>), Reg("d", Str(sBar), 6, <<>>), Reg("b", pBase(sBar, 0), 7, <<>>),
    Un("b", Str(sFoo)), Un("b", Str(L1)), Un("e", f1), Un("d", f1), Un("b", f3), Un("b", pBase(sBar, 0)),
    Un("b", Str(sUint)), Un("b", Str(sIsTuple)), Reg("b", Str(sU8), 8, <<>>),
    Reg("b", pBase(sFoo, 0), 2, <<>>), Reg("e", Str(sBar), 4, <<>>), Reg("d", f2, 3, <<>>),   \* coders used twice
    Reg("b", Str(sU256), 9, <<>>), Un("b", Str(sU256)), Reg("b", Str(sUint), 10, <<>>), Reg("e", Pre(sFoo), 11, <<>>), Reg("b", Pre(sU8), 12, L2),
    Un("e", Pre(sFoo)), Reg("b", Str(sTupFB), 13, <<>>), Reg("b", Str(sFoo2), 14, <<>>), Un("b", Str(sHasArr)),
    Look(sTupDeep), Look(sFoo2), Look(sFoo22) }
\* exactness: collisions of lookups and labels, absent targets, sides
ExactOps ==
  { Reg("b", Str(sFoo), 1, <<>>), Reg("e", Str(sFoo), 2, L1), Reg("d", Str(sFoo), 3, <<>>),
    Reg("b", pBase(sFoo, -1), 4, L1), Reg("e", pBase(sFoo, -1), 5, <<>>), Reg("b", pBase(sFoo, 0), 6, L1),
    Reg("d", pBase(sBar, 1), 7, L2), Reg("b", f1, 8, sFoo), Reg("e", f1, 9, L2), Reg("b", f2, 10, L1), Reg("b", Junk, 11, <<>>),
    Un("b", Str(sFoo)), Un("e", Str(sFoo)), Un("d", Str(L1)), Un("b", Str(L1)), Un("e", pBase(sFoo, -1)), Un("d", pBase(sFoo, -1)),
    Un("b", pBase(sFoo, 0)), Un("e", f1), Un("d", f1), Un("e", Str(L2)), Un("d", Str(L2)), Un("b", f2), Un("e", Junk), Un("b", Str(sBar)),
    Un("b", Str(sUint)), Reg("b", pBase(sUint, -1), 12, sUint), Reg("e", pBase(sUint, -1), 13, <<>>),
    Reg("e", [k |-> "eq", v |-> sFoo], 14, L2), Un("e", [k |-> "eq", v |-> sFoo]), Un("d", [k |-> "eq", v |-> sFoo]),
    Reg("b", Pre(sFoo), 15, L1), Reg("e", Pre(sFoo), 16, sFoo), Un("e", Pre(sFoo)), Un("d", Pre(sFoo)), Reg("d", Pre(sBar), 17, L2),
    Reg("b", f2, 18, L0), Reg("e", pBase(sBar, 1), 19, L0), Un("b", Str(L0)), Un("e", Str(L0)) }
\* copies
CopyOps ==
  { Copy("copy"), Copy("shallow"), Copy("deep"), New,
    Reg("b", Str(sFoo), 1, <<>>), Reg("b", f1, 2, L1), Reg("e", pBase(sBar, -1), 3, L2), Reg("b", Str(sBar), 4, <<>>),
    Un("b", Str(sFoo)), Un("b", Str(L1)), Un("e", Str(L2)), Un("b", Str(sUint)), Un("d", f1), Reg("b", Str(sU8), 5, <<>>),
    Look(sTupDeep), Look(sU8), Look(sFoo22) }
\* one side only, as in the registry of value strategies (C20)
StratOps == {[op EXCEPT !.sd = "e"] : op \in {x \in RouteOps \cup ExactOps : x.sd # "d" /\ x.o # "look"}}
AllOps == RouteOps \cup ExactOps \cup CopyOps

Ops == CASE Alphabet = "route" -> RouteOps
         [] Alphabet = "exact" -> ExactOps
         [] Alphabet = "copy" -> CopyOps
         [] Alphabet = "strat" -> StratOps
         [] Alphabet = "all" -> AllOps

VARIABLES st,     \* registrations
          cache,  \* per registry, side and type: what the last lookup since the last change found
          hist
vars == <<st, cache, hist>>

Empty == [e |-> <<>>, d |-> <<>>]     \* caches are functions, empty at first
Init == st = <<DefaultReg>> /\ cache = <<Empty>> /\ hist = <<>>

Put(f, s, v) == [x \in DOMAIN f \cup {s} |-> IF x = s THEN v ELSE f[x]]
Cleared(r, op) ==
  CASE op.sd = "e" -> [cache EXCEPT ![r].e = <<>>]
    [] op.sd = "d" -> [cache EXCEPT ![r].d = <<>>]
    [] OTHER -> [cache EXCEPT ![r] = Empty]
\* negative control: only the entry of a type named by the lookup is dropped
ClearedSome(r, op) ==
  IF op.lk.k = "str"
  THEN [cache EXCEPT ![r].e = [x \in DOMAIN @ \ {op.lk.v} |-> @[x]], ![r].d = [x \in DOMAIN @ \ {op.lk.v} |-> @[x]]]
  ELSE Cleared(r, op)

Step(r, op0) ==
  LET op == [o |-> op0.o, r |-> r, sd |-> op0.sd, lk |-> op0.lk, l |-> op0.l, c |-> op0.c, s |-> op0.s]
      a == Apply(st, op)
  IN /\ a.out # "open"
     /\ op.o \in {"copy", "new"} => Len(st) < MaxRegs
     /\ op.o = "new" => r = 1
     /\ st' = a.st
     /\ hist' = Append(hist, op)
     /\ cache' = CASE op.o \in {"copy", "new"} -> Append(cache, Empty)
                   [] op.o = "look" ->
                        [cache EXCEPT ![r].e = IF op.s \in DOMAIN @ THEN @ ELSE Put(@, op.s, Resolve(st[r].e, op.s)),
                                      ![r].d = IF op.s \in DOMAIN @ THEN @ ELSE Put(@, op.s, Resolve(st[r].d, op.s))]
                   [] OTHER -> IF Clearing = "all" THEN Cleared(r, op) ELSE ClearedSome(r, op)
Next == /\ Len(hist) < Depth
        /\ \E r \in 1..Len(st) : \E op \in Ops : Step(r, op)
Spec == Init /\ [][Next]_vars

StView == st
StCacheView == <<st, cache>>
\* printing
Emitted == IF Emit /\ Len(hist) = Depth THEN PrintT("@@H@@" \o ToJson(hist)) ELSE TRUE

(*------------------------------ properties -------------------------------*)
Sides == {st[r].e : r \in 1..Len(st)} \cup {st[r].d : r \in 1..Len(st)}
\* C11: one entry per lookup, one per label
UniquePredicates == \A sd \in Sides : \A x, y \in sd : x.p = y.p => x = y
UniqueLabels == \A sd \in Sides : \A x, y \in sd : (x.l = y.l /\ x.l # <<>>) => x = y
\* C10: what a cache holds is what a lookup now would find
Coherent == \A r \in 1..Len(st) :
  /\ \A s \in DOMAIN cache[r].e : cache[r].e[s] = Resolve(st[r].e, s)
  /\ \A s \in DOMAIN cache[r].d : cache[r].d[s] = Resolve(st[r].d, s)
\* C12: an operation on one registry leaves all others alone
LastR == hist'[Len(hist')].r
Separate == [][\A r \in 1..Len(st) : r # LastR => st'[r] = st[r] /\ cache'[r] = cache[r]]_vars
\* C11: an operation adds or removes at most one entry per side, and one-sided ones leave the other side alone
Exactness == [][
  LET op == hist'[Len(hist')]  R == st[op.r]  S == st'[op.r]
      near(A, B) == A = B \/ \E x \in A \cup B : A \ {x} = B \ {x}
  IN /\ op.o \in {"reg", "unreg"} => near(R.e, S.e) /\ near(R.d, S.d)
     /\ op.sd = "e" => S.d = R.d
     /\ op.sd = "d" => S.e = R.e
     /\ op.o = "copy" => /\ S = R /\ st'[Len(st')] = R
     /\ op.o = "new" => S = R
  ]_vars
\* C11: registering undone by unregistering, for every lookup
UndoWorks == \A r \in 1..Len(st) : \A op \in Ops :
  (op.o = "reg" /\ op.sd # "b" /\ op.lk.k # "junk") =>
     LET a == Apply(st, [op EXCEPT !.o = "reg"] @@ [r |-> r])
         b == Apply(a.st, [op EXCEPT !.o = "unreg"] @@ [r |-> r])
     IN a.out = "ok" => (b.out = "ok" /\ b.st = st)
=============================================================================
