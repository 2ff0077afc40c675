------------------------------ MODULE BuildMC ------------------------------
(***************************************************************************)
(* All ways to assemble coders in a few steps.                             *)
(***************************************************************************)
EXTENDS Build, Json
CONSTANTS BDepth, BEmit, Botch, BRich
VARIABLES st, hist
vars == <<st, hist>>

Leaves == {BLeaf("uint", 8, 0), BLeaf("bytes", 0, 0), BLeaf("int", 12, 0)}
          \cup (IF BRich THEN {BLeaf("bytesN", 2, 0), BLeaf("string", 0, 0), BLeaf("fixed", 16, 1), BLeaf("ufixed", 8, 81), BLeaf("fixed", 8, 0),
                               BLeaf("bool", 0, 0), BLeaf("bytesN", 33, 0), BLeaf("uint", 264, 0), BLeaf("address", 0, 0), BLeaf("int", 256, 0)} ELSE {})
Ops == Leaves \cup {BTuple(n) : n \in 1..3} \cup {BSized(n) : n \in 1..2} \cup {BDyn}

Botched(op) ==
  LET good == Stepped(st, op)
      n == Len(good)
  IN CASE Botch = "first" /\ op.o = "tuple" -> [good EXCEPT ![n].dyn = st[Len(st) - op.n + 1].dyn]
       [] Botch = "inner" /\ op.o = "dynamic" -> [good EXCEPT ![n].dyn = st[Len(st)].dyn]
       [] Botch = "bits" /\ op.o = "leaf" /\ ~LeafOk(op) -> Append(st, Coder(LeafType(op), FALSE))
       [] OTHER -> good
Init == st = <<>> /\ hist = <<>>
Next == /\ Len(hist) < BDepth
        /\ \E op \in Ops : /\ Possible(st, op)
                           /\ st' = Botched(op)
                           /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_vars
View == <<st, Len(hist)>>

\* whatever was assembled is a type with a name, under which from_type_str builds the same
Named == \A i \in 1..Len(st) : TypeOfStr(NameOf(st[i].t)) = st[i].t
\* and is marked as its type is laid out
Flagged == \A i \in 1..Len(st) : st[i].dyn = Dynamic(st[i].t)
\* every class serves its own types only
Forms == {<<"elem", sUint>>, <<"elem", sInt>>, <<"elem", sUfixed>>, <<"elem", sFixed>>, <<"elem", sBool>>, <<"elem", sAddress>>, <<"elem", sString>>,
          <<"bytesM", sBytes>>, <<"bytesD", sBytes>>, <<"arr", <<>> >>, <<"tup", <<>> >>}
OneServes == \A i \in 1..Len(st) : Cardinality({f \in Forms : Serves(f[1], f[2], NameOf(st[i].t)) = "yes"}) = 1
Emitted == (BEmit /\ Len(hist) = BDepth /\ Len(st) = 1) => PrintT("@@H@@" \o ToJson(hist))
=============================================================================
