------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* Type strings as they are typed, token by token, read by an automaton    *)
(* with a counter (the grammar formulated a second time), next to the      *)
(* recursive parser of TypeGrammar and the functions built on it.          *)
(* The strings are also printed for replay into the library's parser.      *)
(***************************************************************************)
EXTENDS Typing, Json

CONSTANTS MaxTokens, Bend,  \* Bend: "" or a mistake put in on purpose
          Gen

VARIABLES s,       \* the string so far
          n,       \* tokens so far
          q,       \* state of the automaton
          open,    \* open parentheses
          done
vars == <<s, n, q, open, done>>

Tokens == {sUint, sInt, sFixed, sByte, sBytes, sBool, <<97>>, <<cX>>, <<48>>, <<56>>, <<49, 50>>, <<cLB>>, <<cRB>>, <<cLB, cRB>>,
           <<cLP>>, <<cRP>>, <<cCOMMA>>, <<95>>}

(*------------------------------- automaton -------------------------------*)
NonZero(c) == c \in 49..57
Complete == {"name", "size", "frac", "dimend", "closed"}
Dead == <<"dead", 0>>
\* <<state, open>> after one more character
After(st, o, c) ==
  CASE st = "dead" -> Dead
    [] st = "want" /\ IsAlpha(c) -> <<"name", o>>
    [] st = "want" /\ c = cLP -> <<"want", o + 1>>
    [] st = "name" /\ IsAlpha(c) -> <<"name", o>>
    [] st = "name" /\ NonZero(c) -> <<"size", o>>
    [] st = "size" /\ IsDigit(c) -> <<"size", o>>
    [] st = "size" /\ c = cX -> <<"x", o>>
    [] st = "x" /\ NonZero(c) -> <<"frac", o>>
    [] st = "frac" /\ IsDigit(c) -> <<"frac", o>>
    [] st = "dim" /\ NonZero(c) -> <<"dimn", o>>
    [] st = "dim" /\ IsDigit(c) /\ Bend = "zero" -> <<"dimn", o>>
    [] st = "dim" /\ c = cRB -> <<"dimend", o>>
    [] st = "dimn" /\ IsDigit(c) -> <<"dimn", o>>
    [] st = "dimn" /\ c = cRB -> <<"dimend", o>>
    [] st \in Complete /\ c = cLB -> <<"dim", o>>
    [] st \in Complete /\ c = cRP /\ o > 0 -> <<"closed", o - 1>>
    [] st \in Complete /\ c = cCOMMA /\ o > 0 -> <<"want", o>>
    [] OTHER -> Dead
RECURSIVE Feed(_, _, _)
Feed(st, o, w) == IF w = <<>> THEN <<st, o>>
                  ELSE LET a == After(st, o, w[1]) IN Feed(a[1], a[2], SubSeq(w, 2, Len(w)))

Accepted == q \in Complete /\ open = 0

Init == s \in (IF Gen THEN {<<>>, <<cLP>>, <<cLP, cLP>>} ELSE {<<>>}) /\ n \in (IF Gen THEN 0..(MaxTokens - 1) ELSE {0}) /\ q = "want" /\ open = Len(s) /\ done = FALSE
Type == \E w \in Tokens :
          /\ ~done /\ n < MaxTokens
          /\ s' = s \o w /\ n' = n + 1
          /\ LET a == Feed(q, open, w) IN q' = a[1] /\ open' = a[2]
          /\ done' = FALSE
\* for generation: mistakes are rare, parentheses get closed, and not all ends are good ones
Sensible == \/ q' # "dead" /\ (n > MaxTokens - 7 => open' <= open) /\ ~(q = "name" /\ q' = "name")
            \/ q = "dead"
            \/ n = MaxTokens - 2 /\ Len(s) % 3 = 0
Enter == /\ Gen /\ ~done /\ done' = TRUE /\ n = MaxTokens
         /\ UNCHANGED <<s, n, q, open>>
Next == (Type /\ (Gen => Sensible)) \/ Enter
Spec == Init /\ [][Next]_vars

(*------------------------------- properties ------------------------------*)
P == Parse(s)
N == IF Bend = "alias" THEN AliasOf(s) ELSE Normal(s)
\* C13
SameLanguage == P.ok <=> Accepted
RendersBack == P.ok => Render(P.v) = s
ItemIsPrefix == (P.ok /\ P.v.arr # <<>>) => LET i == Render(ItemNode(P.v)) IN /\ Parse(i).ok /\ Parse(i).v = ItemNode(P.v)
                                                                              /\ SubSeq(s, 1, Len(i)) = i
\* C14
NormalOnce == Normal(N) = N
NormalKeepsGrammar == Parse(N).ok <=> P.ok
NormalKeepsType == TypeOfStr(N) = TypeOfStr(s)
ValidIsUsable == LET p == Parse(N) IN (p.ok /\ OnlyKnown(p.v)) => (ValidNode(p.v) <=> TypeOf(p.v).k # "bad")
\* C15
SameClass == LET p == Parse(N) IN (p.ok /\ TypeOf(p.v).k # "bad") => (Dynamic(TypeOf(p.v)) <=> DynamicNode(p.v))

Emitted == done => PrintT("@@H@@" \o ToJson(s))
=============================================================================
