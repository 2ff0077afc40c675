------------------------------- MODULE Typing -------------------------------
(***************************************************************************)
(* Verdicts on type-string handling: parsing, normalization, validation,   *)
(* usability and layout classes (C13, C14, C15).                           *)
(***************************************************************************)
EXTENDS Judge

(* C13: s, r: parse outcome; when it succeeded: tree (structure as reported),
   str: rendered back, ia: is_array, it: tree of item_type or outcome of its refusal,
   eq: equal to a second parse of the same string *)
Parsing(e) ==
  LET p == Parse(e.s) IN
  IF e.r.ok = 1
  THEN IF ~p.ok THEN "a string outside the grammar was parsed"
       ELSE IF e.tree # p.v THEN "parsed structure differs from the string"
       ELSE IF e.str # e.s THEN "rendering does not give the string back"
       ELSE IF e.ia # (IF p.v.arr = <<>> THEN 0 ELSE 1) THEN "is_array is wrong"
       ELSE IF p.v.arr # <<>> /\ (e.it.ok = 0 \/ e.it.tree # ItemNode(p.v)) THEN "item type is wrong"
       ELSE IF p.v.arr # <<>> /\ e.it.str # Render(ItemNode(p.v)) THEN "item type renders wrongly"
       ELSE IF p.v.arr = <<>> /\ ~Raised(e.it, "ValueError") THEN "item type of a non-array"
       ELSE IF e.eq = 0 THEN "equal strings give unequal types"
       ELSE ""
  ELSE IF p.ok THEN "a string of the grammar was refused"
  ELSE IF HasEmptyParens(e.s) /\ ~Raised(e.r, "ValueError") THEN "empty tuple: not a value error"
  ELSE IF ~HasEmptyParens(e.s) /\ ~Raised(e.r, "ParseError") THEN "refused, but not with a parse error"
  ELSE ""
(* C13: every character was tried in one place of a string: pre \o <<c>> \o suf for all c in
   0..127 and many others; acc: the accepted ones, odd: those refused with another error *)
Hole(e) ==
  LET good == {c \in 0..127 : Parse(e.pre \o <<c>> \o e.suf).ok}
  IN IF Len(e.acc) # Cardinality(good) \/ \E i \in 1..Len(e.acc) : e.acc[i] \notin good
     THEN "the characters accepted in one place of a type string are not those of the grammar"
     ELSE IF e.odd # <<>> THEN "a string outside the grammar raised another error"
     ELSE ""
(* C13: r: outcome of parsing something that is not a string *)
ParseOther(e) == IF Raised(e.r, "TypeError") THEN "" ELSE "parsing a non-string: not a type error"

(* C14: s, r: normalize(s), r2: normalize twice *)
Normalizing(e) ==
  IF e.r.ok = 0 THEN "normalization failed"
  ELSE IF e.r.v.k # "str" \/ e.r.v.c # Normal(e.s) THEN "normalized string is wrong"
  ELSE IF e.r2.ok = 0 \/ e.r2.v # e.r.v THEN "normalization is not idempotent"
  ELSE ""

\* only known bases: validation says nothing about other names
RECURSIVE OnlyKnown(_)
OnlyKnown(n) == IF n.k = "t" THEN \A i \in 1..Len(n.c) : OnlyKnown(n.c[i]) ELSE KnownBase(n.base)

(* C14: s; vd: validate() of the parsed normalized string ("parse" errors included);
   it, itp: is_encodable_type standard / packed; de: strict decode of the empty payload *)
Usable(e) ==
  LET t == TypeOfStr(e.s)
      good == t.k # "bad"
      p == Parse(Normal(e.s))
  IN IF p.ok /\ OnlyKnown(p.v) /\ good /\ e.vd.ok = 0 THEN "validation refuses a valid type"
     ELSE IF p.ok /\ OnlyKnown(p.v) /\ ~good /\ e.vd.ok = 1 THEN "validation passes an invalid type"
     ELSE IF p.ok /\ OnlyKnown(p.v) /\ ~good /\ ~Raised(e.vd, "ABITypeError") THEN "invalid type: wrong kind of error"
     ELSE IF e.it.ok = 0 \/ e.itp.ok = 0 THEN "the type check raised"
     ELSE IF good /\ e.it.v.x = 0 THEN "a valid type cannot be encoded"
     ELSE IF ~good /\ e.it.v.x = 1 THEN "something that is no type can be encoded"
     ELSE IF good /\ e.itp.v.x = 0 THEN "a valid type cannot be encoded packed"
     ELSE IF ~good /\ e.itp.v.x = 1 THEN "something that is no type can be encoded packed"
     ELSE IF good /\ ~Raised(e.de, "DecodingError") THEN "a valid type cannot be decoded"
     ELSE IF ~good /\ (e.de.ok = 1 \/ Raised(e.de, "DecodingError")) THEN "something that is no type can be decoded"
     ELSE ""

(* C14: s: a type written with aliases, ns: the canonical name given to the library,
   outcomes r (alias) and q (canonical) of the same operations *)
AliasSame(e) ==
  IF Normal(e.s) # e.ns THEN "skip"
  ELSE IF e.r # e.q THEN "alias and canonical name code differently" ELSE ""

(* C15: t; pd, ed, dd: dynamic according to parsed type, encoder, decoder; bs: encodings of (value, marker)
   for several values, with marker the type uint256; ds: the decoded markers *)
Layout(e) ==
  LET t == TypeOfStr(e.t)
      dyn == IF Dynamic(t) THEN 1 ELSE 0
      hs == HeadSize(t)
  IN IF t.k = "bad" THEN "skip"
     ELSE IF e.pd # dyn THEN "the parsed type is classified wrongly"
     ELSE IF e.ed # dyn THEN "the encoder is classified wrongly"
     ELSE IF e.dd # dyn THEN "the decoder is classified wrongly"
     ELSE IF \E i \in 1..Len(e.bs) : Len(e.bs[i]) < hs + W THEN "encoding too short for the head"
     ELSE IF \E i \in 1..Len(e.bs) : Slice(e.bs[i], hs, W) # e.m THEN "the next item is not where the head size says"
     ELSE IF dyn = 0 /\ \E i \in 1..Len(e.bs) : Len(e.bs[i]) # hs + W THEN "a static type's size varies"
     ELSE IF dyn = 1 /\ \E i \in 1..Len(e.bs) : Slice(e.bs[i], 0, W) # Word(2 * W) THEN "a dynamic type without offset word"
     ELSE IF dyn = 1 /\ \E i \in 1..Len(e.bs) : Len(e.bs[i]) % W # 0 THEN "size is not a multiple of the word"
     ELSE IF \E i \in 1..Len(e.ds) : e.ds[i] # e.m THEN "decoder and encoder disagree about the head size"
     ELSE ""
=============================================================================
