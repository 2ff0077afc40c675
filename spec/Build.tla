------------------------------- MODULE Build -------------------------------
(***************************************************************************)
(* Coders made by hand: from a type string by a class of the user's choice *)
(* (from_type_str), or by giving settings and parts to a constructor       *)
(* (C25).  A coder stands for a type; classes refuse what they cannot      *)
(* serve, and what they build acts as that type.                           *)
(***************************************************************************)
EXTENDS Boundary

(*---------------------------- type to type string -------------------------*)
RECURSIVE DecimalOf(_)
DecimalOf(n) == IF n < 10 THEN <<48 + n>> ELSE DecimalOf(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE NameOf(_)
NameOf(t) ==
  CASE t.k = "uint" -> sUint \o DecimalOf(t.n)
    [] t.k = "int" -> sInt \o DecimalOf(t.n)
    [] t.k = "ufixed" -> sUfixed \o DecimalOf(t.n) \o <<cX>> \o DecimalOf(t.p)
    [] t.k = "fixed" -> sFixed \o DecimalOf(t.n) \o <<cX>> \o DecimalOf(t.p)
    [] t.k = "bytesN" -> sBytes \o DecimalOf(t.n)
    [] t.k = "bytes" -> sBytes
    [] t.k = "string" -> sString
    [] t.k = "bool" -> sBool
    [] t.k = "address" -> sAddress
    [] t.k = "arr" -> NameOf(t.t) \o <<cLB>> \o (IF t.n = -1 THEN <<>> ELSE DecimalOf(t.n)) \o <<cRB>>
    [] t.k = "tup" -> <<cLP>> \o JoinWith(TLCEval([i \in 1..Len(t.c) |-> NameOf(t.c[i])]), cCOMMA) \o <<cRP>>

(*------------------------------ from_type_str -----------------------------*)
\* what a class asks of a type string; form: "elem" one base, "bytesM" / "bytesD" byte strings of
\* fixed / any length, "arr", "tup"; "own..." the same for a class of the user's, whose types need not be known
\* "yes", "no", or "any" where nothing is promised
Serves(form, base, s) ==
  LET p == Parse(Normal(s))
      basic == p.v.k = "b"
      flat == p.v.arr = <<>>
      based == base = <<>> \/ (basic /\ p.v.base = base)
  IN IF ~p.ok THEN "no"
     ELSE IF ~ValidNode(p.v) THEN "no"
     ELSE CASE form \in {"elem", "ownelem"} -> IF based /\ flat THEN "yes" ELSE "no"
            [] form = "bytesM" -> IF ~(based /\ flat) THEN "no" ELSE IF p.v.sub = <<>> THEN "any" ELSE "yes"
            [] form = "bytesD" -> IF ~(based /\ flat) THEN "no" ELSE IF p.v.sub # <<>> THEN "any" ELSE "yes"
            [] form = "ownarr" -> IF based /\ ~flat THEN "yes" ELSE "no"
            [] form = "arr" -> IF flat \/ TypeOf(p.v).k = "bad" THEN "no" ELSE "yes"
            [] form = "owntup" -> IF basic THEN "no" ELSE IF ~flat THEN "any" ELSE "yes"
            [] form = "tup" -> IF basic THEN "no" ELSE IF ~flat THEN "any"
                               ELSE IF TypeOf(p.v).k = "bad" THEN "no" ELSE "yes"

(*------------------------------- use of a coder ---------------------------*)
\* slot: bytes a value of an elementary type occupies
SlotEnc(t, a, slot) ==
  CASE t.k \in NumKinds -> EncNum(t, a, slot)
    [] t.k = "bool" -> PadL(<<a>>, slot)
    [] t.k = "address" -> PadL(a, slot)
    [] t.k = "bytesN" -> PadR(a, slot)
SlotDec(t, w, slot) ==
  LET k == CASE t.k \in NumKinds -> t.n \div 8 [] t.k = "bool" -> 1 [] t.k = "address" -> 20 [] t.k = "bytesN" -> t.n
      data == IF t.k = "bytesN" THEN SubSeq(w, 1, k) ELSE SubSeq(w, slot - k + 1, slot)
      pad == IF t.k = "bytesN" THEN SubSeq(w, k + 1, slot) ELSE SubSeq(w, 1, slot - k)
      neg == Signed(t) /\ data[1] >= 128
      m == IF neg THEN Strip(TwosNeg(Strip(data), k)) ELSE Strip(data)
  IN IF Len(w) < slot THEN Bad({"insuff"})
     ELSE IF ~AllEq(pad, IF neg THEN 255 ELSE 0) THEN Bad({"padding"})
     ELSE CASE t.k \in NumKinds -> Ok([s |-> IF neg THEN 1 ELSE 0, m |-> m])
            [] t.k = "bool" -> IF data[1] \in {0, 1} THEN Ok(data[1]) ELSE Bad({"padding"})
            [] OTHER -> Ok(data)
InSlots(t) == t.k \in NumKinds \cup {"bool", "address", "bytesN"}

\* how a value of type t is written by a coder alone: pk = 1 packed, slot for elementary types
Written(t, a, pk, slot) == IF InSlots(t) /\ slot # 0 THEN SlotEnc(t, a, slot) ELSE IF pk = 1 THEN PEnc(t, a) ELSE Enc(t, a)
Read(t, b, slot) == IF InSlots(t) /\ slot # 0 THEN SlotDec(t, SubSeq(b, 1, Min2(Len(b), slot)), slot)
                    ELSE IF Dynamic(t) THEN DecTail(t, b, 0, TRUE) ELSE DecIn(t, b, 0, TRUE)

WriteOk(t, u, pk, slot) ==
  LET f == Faults(t, u.v)
  IN IF "unspecified" \in f THEN ""
     ELSE IF f = {}
     THEN IF u.r.ok = 0 THEN "the coder refuses a value of its type"
          ELSE IF u.r.b # Written(t, Abs(t, u.v), pk, slot) THEN "the coder writes other bytes than its type's"
          ELSE ""
     ELSE IF u.r.ok = 1 THEN "the coder accepts a value outside its type"
     ELSE IF Raised(u.r, "EncodingError") THEN "" ELSE "the coder refuses a value, but not with an encoding error"
ReadOk(t, u, slot) ==
  LET d == Read(t, u.b, slot)
  IN IF d.f = {}
     THEN IF u.r.ok = 0 THEN "the coder refuses a payload of its type"
          ELSE IF ~Denotes(t, u.r.v, d.v) THEN "the coder reads another value than its type's"
          ELSE ""
     ELSE IF u.r.ok = 1 THEN "the coder reads a payload its type does not allow"
     ELSE IF DecErr(u.r) \in d.f THEN "" ELSE "the coder refuses a payload for another reason"
FirstBad(ss) == IF \A i \in 1..Len(ss) : ss[i] = "" THEN ""
                ELSE ss[CHOOSE i \in 1..Len(ss) : ss[i] # "" /\ \A j \in 1..(i - 1) : ss[j] = ""]
Uses(t, e, pk, slot) ==
  FirstBad(TLCEval([i \in 1..Len(e.us) |-> WriteOk(t, e.us[i], pk, slot)])
           \o TLCEval([i \in 1..Len(e.ds) |-> ReadOk(t, e.ds[i], slot)]))

(* C25: form, base, pk, s; r: outcome of from_type_str; dy: is_dynamic (-1 if not asked); us: values written, ds: payloads read;
   h (own classes): what was handed over: type string, and whether registry and class were the right ones *)
Builds(e) ==
  LET w == Serves(e.form, e.base, e.s)
      own == e.form \in {"ownelem", "ownarr", "owntup"}
  IN IF w = "any" THEN "skip"
     ELSE IF w = "no"
     THEN IF e.r.ok = 1 THEN "a coder was built for a type it does not serve"
          ELSE IF Raised(e.r, "ValueError") \/ Raised(e.r, "ParseError") THEN ""
          ELSE "a type was refused with another kind of error"
     ELSE IF e.r.ok = 0 THEN "a coder was refused for a type it serves"
     ELSE IF own THEN IF e.h.s # Normal(e.s) THEN "another type was handed to the class"
                      ELSE IF e.h.ok = 0 THEN "another class or registry was handed over"
                      ELSE ""
     ELSE LET t == TypeOfStr(e.s)
          IN IF e.dy # -1 /\ e.dy # (IF Dynamic(t) THEN 1 ELSE 0) THEN "the coder is marked wrongly as static or dynamic"
             ELSE Uses(t, e, e.pk, 0)

(*-------------------------------- settings --------------------------------*)
\* q: k, bits, slot, places (each a sequence of at most one number), unk = 1: a setting the class does not have
Bits(q) == IF q.bits # <<>> THEN q.bits[1] ELSE CASE q.k = "address" -> 160 [] q.k = "bool" -> 8 [] OTHER -> 0
Slot(q) == IF q.slot # <<>> THEN q.slot[1] ELSE W
Settable(q) ==
  /\ q.bits # <<>> \/ q.k \in {"address", "bool"}
  /\ Bits(q) % 8 = 0
  /\ Bits(q) <= Slot(q) * 8
  /\ q.k = "address" => Bits(q) = 160
  /\ q.k \in {"fixed", "ufixed"} => q.places # <<>> /\ q.places[1] >= 1 /\ q.places[1] <= 80
SetType(q) == CASE q.k \in {"uint", "int"} -> [k |-> q.k, n |-> Bits(q)]
                [] q.k \in {"fixed", "ufixed"} -> [k |-> q.k, n |-> Bits(q), p |-> q.places[1]]
                [] q.k = "bytesN" -> [k |-> "bytesN", n |-> Bits(q) \div 8]
                [] OTHER -> [k |-> q.k]
Refusal(r, name) == IF r.ok = 1 THEN "impossible settings were accepted"
                    ELSE IF Raised(r, name) THEN "" ELSE "impossible settings were refused with another kind of error"
Settings(e) ==
  IF e.q.unk = 1 THEN Refusal(e.r, "AttributeError")
  ELSE IF ~Settable(e.q) THEN Refusal(e.r, "ValueError")
  ELSE IF e.r.ok = 0 THEN "possible settings were refused"
  ELSE Uses(SetType(e.q), e, 0, Slot(e.q))
\* parts of a compound coder left out
Lacking(e) == Refusal(e.r, IF e.unk = 1 THEN "AttributeError" ELSE "ValueError")

(*-------------------------------- assembly --------------------------------*)
\* a stack of coders; one step puts an elementary one on it, or makes one of the topmost ones
BLeaf(k, n, p) == [o |-> "leaf", k |-> k, n |-> n, p |-> p]
BTuple(n) == [o |-> "tuple", k |-> "", n |-> n, p |-> 0]
BSized(n) == [o |-> "sized", k |-> "", n |-> n, p |-> 0]
BDyn == [o |-> "dynamic", k |-> "", n |-> 0, p |-> 0]
LeafSet(op) == [k |-> op.k, bits |-> IF op.k = "bytesN" THEN <<op.n * 8>> ELSE IF op.k \in {"address", "bool"} THEN <<>> ELSE <<op.n>>, slot |-> <<>>,
                places |-> IF op.k \in {"fixed", "ufixed"} THEN <<op.p>> ELSE <<>>, unk |-> 0]
LeafOk(op) == op.k \in {"bytes", "string"} \/ Settable(LeafSet(op))
LeafType(op) == IF op.k \in {"bytes", "string"} THEN [k |-> op.k] ELSE SetType(LeafSet(op))
Coder(t, dyn) == [t |-> t, dyn |-> dyn]
\* the coder a step makes of the stack, and how many it uses up
Made(st, op) ==
  LET top == st[Len(st)]
      parts == SubSeq(st, Len(st) - op.n + 1, Len(st))
  IN CASE op.o = "leaf" -> Coder(LeafType(op), op.k \in {"bytes", "string"})
       [] op.o = "tuple" -> Coder([k |-> "tup", c |-> TLCEval([i \in 1..op.n |-> parts[i].t])], \E i \in 1..op.n : parts[i].dyn)
       [] op.o = "sized" -> Coder([k |-> "arr", t |-> top.t, n |-> op.n], top.dyn)
       [] op.o = "dynamic" -> Coder([k |-> "arr", t |-> top.t, n |-> -1], TRUE)
Takes(op) == CASE op.o = "leaf" -> 0 [] op.o = "tuple" -> op.n [] OTHER -> 1
Possible(st, op) == Takes(op) <= Len(st)
Stepped(st, op) == IF op.o = "leaf" /\ ~LeafOk(op) THEN st
                   ELSE Append(SubSeq(st, 1, Len(st) - Takes(op)), Made(st, op))

(* C25: x: steps, each with op, re / rd: outcomes of making the encoder and the decoder, ed / dd: marked as dynamic,
   us, ds: their use, and fs: the use of the coder from_type_str gives for the type (name) *)
Assembly(e) ==
  LET n == Len(e.x)
      stacks == FoldLeft(LAMBDA acc, x : Append(acc, Stepped(acc[Len(acc)], x.op)), << <<>> >>, e.x)
      one(i) ==
        LET x == e.x[i]  s0 == stacks[i]
        IN IF x.op.o = "leaf" /\ ~LeafOk(x.op)
           THEN FirstBad(<<Refusal(x.re, "ValueError"), Refusal(x.rd, "ValueError")>>)
           ELSE IF x.re.ok = 0 \/ x.rd.ok = 0 THEN "a coder could not be made of its parts"
           ELSE LET c == Made(s0, x.op)
                    f == IF c.dyn THEN 1 ELSE 0
                IN IF x.ed # f \/ x.dd # f THEN "a coder made of parts is marked wrongly as static or dynamic"
                   ELSE IF x.name # NameOf(c.t) THEN "skip"
                   ELSE Uses(c.t, x, 0, 0)
  IN FirstBad(TLCEval([i \in 1..n |-> one(i)]))
=============================================================================
