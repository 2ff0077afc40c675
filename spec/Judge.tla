------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Verdicts on recorded calls of the real library.  An event records the   *)
(* arguments (type strings as code points, values as records, payloads as  *)
(* bytes) and the outcome: ok = 1 with v (value) or b (bytes), or ok = 0   *)
(* with e, the names of the raised exception's classes.  Field c names the *)
(* clause to apply.  "" means conforming, "skip" that the clause does not  *)
(* apply (never expected, counted), anything else names what is wrong.     *)
(* Every clause judges one property only: an event that breaks another     *)
(* property alone is accepted.                                             *)
(***************************************************************************)
EXTENDS Codec

RangeOf(s) == {s[i] : i \in 1..Len(s)}
Types(e) == TLCEval([i \in 1..Len(e.ts) |-> TypeOfStr(e.ts[i])])
AllValid(ts) == \A i \in 1..Len(ts) : ts[i].k # "bad"
Raised(r, name) == r.ok = 0 /\ name \in RangeOf(r.e)

\* the encoding fault an exception names
EncErr(r) ==
  IF Raised(r, "EncodingTypeError") THEN "type"
  ELSE IF Raised(r, "ValueOutOfBounds") THEN "bounds"
  ELSE IF Raised(r, "IllegalValue") THEN "illegal"
  ELSE "other"
\* the decoding fault an exception names
DecErr(r) ==
  IF Raised(r, "InsufficientDataBytes") THEN "insuff"
  ELSE IF Raised(r, "NonEmptyPaddingBytes") THEN "padding"
  ELSE IF Raised(r, "InvalidPointer") THEN "pointer"
  ELSE IF Raised(r, "UnicodeDecodeError") THEN "unicode"
  ELSE "other"

EncBytes(ts, as_, pk) == IF pk = 1 THEN PEncItems(ts, as_) ELSE EncItems(ts, as_)

(* C01: ts, vs, en: encode outcome, rs / rl: strict / lenient decode of it *)
RoundTrip(e) ==
  LET ts == Types(e) IN
  IF ~AllValid(ts) \/ TopFaults(ts, e.vs) # {} THEN "skip"
  ELSE IF e.en.ok = 0 THEN "encoding an encodable value failed"
  ELSE LET as_ == TopAbs(ts, e.vs)
       IN IF e.rs.ok = 0 THEN "strict decoding of an encoding failed"
          ELSE IF e.rl.ok = 0 THEN "non-strict decoding of an encoding failed"
          ELSE IF ~DenotesTop(ts, e.rs.v, as_) THEN "strict round trip changed a value"
          ELSE IF ~DenotesTop(ts, e.rl.v, as_) THEN "non-strict round trip changed a value"
          ELSE ""

(* C02, C16: ts, vs, pk, r *)
Exact(e) ==
  LET ts == Types(e) IN
  IF ~AllValid(ts) \/ TopFaults(ts, e.vs) # {} THEN "skip"
  ELSE IF e.r.ok = 0 THEN "encoding an encodable value failed"
  ELSE IF e.r.y # "bytes" THEN "result is not of type bytes"
  ELSE IF e.r.b # EncBytes(ts, TopAbs(ts, e.vs), e.pk) THEN "encoding differs from the specified bytes"
  ELSE ""

(* C03: ts, vs, pk, r *)
Accepts(e) ==
  LET ts == Types(e)
      f == TopFaults(ts, e.vs)
  IN IF ~AllValid(ts) \/ "unspecified" \in f THEN "skip"
     ELSE IF f # {} THEN
       IF e.r.ok = 1 THEN "value without loss-free encoding was accepted"
       ELSE IF EncErr(e.r) \notin f THEN "wrong kind of error for the value"
       ELSE ""
     ELSE IF e.r.ok = 0 THEN "representable value was refused"
     ELSE LET as_ == TopAbs(ts, e.vs)
          IN IF e.pk = 1
             THEN IF e.r.b = PEncItems(ts, as_) THEN "" ELSE "value was altered (packed)"
             ELSE LET d == DecTop(ts, e.r.b, TRUE)
                  IN IF d.f = {} /\ d.v # as_ THEN "value was altered"
                     ELSE IF d.f # {} /\ \A i \in 1..Len(ts) : ts[i].k \notin {"arr", "tup", "bytes", "string"}
                          THEN "value was altered"
                     ELSE ""

(* C04: t, v, pk, r: is_encodable, rt: is_encodable_type, en: encode([t],[v]) *)
Agrees(e) ==
  LET t == TypeOfStr(e.t) IN
  IF e.r.ok = 0 THEN "the encodability check raised"
  ELSE IF e.r.v.k # "bool" THEN "the answer is not True or False"
  ELSE IF e.rt.ok = 0 THEN "the type check raised"
  ELSE IF e.rt.v.k # "bool" THEN "the answer for the type is not True or False"
  ELSE IF t.k = "bad" /\ e.r.v.x = 1 THEN "True for a type string that is no type"
  ELSE IF t.k = "bad" /\ e.rt.v.x = 1 THEN "type check True for a type string that is no type"
  ELSE IF t.k # "bad" /\ e.rt.v.x = 0 THEN "type check False for a type that can be encoded"
  ELSE IF e.r.v.x # e.en.ok THEN "is_encodable and encode disagree"
  ELSE ""

(* C05: ts, b, r: strict outcome *)
StrictDec(e) ==
  LET ts == Types(e)
      d == DecTop(ts, e.b, TRUE)
  IN IF ~AllValid(ts) THEN "skip"
     ELSE IF d.f = {}
     THEN IF e.r.ok = 0 THEN "well-formed payload was rejected"
          ELSE IF ~DenotesTop(ts, e.r.v, d.v) THEN "decoded value is not what the payload denotes"
          ELSE ""
     ELSE IF e.r.ok = 1 THEN "malformed payload was accepted"
     ELSE IF DecErr(e.r) \notin d.f THEN "error names a fault the payload does not have"
     ELSE ""

(* C06: ts, b, st (strict flag), r *)
Pointers(e) ==
  LET ts == Types(e)
      d == DecTop(ts, e.b, e.st = 1)
  IN IF ~AllValid(ts) THEN "skip"
     ELSE IF "pointer" \in d.f
     THEN IF e.r.ok = 1 THEN "an invalid offset was followed"
          ELSE IF d.f = {"pointer"} /\ DecErr(e.r) # "pointer"
          THEN "an invalid offset was not reported as such"
          ELSE ""
     ELSE IF e.r.ok = 0 /\ DecErr(e.r) = "pointer" THEN "valid offsets were rejected"
     ELSE IF d.f = {} /\ e.r.ok = 0 THEN "a payload with valid offsets was rejected"
     ELSE IF d.f = {} /\ ~DenotesTop(ts, e.r.v, d.v) THEN "an offset was resolved to the wrong place"
     ELSE ""

(* C07: ts, b, st, r *)
Total(e) ==
  LET ts == Types(e) IN
  IF ~AllValid(ts) THEN "skip"
  ELSE IF e.r.ok = 1
  THEN IF e.r.v.k = "seq" /\ e.r.v.y = "tuple" /\ Len(e.r.v.i) = Len(ts) THEN ""
       ELSE "the result is not a tuple with one value per type"
  ELSE IF Raised(e.r, "TIMEOUT") THEN "decoding did not terminate in time"
  ELSE IF Raised(e.r, "DecodingError") \/ Raised(e.r, "UnicodeDecodeError") THEN ""
  ELSE "decoding raised something other than a decoding error"

(* C08: ts, b, rs: strict, rl: lenient *)
Lenient(e) ==
  LET ts == Types(e)
      ds == DecTop(ts, e.b, TRUE)
      dl == DecTop(ts, e.b, FALSE)
  IN IF ~AllValid(ts) THEN "skip"
     ELSE IF e.rs.ok = 1 /\ e.rl.ok = 0 THEN "strict accepts, non-strict does not"
     ELSE IF e.rs.ok = 1 /\ e.rs.v # e.rl.v THEN "strict and non-strict results differ"
     ELSE IF e.rs.ok = 1 /\ "insuff" \notin dl.f THEN ""
     ELSE IF dl.f = {} /\ ds.f # {}
     THEN IF e.rl.ok = 0 THEN "byte-string padding was not relaxed"
          ELSE IF ~DenotesTop(ts, e.rl.v, dl.v) THEN "non-strict result is not what the payload denotes"
          ELSE ""
     ELSE IF dl.f # {} /\ e.rl.ok = 1 THEN "non-strict mode relaxed more than byte-string padding"
     ELSE ""

(* C19: ts, r: outcome for a payload, x: outcomes for extensions of it *)
Suffix(e) ==
  IF e.r.ok = 0 THEN "skip"
  ELSE IF \E i \in 1..Len(e.x) : e.x[i].ok = 0 THEN "appended bytes made decoding fail"
  ELSE IF \E i \in 1..Len(e.x) : e.x[i].v # e.r.v THEN "appended bytes changed the result"
  ELSE ""
(* C19: x: outcomes of strict decoding of proper prefixes of an encoding *)
Prefix(e) ==
  IF \E i \in 1..Len(e.x) : e.x[i].ok = 1 THEN "a proper prefix of an encoding was decoded" ELSE ""

(* C21: ts, r: decode outcome (ok), en / pk: standard / packed re-encoding,
   r2: decoding of en *)
Recode(e) ==
  LET ts == Types(e) IN
  IF ~AllValid(ts) \/ e.r.ok = 0 THEN "skip"
  ELSE IF ~Canonical([k |-> "tup", c |-> ts], e.r.v) THEN "decoded value is not canonical or out of range"
  ELSE IF e.en.ok = 0 THEN "decoded value does not encode"
  ELSE IF e.pk.ok = 0 THEN "decoded value does not encode packed"
  ELSE IF e.r2.ok = 0 THEN "re-encoded value does not decode"
  ELSE IF e.r2.v # e.r.v THEN "decoding the re-encoded value gives another result"
  ELSE ""

(* C23: b: content, h: handler, r: text outcome *)
TextDec(e) ==
  LET d == Utf8Dec(e.b, e.h) IN
  IF Utf8Valid(e.b)
  THEN IF e.r.ok = 0 THEN "valid UTF-8 was rejected"
       ELSE IF e.r.v.k = "str" /\ TextOk(e.r.v.c) /\ Utf8Of(e.r.v.c) = e.b /\ e.r.v.c = d.t THEN ""
       ELSE "decoded text is not the content"
  ELSE IF ~d.ok
  THEN IF e.r.ok = 1 THEN "invalid UTF-8 was accepted"
       ELSE IF Raised(e.r, "UnicodeDecodeError") THEN "" ELSE "invalid UTF-8: wrong kind of error"
  ELSE IF e.r.ok = 0 THEN "decoding with an error handler failed"
       ELSE IF e.r.v.k = "str" /\ e.r.v.c = d.t THEN ""
       ELSE "text is not what the error handler prescribes"
(* C23: v: text, r: encode outcome, ie: is_encodable *)
TextEnc(e) ==
  IF TextOk(e.v.c)
  THEN IF e.r.ok = 0 THEN "text with a UTF-8 form was refused"
       ELSE IF e.g = "" /\ e.r.b # EncItems(<<[k |-> "string"]>>, <<Utf8Of(e.v.c)>>) THEN "text encoded wrongly"
       ELSE IF e.g = "packed" /\ e.r.b # Utf8Of(e.v.c) THEN "text packed wrongly"
       ELSE IF e.ie.ok = 1 /\ e.ie.v.k = "bool" /\ e.ie.v.x = 1 THEN ""
       ELSE "text with a UTF-8 form reported as not encodable"
  ELSE IF e.r.ok = 1 THEN "text without UTF-8 form was encoded"
       ELSE IF ~Raised(e.r, "EncodingError") THEN "text without UTF-8 form: not an encoding error"
       ELSE IF e.ie.ok = 1 /\ e.ie.v.k = "bool" /\ e.ie.v.x = 0 THEN ""
       ELSE "text without UTF-8 form reported as encodable"

(* C20: ts, vs: one generated value, en, rs, rl as in RoundTrip *)
Sampled(e) ==
  LET ts == Types(e) IN
  IF ~AllValid(ts) THEN "skip"
  ELSE IF TopFaults(ts, e.vs) # {} THEN "the strategy generated a value that is not of the type"
  ELSE IF e.en.ok = 0 THEN "a generated value does not encode"
  ELSE RoundTrip(e)
LowestOf(t) == IF Signed(t) THEN Num0(1, HalfNat(t.n \div 8)) ELSE Num0(0, <<>>)
HighestOf(t) == Num0(0, MaxNat(t.n \div 8, IF Signed(t) THEN 1 ELSE 0))
(* C20: t, xs: values generated for a type: kinds of values that must be among them *)
Spans(e) ==
  LET t == TypeOfStr(e.t)
      xs == {e.xs[i] : i \in 1..Len(e.xs)}
      A(v) == Abs(t, v)
      has(P(_)) == \E v \in xs : P(v)
  IN IF t.k = "bad" THEN "skip"
     ELSE IF t.k \in {"uint", "int", "ufixed", "fixed"}
     THEN IF ~has(LAMBDA v : A(v) = LowestOf(t)) THEN "the lowest value of the type is not generated"
          ELSE IF ~has(LAMBDA v : A(v) = HighestOf(t)) THEN "the highest value of the type is not generated"
          ELSE IF ~has(LAMBDA v : A(v) \notin {LowestOf(t), HighestOf(t)}) THEN "only the extreme values are generated"
          ELSE ""
     ELSE IF t.k = "bool"
     THEN IF Cardinality({A(v) : v \in xs}) = 2 THEN "" ELSE "one of the truth values is not generated"
     ELSE IF t.k = "string"
     THEN IF has(LAMBDA v : v.c = <<>>) /\ has(LAMBDA v : \E i \in 1..Len(v.c) : v.c[i] > 127) THEN ""
          ELSE "empty or non-ASCII texts are not generated"
     ELSE IF t.k = "bytes"
     THEN IF has(LAMBDA v : v.b = <<>>) /\ has(LAMBDA v : Len(v.b) > 1) THEN "" ELSE "only one length of byte strings is generated"
     ELSE IF t.k = "arr" /\ t.n = -1
     THEN IF has(LAMBDA v : v.i = <<>>) /\ has(LAMBDA v : Len(v.i) > 1) THEN "" ELSE "only one length of arrays is generated"
     ELSE IF Cardinality(xs) > 1 THEN "" ELSE "only one value is generated"

(* C17: x: name of the exception a user-registered coder raises, hit: it meets the
   value for which it does *)
Propagates(e) ==
  IF e.hit = 0 THEN (IF e.r.ok = 1 THEN "" ELSE "coding failed although no coder raised")
  ELSE IF e.r.ok = 1 THEN "the error of a user-registered coder was swallowed"
  ELSE IF Raised(e.r, e.x) THEN "" ELSE "the error of a user-registered coder was replaced"

(* generic: same outcome expected *)
Same(e) == IF e.r = e.q THEN "" ELSE "outcome differs from that of the same call made alone"

Sames(e) == IF \A i \in 1..Len(e.x) : e.x[i].r = e.x[i].q THEN "" ELSE "a response differs from that of the same call made alone"

=============================================================================
