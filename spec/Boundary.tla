------------------------------ MODULE Boundary ------------------------------
(***************************************************************************)
(* Verdicts on the boundary of the public calls (C24).                     *)
(***************************************************************************)
EXTENDS Typing

(* kt: kind of the types argument, kv: kind of the values or data argument; f: the function *)
ListLike == {"list", "tuple"}
BytesLike == {"bytes", "bytearray"}
ArgKinds(e) ==
  LET good == e.kt \in ListLike /\ e.kv \in (IF e.f = "decode" THEN BytesLike ELSE ListLike)
  IN IF good THEN "skip"
     ELSE IF Raised(e.r, "TypeError") /\ ~Raised(e.r, "EncodingError") /\ ~Raised(e.r, "DecodingError") THEN ""
     ELSE "an argument of the wrong kind: not a type error"

(* nt, nv: number of types and values; only valid types *)
Counts(e) ==
  IF e.nt = e.nv THEN "skip"
  ELSE IF Raised(e.r, "EncodingError") THEN ""
  ELSE "a wrong number of values: not an encoding error"

(* rs: outcomes of the same call with equivalent containers *)
Alike(e) ==
  IF \E i \in 2..Len(e.rs) : e.rs[i] # e.rs[1] THEN "list / tuple or bytes / bytearray are treated differently" ELSE ""

(* b, a: arguments before and after the call, with identities; v, w: result before and after the arguments were
   overwritten by the caller; rz: the buffers could still be resized *)
Untouched(e) ==
  IF e.a # e.b THEN "the call changed an argument"
  ELSE IF e.v # e.w THEN "the result changed with the arguments"
  ELSE IF e.rz = 0 THEN "the call left an argument locked"
  ELSE ""
=============================================================================
