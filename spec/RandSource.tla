------------------------------ MODULE RandSource ----------------------------
(* Requests for random bytes from a system source that may fail, be          *)
(* interrupted or deliver fewer bytes than asked for.  A request is an       *)
(* alternation of source calls; it returns only in a state where all the     *)
(* requested bytes have been delivered, in which case the buffer holds       *)
(* exactly the delivered bytes, in order.  It may also stop the program or   *)
(* keep trying when the source is permanently broken, but not when all       *)
(* failures are interruptions or short reads.                                *)
EXTENDS BigMath

\* failures after which the request must still complete: interruptions (i),
\* short reads (digits)
Letters(s) == Ascii(s)
Transient(s) == \A n \in 1..Len(Letters(s)) : Letters(s)[n] \in {111, 102, 105} \cup (49..57)
\* without repetition for ever
RandLanes(e) == Len(e.oc)
\* the values of an element randomizer are the delivered strings
ElementBytes(e) == IF e.fd = 255 THEN 32 ELSE 56
\* out is made of delivered bytes, in the order of delivery (bytes may be
\* thrown away, for instance by starting over after a short read)
Delivered(out, dl) ==
  LET F(acc, k) == IF acc < Len(out) /\ dl[k] = out[acc + 1] THEN acc + 1 ELSE acc
  IN FoldN(F, 0, Len(dl)) = Len(out)
RandReturned(e, vals, p) ==
  IF e.what \in {"f255.f", "f255.r", "f255.t", "f255.q", "f448.f", "f448.r", "f448.t", "f448.q"}
  THEN LET n  == ElementBytes(e)
           ln == RandLanes(e)
           V(o) == LeInt(SubSeq(e.dl, o + 1, o + n))
       IN /\ e.ndl >= n * ln
          /\ \A l \in 1..ln : \E o \in 0..(Len(e.dl) - n) :
               \/ (vals[l] - V(o)) % p = 0
               \/ (vals[l] - (V(o) % 2^255)) % p = 0
          /\ \A l, j \in 1..ln : l # j => (vals[l] - vals[j]) % p # 0
  ELSE e.ndl >= e.size /\ Delivered(e.out, e.dl) /\ Len(e.out) = e.size
=============================================================================
