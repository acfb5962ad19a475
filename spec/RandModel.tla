------------------------------ MODULE RandModel -----------------------------
(* One request for Size random bytes: the loop of the implementation as a    *)
(* state machine, the system source as its environment.                      *)
(*  Environment: opening succeeds, is interrupted or fails; a read delivers  *)
(*  between 1 and the number of bytes asked for, nothing, is interrupted or  *)
(*  fails.  Bytes are numbered in the order in which the source delivers     *)
(*  them.                                                                    *)
(* Safety: returning means the buffer holds Size delivered bytes, each once, *)
(* in order; no read asks for more than the buffer has left; the descriptor  *)
(* is closed once.  Stopping needs a failure that was not an interruption.   *)
(* Liveness: under a source that is not interrupted for ever, every request  *)
(* ends; with interruptions and short reads only, it ends by returning.      *)
EXTENDS Naturals, Sequences
CONSTANTS Size, Hard   \* Hard: whether the source may fail for good
VARIABLES pc, fd, err, buf, l, seen, hard
vars == <<pc, fd, err, buf, l, seen, hard>>
Empty == 0
Init == /\ pc = "open" /\ fd = "none" /\ err = "none"
        /\ buf = [j \in 1..Size |-> Empty] /\ l = 0 /\ seen = 0 /\ hard = FALSE
\* --- opening
OpenOk == /\ pc = "open" /\ fd' = "open" /\ pc' = "loop" /\ UNCHANGED <<err, buf, l, seen, hard>>
OpenIntr == /\ pc = "open" /\ err' = "EINTR" /\ UNCHANGED <<pc, fd, buf, l, seen, hard>>
OpenFail == /\ pc = "open" /\ Hard /\ err' = "other" /\ hard' = TRUE /\ pc' = "abort"
            /\ UNCHANGED <<fd, buf, l, seen>>
\* --- reading
Loop == /\ pc = "loop" /\ pc' = (IF l < Size THEN "read" ELSE "close")
        /\ UNCHANGED <<fd, err, buf, l, seen, hard>>
ReadSome == /\ pc = "read"
            /\ \E c \in 1..(Size - l) :
                 /\ buf' = [j \in 1..Size |-> IF j > l /\ j <= l + c THEN seen + j - l ELSE buf[j]]
                 /\ seen' = seen + c /\ l' = l + c
            /\ pc' = "loop" /\ UNCHANGED <<fd, err, hard>>
ReadIntr == /\ pc = "read" /\ err' = "EINTR" /\ pc' = "loop" /\ UNCHANGED <<fd, buf, l, seen, hard>>
\* a read that delivers nothing or fails stops the program, whatever errno was before
ReadNone == /\ pc = "read" /\ Hard /\ hard' = TRUE /\ pc' = "abort" /\ UNCHANGED <<fd, err, buf, l, seen>>
ReadFail == /\ pc = "read" /\ Hard /\ err' = "other" /\ hard' = TRUE /\ pc' = "abort"
            /\ UNCHANGED <<fd, buf, l, seen>>
Close == /\ pc = "close" /\ fd' = "closed" /\ pc' = "return" /\ UNCHANGED <<err, buf, l, seen, hard>>
Next == OpenOk \/ OpenIntr \/ OpenFail \/ Loop \/ ReadSome \/ ReadIntr \/ ReadNone \/ ReadFail \/ Close
\* not interrupted for ever: opening and reading get an answer again and again
Fair == /\ WF_vars(Loop) /\ WF_vars(Close)
        /\ SF_vars(OpenOk \/ OpenFail) /\ SF_vars(ReadSome \/ ReadNone \/ ReadFail)
Spec == Init /\ [][Next]_vars /\ Fair
------------------------------------------------------------------------------
\* returned is full, in order, without gap or repetition
Full == pc = "return" => \A j \in 1..Size : buf[j] = j
Room == l <= Size /\ (pc = "read" => l < Size)
Prefix == \A j \in 1..Size : buf[j] = (IF j <= l THEN j ELSE Empty)
OneFd == /\ (pc \in {"loop", "read", "close"} => fd = "open")
         /\ (pc = "return" => fd = "closed")
Justified == pc = "abort" => hard
\* --- the request ends; only a hard failure keeps it from returning
Ends == <>(pc \in {"return", "abort"})
Completes == []<>(pc = "return" \/ hard)
=============================================================================
