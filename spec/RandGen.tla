------------------------------- MODULE RandGen ------------------------------
(* Enumerates the behaviours of a system random source: every sequence of    *)
(* outcomes of at most DEPTH source calls, optionally with the last outcome  *)
(* repeated for ever.  Each reachable state is one fault script; TLC visits  *)
(* them all and prints them for replay against the implementation.           *)
EXTENDS Naturals, Sequences, TLC, IOUtils
Depth == IF IOEnv.DEPTH = "2" THEN 2 ELSE IF IOEnv.DEPTH = "3" THEN 3 ELSE IF IOEnv.DEPTH = "4" THEN 4 ELSE 5
Opens == {"o", "O", "P"}
Reads == {"f", "1", "7", "i", "e", "z"}
VARIABLES script, over
Init == script = <<>> /\ over = FALSE
Step == /\ ~over /\ Len(script) < Depth
        /\ \E x \in Opens \cup Reads :
             \* outcomes of opening that follow each other only make sense while it fails
             /\ (x \in Opens /\ script # <<>>) => script[Len(script)] # "o"
             /\ script' = Append(script, x)
        /\ over' = FALSE
Forever == ~over /\ script # <<>> /\ script' = Append(script, "*") /\ over' = TRUE
Next == Step \/ Forever
Spec == Init /\ [][Next]_<<script, over>>
Show == IF script = <<>> THEN TRUE ELSE PrintT(<<"SCRIPT", script>>)
=============================================================================
