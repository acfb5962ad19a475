--------------------------- MODULE Noninterference --------------------------
(* Self-composition of the library with itself.  A run is one secret-key     *)
(* operation of the real code; what an observer of control flow and          *)
(* addresses sees of it is its sequence of observations (instruction and     *)
(* data addresses, folded into chunks by the recorder).  The system steps    *)
(* two runs that agree on everything public side by side; noninterference    *)
(* says that they show the same observation at every step and end together.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

\* [pub: everything public (operation, peer, message, context, lengths),
\*  sec: number of the secret, d: chunks, n: number of observations]
Runs == ndJsonDeserialize(IOEnv.RUNS)
\* the first run of every public class is compared with all others; equality
\* is transitive, so that covers all pairs
First(pub) == CHOOSE k \in 1..Len(Runs) : Runs[k].pub = pub /\ \A j \in 1..(k - 1) : Runs[j].pub # pub
Firsts == [pub \in {Runs[k].pub : k \in 1..Len(Runs)} |-> First(pub)]
Pairs == {<<Firsts[Runs[k].pub], k>> : k \in 1..Len(Runs)}

VARIABLES a, b,   \* the two runs
          t,      \* chunks observed so far
          low     \* TRUE while everything observed agreed
vars == <<a, b, t, low>>

Init == /\ \E p \in {q \in Pairs : q[1] # q[2]} : a = p[1] /\ b = p[2]
        /\ t = 0 /\ low = TRUE
Obs(r, k) == IF k <= Len(Runs[r].d) THEN Runs[r].d[k] ELSE "ended"
Done == t = Len(Runs[a].d) /\ t = Len(Runs[b].d)
Step == /\ low /\ ~Done
        /\ t' = t + 1
        /\ low' = (Obs(a, t + 1) = Obs(b, t + 1))
        /\ IF low' THEN TRUE ELSE PrintT(<<"LEAK", a, b, t + 1>>)
        /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Step]_vars

\* reported through LEAK lines so that every pair is explored; stated here
Noninterfering == low
SameLength == Done => Runs[a].n = Runs[b].n
=============================================================================
