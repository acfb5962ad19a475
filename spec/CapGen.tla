------------------------------- MODULE CapGen -------------------------------
(* Every processor: each set of the extensions, each kind of highest leaf,   *)
(* and the bits that do not matter all clear or all set.  TLC visits them    *)
(* all, prints them for replay against the implementation, and checks what   *)
(* the report rests on: reading the answers leaf by leaf gives back the set, *)
(* whatever the other bits, and counting extensions does not decide support. *)
EXTENDS Capabilities, FiniteSets, TLC
VARIABLES set,    \* the extensions the processor is given
          max,    \* its highest leaf
          rest    \* the bits that do not matter, and the data of the highest leaf
vars == <<set, max, rest>>
Ones == 2^32 - 1
\* a register whose meaningful bits are those of the set
Fill(leaf, r) ==
  LET F(acc, k) == IF Exts[k].leaf = leaf /\ Exts[k].reg = r
                   THEN acc - BitOf(acc, Exts[k].bit) * 2^Exts[k].bit + (IF k \in set THEN 2^Exts[k].bit ELSE 0) ELSE acc
  IN FoldN(F, rest, Len(Exts))
Cpu == [max |-> max, c1 |-> Fill(1, "c"), d1 |-> Fill(1, "d"), b7 |-> Fill(7, "b"), rest |-> rest]
Init == set = {} /\ max \in {1, 5, 7, 13} /\ rest \in {0, Ones}
Give(k) == k \notin set /\ set' = set \cup {k} /\ UNCHANGED <<max, rest>>
Next == \E k \in 1..Len(Exts) : Give(k) /\ \A j \in set : j < k
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Meaning == \A k \in 1..Len(Exts) : Has(Cpu, Exts[k]) <=> k \in set /\ Exts[k].leaf <= max
Verdict == Supported(Cpu) <=> Required \subseteq set /\ max >= 7
\* a set as large as a supported one need not be supported
ASSUME Counting == \E s \in SUBSET (1..Len(Exts)) : Cardinality(s) = Cardinality(Required) /\ ~(Required \subseteq s)
Show == PrintT(<<"CPU", max, Cpu.c1, Cpu.d1, Cpu.b7, rest>>)
=============================================================================
