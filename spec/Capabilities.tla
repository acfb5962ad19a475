---------------------------- MODULE Capabilities ----------------------------
(* What the processor says about itself and what the library's report makes  *)
(* of it.  A processor answers the identification instruction leaf by leaf;  *)
(* it has the leaves up to its highest one and answers for the others with   *)
(* the data of that one.  An extension is there when the processor has the   *)
(* leaf and the bit is set.                                                  *)
EXTENDS BigMath

Ext(name, leaf, r, bit) == [name |-> name, leaf |-> leaf, reg |-> r, bit |-> bit]
Exts == << Ext("CMOV", 1, "d", 15), Ext("SSE", 1, "d", 25), Ext("SSE2", 1, "d", 26), Ext("SSE3", 1, "c", 0),
           Ext("SSSE3", 1, "c", 9), Ext("SSE4_1", 1, "c", 19), Ext("SSE4_2", 1, "c", 20), Ext("AVX", 1, "c", 28),
           Ext("AVX2", 7, "b", 5), Ext("BMI", 7, "b", 3), Ext("BMI2", 7, "b", 8), Ext("ADX", 7, "b", 19) >>
\* what the library cannot do without: all but the last
Required == 1..(Len(Exts) - 1)
\* a processor: highest leaf, leaf 1 (ecx and edx), leaf 7 (ebx), all the rest
Word(cpu, leaf, r) == IF leaf > cpu.max THEN cpu.rest
                      ELSE CASE leaf = 1 /\ r = "c" -> cpu.c1 [] leaf = 1 /\ r = "d" -> cpu.d1 [] leaf = 7 /\ r = "b" -> cpu.b7
Has(cpu, x) == x.leaf <= cpu.max /\ BitOf(Word(cpu, x.leaf, x.reg), x.bit) = 1
Supported(cpu) == \A k \in Required : Has(cpu, Exts[k])
\* the report: one line for each extension, and a verdict
CapabilityEvent(e) ==
  /\ e.yes = Tup([k \in 1..Len(Exts) |-> IF Has(e.cpu, Exts[k]) THEN 1 ELSE 0])
  /\ e.verdict = (IF Supported(e.cpu) THEN 1 ELSE 0)
=============================================================================
