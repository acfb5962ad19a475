------------------------------- MODULE Objects ------------------------------
(* The objects a user asks the library for: sizes, allocation, release,      *)
(* printing.  The state is the set of objects handed out, slot -> [at, need],*)
(* and of the blocks obtained from the allocator for them, address -> size.  *)
EXTENDS BigMath, FiniteSets

\* sizes of keys and signatures (RFC 7748, RFC 8032)
KeySize(w) == CASE w \in {"x448"} -> 56
                [] w \in {"ed448", "ed448ph", "ed448.sig", "ed448ph.sig"} -> 57
                [] OTHER -> 32
SigSize(w) == CASE w \in {"ed448.sig", "ed448ph.sig"} -> 114 [] OTHER -> 64
IsSig(w) == w \in {"ed25519.sig", "ed25519ctx.sig", "ed25519ph.sig", "ed448.sig", "ed448ph.sig"}
\* bytes an object holds; of field elements: the digits as they lie in memory
Need(w) ==
  CASE w = "f255.f" -> 32 [] w = "f255.r" -> 96 [] w = "f255.t" -> 160 [] w = "f255.q" -> 320
    [] w = "f448.f" -> 56 [] w = "f448.r" -> 128 [] w = "f448.t" -> 256 [] w = "f448.q" -> 512
    [] OTHER -> IF IsSig(w) THEN SigSize(w) ELSE KeySize(w)
Alignment == 32

NoObjects == [objs |-> <<>>, blks |-> <<>>]
Apart(a, n, b, m) == a + n <= b \/ b + m <= a
\* blocks after a call that obtained got and returned gave
Blocks(blks, got, gave) ==
  LET new == [a \in {got[i][1] : i \in DOMAIN got} |-> got[CHOOSE i \in DOMAIN got : got[i][1] = a][2]]
      all == [a \in DOMAIN blks \cup DOMAIN new |-> IF a \in DOMAIN new THEN new[a] ELSE blks[a]]
  IN [a \in DOMAIN all \ {gave[i][1] : i \in DOMAIN gave} |-> all[a]]

AllocEvent(e, s) ==
  LET at  == e.at[1]
      n   == Need(e.what)
      bs  == Blocks(s.blks, e.got, e.gave)
      Of  == {a \in DOMAIN bs : a <= at /\ at < a + bs[a] + Alignment}
      s2  == [objs |-> IF at = 0 THEN s.objs
                       ELSE [k \in DOMAIN s.objs \cup {e.slot} |-> IF k = e.slot THEN [at |-> at, need |-> n] ELSE s.objs[k]],
              blks |-> bs]
  IN [ok |-> IF e.refused = 1
             THEN at = 0 /\ bs = s.blks
             ELSE /\ at # 0 /\ at % Alignment = 0
                  /\ e.gave = <<>>
                  \* all of it lies in the memory obtained for it
                  /\ Of # {} => \E a \in Of : at + n <= a + bs[a]
                  \* no byte is shared with another object
                  /\ \A k \in DOMAIN s.objs : Apart(s.objs[k].at, s.objs[k].need, at, n),
      next |-> s2]
FreeEvent(e, s) ==
  LET bs == Blocks(s.blks, e.got, e.gave) IN
  IF e.slot < 0 \/ e.slot \notin DOMAIN s.objs
  THEN [ok |-> e.gave = <<>> /\ bs = s.blks, next |-> s]
  ELSE LET o  == s.objs[e.slot]
           Of == {a \in DOMAIN s.blks : a <= o.at /\ o.at < a + s.blks[a]}
       IN [ok |-> /\ e.intact = 1
                  /\ {e.gave[i][1] : i \in DOMAIN e.gave} = Of
                  /\ Len(e.gave) = Cardinality(Of),
           next |-> [objs |-> [k \in DOMAIN s.objs \ {e.slot} |-> s.objs[k]], blks |-> bs]]

(* Numerals of a text: the hexadecimal digits after each 0x *)
IsHexDigit(c) == c \in 48..57 \/ c \in 97..102 \/ c \in 65..70
DigitOf(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
\* acc: <<finished numerals, current numeral or <<-1>>, previous byte was a zero>>
Numerals(text) ==
  LET F(acc, k) ==
        LET c == text[k] IN
        IF acc[2] # <<-1>>
        THEN IF IsHexDigit(c) THEN <<acc[1], Append(acc[2], DigitOf(c)), FALSE>>
             ELSE <<Append(acc[1], acc[2]), <<-1>>, FALSE>>
        ELSE IF c \in {120, 88} /\ acc[3] THEN <<acc[1], <<>>, FALSE>>
             ELSE <<acc[1], <<-1>>, c = 48>>
      r == FoldN(F, << <<>>, <<-1>>, FALSE >>, Len(text))
  IN IF r[2] = <<-1>> THEN r[1] ELSE Append(r[1], r[2])
ValueOf(digits) == LET F(acc, k) == 16 * acc + digits[k] IN FoldN(F, 0, Len(digits))
\* a byte string, most significant byte first
PrintsBytes(text, b) ==
  LET q == Numerals(text) IN Len(q) = 1 /\ Len(q[1]) = 2 * Len(b) /\ ValueOf(q[1]) = LeInt(b)
\* lanes of field elements: their residues, one after the other
PrintsLanes(text, lanes, p) ==
  LET q == Numerals(text) IN Len(q) = Len(lanes) /\ \A l \in 1..Len(q) : (ValueOf(q[l]) - lanes[l]) % p = 0

ObjectEvent(e, s) ==
  IF e.st = "absent" THEN [ok |-> FALSE, next |-> s]
  ELSE CASE e.op = "size" -> [ok |-> e.key = KeySize(e.what) /\ (IsSig(e.what) => e.sig = SigSize(e.what)), next |-> s]
         [] e.op = "alloc" -> AllocEvent(e, s)
         [] e.op = "free" -> FreeEvent(e, s)
         \* the memory obtained by all the calls of this history is that of the objects
         [] e.op = "keep" -> [ok |-> e.live = Cardinality(DOMAIN s.blks), next |-> s]
         [] e.op = "print" -> [ok |-> PrintsBytes(e.text, e.x), next |-> s]
         [] e.op = "point" -> [ok |-> PrintsLanes(e.text, <<LeInt(e.x), LeInt(e.y)>>, 2^255 - 19), next |-> s]
=============================================================================
