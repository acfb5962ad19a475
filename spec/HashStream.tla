----------------------------- MODULE HashStream ----------------------------
(* Streaming hashes: several open contexts, fed in any order with pieces of  *)
(* any size, closed at any time.  Bytes are abstract (byte j of the message  *)
(* of context c is <<c, j>>), the compression function is abstract (the list *)
(* of blocks it was given), the bookkeeping is the implementation's.         *)
(*  "md": SHA-512, a buffer of one block, padding 80 00..00 and a length of  *)
(*        LF bytes, in one or two blocks                                     *)
(*  "sponge": bytes are xored into the state, the last block is padded       *)
(*        without ever being full                                            *)
(* The refinement: whatever the pieces, the blocks are those of the padded   *)
(* whole message, and copies of a context go their own way.                  *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Kind, B, LF, Max, Ctx, OutMax
VARIABLES st,   \* context -> [id, n, buf, blocks] or <<>> when not open
          done  \* context -> [msg, blocks, outs] when closed
vars == <<st, done>>
Byte(id, j) == <<id, j>>
Msg(id, n) == [j \in 1..n |-> Byte(id, j)]
Closed == <<>>
Init == st = [c \in Ctx |-> Closed] /\ done = [c \in Ctx |-> Closed]
Open(c) == /\ st[c] = Closed /\ done[c] = Closed
           /\ st' = [st EXCEPT ![c] = [id |-> c, msg |-> <<>>, buf |-> <<>>, blocks |-> <<>>]]
           /\ UNCHANGED done
\* feeding as the library does: fill up the buffer, whole blocks, the rest
Feed(s, data) ==
  LET RECURSIVE Go(_, _)
      Go(x, d) ==
        LET room == B - Len(x.buf) IN
        IF Len(d) < room THEN [x EXCEPT !.buf = @ \o d]
        ELSE Go([x EXCEPT !.blocks = Append(@, x.buf \o SubSeq(d, 1, room)), !.buf = <<>>], SubSeq(d, room + 1, Len(d)))
  IN [Go(s, data) EXCEPT !.msg = s.msg \o data]
Update(c, n) == /\ st[c] # Closed /\ Len(st[c].msg) + n <= Max
                /\ st' = [st EXCEPT ![c] = Feed(@, [j \in 1..n |-> Byte(c, Len(@.msg) + j)])]
                /\ UNCHANGED done
Copy(c, e) == /\ st[c] # Closed /\ st[e] = Closed /\ done[e] = Closed
              /\ st' = [st EXCEPT ![e] = st[c]] /\ UNCHANGED done
Zeros(n) == [j \in 1..n |-> 0]
Length(n) == <<"len", n>>
LenField(n) == [j \in 1..LF |-> IF j = LF THEN Length(n) ELSE 0]
CloseMd(s) ==
  LET cur == Append(s.buf, 128)
      two == Len(cur) > B - LF
      first == IF two THEN <<cur \o Zeros(B - Len(cur))>> ELSE <<>>
      head == IF two THEN Zeros(B - LF) ELSE cur \o Zeros(B - LF - Len(cur))
  IN s.blocks \o first \o <<head \o LenField(Len(s.msg))>>
\* the two padding bits are xored in and may fall on the same byte
CloseSponge(s) ==
  LET k == Len(s.buf)
      pad == [j \in 1..B |-> IF j <= k THEN s.buf[j]
                             ELSE IF j = k + 1 /\ j = B THEN "ds+80" ELSE IF j = k + 1 THEN "ds" ELSE IF j = B THEN "80" ELSE 0]
  IN Append(s.blocks, pad)
\* squeezing n bytes: (number of permutations, position in the state)
Squeeze(nb, n) ==
  LET RECURSIVE Go(_, _, _)
      Go(k, left, out) == IF left > B THEN Go(k + 1, left - B, out \o [j \in 1..B |-> <<k, j>>])
                          ELSE out \o [j \in 1..left |-> <<k, j>>]
  IN Go(nb, n, <<>>)
Close(c) == /\ st[c] # Closed
            /\ LET bl == IF Kind = "md" THEN CloseMd(st[c]) ELSE CloseSponge(st[c])
               IN done' = [done EXCEPT ![c] = [msg |-> st[c].msg, blocks |-> bl]]
            /\ st' = [st EXCEPT ![c] = Closed]
Next == \E c \in Ctx : Open(c) \/ Close(c) \/ (\E n \in 0..(2 * B + 1) : Update(c, n)) \/ (\E e \in Ctx \ {c} : Copy(c, e))
Spec == Init /\ [][Next]_vars

\* the standards, on the whole message
PadMd(m) == LET z == (B - LF - 1 + 2 * B - (Len(m) % B)) % B
            IN m \o <<128>> \o Zeros(z) \o LenField(Len(m))
PadSponge(m) == LET q == B - (Len(m) % B)
                IN IF q = 1 THEN m \o <<"ds+80">> ELSE m \o <<"ds">> \o Zeros(q - 2) \o <<"80">>
RECURSIVE Flat(_)
Flat(bl) == IF bl = <<>> THEN <<>> ELSE Head(bl) \o Flat(Tail(bl))
Whole == \A c \in Ctx : st[c] # Closed =>
  /\ Flat(st[c].blocks) \o st[c].buf = st[c].msg
  /\ Len(st[c].buf) < B
  /\ \A j \in 1..Len(st[c].blocks) : Len(st[c].blocks[j]) = B
Standard == \A c \in Ctx : done[c] # Closed =>
  /\ Flat(done[c].blocks) = IF Kind = "md" THEN PadMd(done[c].msg) ELSE PadSponge(done[c].msg)
  /\ \A j \in 1..Len(done[c].blocks) : Len(done[c].blocks[j]) = B
\* the output is the first n bytes of the blocks squeezed one after the other
Output == \A n \in 0..OutMax : LET o == Squeeze(1, n) IN
  /\ Len(o) = n
  /\ \A j \in 1..n : o[j] = <<1 + ((j - 1) \div B), ((j - 1) % B) + 1>>
\* contexts do not mix: a context holds bytes of its own and, before them, of
\* those it was copied from
Apart == \A c \in Ctx : st[c] # Closed => \A j \in 1..Len(st[c].msg) :
            /\ st[c].msg[j][2] = j
            /\ \A k \in 1..j : st[c].msg[k][1] = c => st[c].msg[j][1] = c
=============================================================================
