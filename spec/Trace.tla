-------------------------------- MODULE Trace -------------------------------
(* Trace validation: the events recorded from the real library, one history  *)
(* after the other, must be behaviours of the specification.  A history      *)
(* starts at an "R" event (all registers zero, no open hash context); every  *)
(* other event is one call.  The state of the specification is the register  *)
(* file of the field machine, the open hash contexts and the position in the *)
(* random stream.  An event no action allows is reported with its id and the *)
(* rest of the history is checked from the state the implementation reached. *)
EXTENDS FieldMachine, Objects, Points, Scalars, EdDSA, HashToCurve, RandSource, Capabilities, TLC, IOUtils

Log == LoadTrace(IOEnv.TRACE)
LogLen == Len(Log)
VARIABLES pos,    \* next event
          fresh,  \* TRUE in the first state of a history
          regs,   \* field registers touched so far: <<fd, rep, number>> -> register
          hctx,   \* hash contexts: number -> [alg, data]
          heap    \* objects handed out and the memory obtained for them
tvars == <<pos, fresh, regs, hctx, heap>>

Fine(e) == e.st = "ok" /\ e.clean = 1

(***************************** field operations ****************************)
ZeroReg(rep) == [x |-> Tup([l \in 1..LanesOf(rep) |-> 0]), lev |-> 0]
NoReg == [x |-> <<>>, lev |-> 0]
RegOf(fd, rep, k) ==
  IF rep = "" THEN NoReg
  ELSE IF <<fd, rep, k>> \in DOMAIN regs THEN regs[<<fd, rep, k>>] ELSE ZeroReg(rep)

FieldEvent(e) ==
  LET fd == e.fd
      o  == Operands(e.rep, e.op)
      p  == PrimeOf(fd)
      rc == RegOf(fd, o.c, e.c)
      ra == RegOf(fd, o.a, e.a)
      rb == RegOf(fd, o.b, e.b)
      \* what the implementation left in the operand registers
      nc == IF o.c = "" THEN <<>> ELSE LaneInts(fd, o.c, e.oc)
      nd == IF o.d = "" THEN <<>> ELSE LaneInts(fd, o.d, e.od)
      na == IF o.a = "" THEN <<>> ELSE LaneInts(fd, o.a, e.oa)
      nb == IF o.b = "" THEN <<>> ELSE LaneInts(fd, o.b, e.ob)
      \* does an output register coincide with this operand?
      Cover(r, k) == (o.c = r /\ e.c = k) \/ (o.d = r /\ e.d = k)
      lv == LevelAfter(fd, e.rep, e.op, rc.lev, ra.lev, rb.lev)
      inpl == InPlace(e.rep, e.op)
      bs == IF e.op = "unser" THEN e.x ELSE <<>>
      okc == IF o.c = "" \/ e.op = "set" THEN TRUE
             ELSE AllMeet(ResultC(fd, e.rep, e.op, rc.x, ra.x, rb.x, e.bit, bs), nc, p)
      okd == IF o.d = "" THEN TRUE ELSE AllMeet(ResultD(fd, e.rep, e.op, ra.x, rb.x), nd, p)
      oka == IF o.a = "" \/ Cover(o.a, e.a) THEN TRUE
             ELSE AllMeet(ResultA(fd, e.rep, e.op, ra.x, rb.x), na, p)
      okb == IF o.b = "" \/ Cover(o.b, e.b) THEN TRUE
             ELSE AllMeet(ResultB(fd, e.rep, e.op, ra.x, rb.x), nb, p)
      okx == CASE e.op = "ser" -> e.x = SerBytes(fd, ra.x)
               [] e.op = "print" -> PrintsLanes(e.text, ra.x, p)
               [] e.op = "cmp" ->
                    IF e.rep \in {"f", "r"} THEN (e.rc = 0) <=> SameLane(fd, ra.x, rb.x, 1)
                    ELSE \A l \in 1..LanesOf(e.rep) : (e.vec[VecWord(e.rep, l)] = 0) <=> SameLane(fd, ra.x, rb.x, l)
               [] e.op = "sgn" ->
                    IF e.rep \in {"f", "r"} THEN e.rc = SignLane(fd, ra.x, 1)
                    ELSE \A l \in 1..LanesOf(e.rep) : e.vec[VecWord(e.rep, l)] = SignLane(fd, ra.x, l)
               [] OTHER -> TRUE
      \* results of level 0 are carried
      okl == e.op = "set" \/ (/\ (o.c = "" \/ lv.c # 0 \/ Carried(fd, o.c, e.oc))
                              /\ (o.d = "" \/ lv.d # 0 \/ Carried(fd, o.d, e.od))
                              /\ (o.a = "" \/ Cover(o.a, e.a) \/ lv.a # 0 \/ ra.lev = 0 \/ Carried(fd, o.a, e.oa))
                              /\ (o.b = "" \/ Cover(o.b, e.b) \/ lv.b # 0 \/ rb.lev = 0 \/ Carried(fd, o.b, e.ob)))
      pre == e.op = "set" \/ LevelsOK(fd, e.rep, e.op, rc.lev, ra.lev, rb.lev)
      \* the new register file
      Up(acc, r, k, x, lev) == IF r = "" THEN acc ELSE (<<fd, r, k>> :> [x |-> x, lev |-> lev]) @@ acc
      s1 == IF o.b = "" \/ Cover(o.b, e.b) THEN regs ELSE Up(regs, o.b, e.b, nb, lv.b)
      s2 == IF o.a = "" \/ Cover(o.a, e.a) THEN s1 ELSE Up(s1, o.a, e.a, na, lv.a)
      s3 == IF o.d = "" THEN s2 ELSE Up(s2, o.d, e.d, nd, lv.d)
      s4 == Up(s3, o.c, e.c, nc, IF e.op = "set" THEN e.bit ELSE lv.c)
  IN IF e.st = "absent" THEN [ok |-> MayBeAbsent(fd, e.rep, e.op), pre |-> TRUE, regs |-> regs]
     ELSE [ok |-> e.st = "ok" /\ e.clean = 1 /\ okc /\ okd /\ oka /\ okb /\ okx /\ okl, pre |-> pre, regs |-> s4]

(****************************** byte-level calls ***************************)
Is448(alg) == alg \in {"x448", "ed448", "ed448ph"}
DHFun(alg, k, u) == IF alg = "x448" THEN X448(k, u) ELSE X25519(k, u)
DHBase(alg) == IF alg = "x448" THEN Enc(5, 56) ELSE Enc(9, 32)
VariantOf(alg) == CASE alg = "ed25519" -> "pure" [] alg = "ed25519ctx" -> "ctx"
                    [] alg = "ed25519ph" -> "ph" [] alg = "ed448" -> "pure" [] alg = "ed448ph" -> "ph"
KeyGenEvent(e) ==
  CASE e.alg \in {"x25519", "x25519_x64", "x448"} -> e.out = DHFun(e.alg, e.sk, DHBase(e.alg))
    [] e.alg \in {"ed448", "ed448ph"} -> e.rc = KEYGEN_OK /\ e.out = PublicKey448(e.sk)
    [] OTHER -> e.rc = KEYGEN_OK /\ e.out = PublicKey25519(e.sk)
\* a copy of the secret: more of it than a machine word, give or take a few
\* bytes that happen to agree
Copied(e) == e.left >= 12
SharedEvent(e) == e.out = DHFun(e.alg, e.sk, e.peer)
\* a context longer than 255 bytes is refused and nothing is written
CtxTooLong(e) == e.alg # "ed25519" /\ e.clen[1] > 255
UsedCtx(e) == IF e.alg = "ed25519" THEN <<>> ELSE e.ctx
SignEvent(e) ==
  IF CtxTooLong(e) THEN e.rc = ERROR_CONTEXT /\ \A n \in 1..Len(e.out) : e.out[n] = 195
  ELSE /\ e.rc = SIGNATURE_OK
       /\ e.out = IF e.k = "L" THEN LongSign(Is448(e.alg), VariantOf(e.alg), UsedCtx(e), e.sk, e.pk, e.msg)
                  ELSE IF Is448(e.alg) THEN Sign448(VariantOf(e.alg), UsedCtx(e), e.sk, e.pk, e.msg)
                  ELSE Sign25519(VariantOf(e.alg), UsedCtx(e), e.sk, e.pk, e.msg)
VerifyVerdict(e) ==
  IF e.k = "L" THEN LongVerify(Is448(e.alg), VariantOf(e.alg), UsedCtx(e), e.pk, e.msg, e.sig)
  ELSE IF Is448(e.alg) THEN Verify448(VariantOf(e.alg), UsedCtx(e), e.pk, e.msg, e.sig)
  ELSE Verify25519(VariantOf(e.alg), UsedCtx(e), e.pk, e.msg, e.sig)
KeyDecodes(e) == IF Is448(e.alg) THEN E448!DecodePt(e.pk) # <<>> ELSE E255!DecodePt(e.pk) # <<>>
VerifyEvent(e) ==
  IF CtxTooLong(e) THEN e.rc = ERROR_CONTEXT
  ELSE LET v == VerifyVerdict(e) IN
       CASE v = "accept" -> e.rc = VERIFICATION_OK
         [] v = "either" -> e.rc \in {VERIFICATION_OK, INVALID_SIGNATURE}
         [] v = "reject" -> IF KeyDecodes(e) THEN e.rc = INVALID_SIGNATURE
                            ELSE e.rc \in {INVALID_SIGNATURE, ERROR_PUBLICKEY}

(********************************** hashing ********************************)
\* one-shot value of an algorithm: 512/384, 128/256 (SHAKE), 3000 + bits
HashOf(alg, data, olen) ==
  CASE alg = 512 -> SHA512(data) [] alg = 384 -> SHA384(data)
    [] alg = 128 -> SHAKE128(data, olen) [] alg = 256 -> SHAKE256(data, olen)
    [] OTHER -> SHA3(alg - 3000, data)
\* output buffers are offered with olen bytes; fixed-length hashes must fit
Filled(e) == e.out
\* SHA-2 contexts start over when they are closed; the others have to be started again
Closed(h) == IF hctx[h].alg \in {512, 384} THEN [hctx EXCEPT ![h].data = <<>>]
             ELSE [n \in DOMAIN hctx \ {h} |-> hctx[n]]
HashEvent(e) ==
  CASE e.op = "hi" -> [ok |-> TRUE, hctx |-> (e.h :> [alg |-> e.alg, data |-> <<>>]) @@ hctx]
    [] e.op = "hu" -> [ok |-> TRUE, hctx |-> [hctx EXCEPT ![e.h].data = @ \o e.data]]
    [] e.op = "hc" -> [ok |-> TRUE, hctx |-> (e.h :> hctx[e.from]) @@ hctx]
    [] e.op = "hf" -> [ok |-> e.out = HashOf(hctx[e.h].alg, hctx[e.h].data, e.olen),
                       hctx |-> Closed(e.h)]
    [] e.op = "hb" -> LET c == hctx[e.h] IN \* the message ends with bits
                      [ok |-> e.out = (IF c.alg = 512 THEN SHA512Bits(c.data, e.ub, e.n) ELSE SHA384Bits(c.data, e.ub, e.n)),
                       hctx |-> Closed(e.h)]
    [] e.op = "hp" -> [ok |-> e.out = ShaCompressWords(e.val, e.msg), hctx |-> hctx]
    [] e.op = "hs" -> [ok |-> e.out = HashOf(e.alg, e.msg, e.olen), hctx |-> hctx]

(******************************* hash to curve *****************************)
Coords(b) == <<LeInt(SubSeq(b, 1, 32)), LeInt(SubSeq(b, 33, 64))>>
ModP(pt) == <<pt[1] % P25519, pt[2] % P25519>>
MappedTo(b, u) == \* b: projective X Y Z T
  LET X == LeInt(SubSeq(b, 1, 32))
      Y == LeInt(SubSeq(b, 33, 64))
      Z == LeInt(SubSeq(b, 65, 96))
      T == LeInt(SubSeq(b, 97, 128))
      q == MapToCurve(u)
  IN /\ Z % P25519 # 0
     /\ (X - q[1] * Z) % P25519 = 0
     /\ (Y - q[2] * Z) % P25519 = 0
     /\ (X * Y - Z * T) % P25519 = 0
CurveEvent(e) ==
  CASE e.op = "h2c" -> LET pt == ModP(Coords(e.out)) IN
                       /\ pt = HashToCurve(e.msg)
                       /\ E255!OnCurve(pt)
                       /\ InPrimeOrderSubgroup(pt)
    [] e.op = "h2f" -> /\ LeInt(e.out) % P25519 = HashToField(0, e.msg)
                       /\ LeInt(e.out2) % P25519 = HashToField(1, e.msg)
    [] e.op = "m2c" -> MappedTo(e.out, LeInt(e.u0)) /\ MappedTo(e.out2, LeInt(e.u1))
    [] e.op = "onc" -> /\ (e.rc # 0) <=> E255!OnCurve(ModP(Coords(e.p)))
                       /\ ModP(Coords(e.out)) = ModP(Coords(e.p))
    [] e.op = "aeq" -> /\ (e.rc # 0) <=> ModP(Coords(e.p)) = ModP(Coords(e.q))
                       /\ ModP(Coords(e.out)) = ModP(Coords(e.p))
                       /\ ModP(Coords(e.out2)) = ModP(Coords(e.q))
    [] e.op = "mr" -> \* reduction modulo the group order of a 64-byte integer
                      LeInt(SubSeq(e.out, 1, 32)) = LeInt(e.a) % L25519
    [] e.op = "h2" -> e.out = SHA512(e.m0) /\ e.out2 = SHA512(e.m1)

(****************************** long messages ******************************)
\* absent: no memory for it, or an internal function that is not there
LongEvent(e) ==
  IF e.st = "absent" THEN TRUE
  ELSE /\ Fine(e)
       /\ CASE e.op = "sg" -> SignEvent(e)
            [] e.op = "vf" -> VerifyEvent(e)
            [] e.op = "hs" -> e.out = LongHashOf(e.alg, e.msg, e.olen)
            [] e.op = "h2" -> e.out = LongSHA512(e.msg) /\ e.out2 = LongSHA512(e.msg2)
            [] e.op = "h2f" -> /\ LeInt(e.out) % P25519 = (LeInt(LongSHA512(After(<<0>>, e.msg))) % L25519) % P25519
                               /\ LeInt(e.out2) % P25519 = (LeInt(LongSHA512(After(<<1>>, e.msg))) % L25519) % P25519

(******************************* random source *****************************)
IsElement(e) == e.what \notin {"prgn", "x25519", "x25519_x64", "x448", "ed25519", "ed25519ctx",
                               "ed25519ph", "ed448", "ed448ph"}
RepOfRand(e) == CASE e.what \in {"f255.f", "f448.f"} -> "f" [] e.what \in {"f255.r", "f448.r"} -> "r"
                  [] e.what \in {"f255.t", "f448.t"} -> "t" [] OTHER -> "q"
RandEvent(e) ==
  LET vals == IF IsElement(e) THEN LaneInts(e.fd, RepOfRand(e), e.oc) ELSE <<>>
      p    == IF IsElement(e) THEN PrimeOf(e.fd) ELSE 3
  IN /\ e.clean = 1
     /\ CASE e.st = "ok" -> RandReturned(e, vals, p)
          [] e.st \in {"stops", "loops"} -> ~Transient(e.script)
          [] OTHER -> FALSE

IsHash(e) == e.op \in {"hi", "hu", "hf", "hb", "hc", "hs", "hp"}
Internal(e) == e.op \in {"mr", "h2f", "m2c", "h2"}
ByteEvent(e) ==
  IF e.st = "absent" /\ Internal(e) THEN TRUE
  ELSE /\ Fine(e)
       /\ CASE e.op = "kg" -> KeyGenEvent(e)
            [] e.op = "dh" -> SharedEvent(e)
            [] e.op = "kgl" -> KeyGenEvent(e) /\ ~Copied(e)
            [] e.op = "dhl" -> SharedEvent(e) /\ ~Copied(e)
            [] e.op = "sg" -> SignEvent(e)
            [] e.op = "vf" -> VerifyEvent(e)
            [] OTHER -> CurveEvent(e)

(********************************* behaviour *******************************)
Report(tag, e) == PrintT(<<tag, e.id>>)
Stay == regs' = regs /\ hctx' = hctx /\ heap' = heap
Consume(e) ==
  CASE e.k = "R" -> regs' = <<>> /\ hctx' = <<>> /\ heap' = NoObjects
    [] e.k = "F" -> LET r == FieldEvent(e) IN
         /\ IF ~r.pre THEN Report("OUTSIDE", e) ELSE IF r.ok THEN TRUE ELSE Report("REJECT", e)
         /\ regs' = r.regs /\ hctx' = hctx /\ heap' = heap
    [] e.k = "B" /\ IsHash(e) -> LET r == HashEvent(e) IN
         /\ IF r.ok /\ Fine(e) THEN TRUE ELSE Report("REJECT", e)
         /\ hctx' = r.hctx /\ regs' = regs /\ heap' = heap
    [] e.k = "B" -> (IF ByteEvent(e) THEN TRUE ELSE Report("REJECT", e)) /\ Stay
    [] e.k = "P" -> LET r == PointEvent(e) IN
         /\ IF ~r.pre THEN Report("OUTSIDE", e) ELSE IF r.ok /\ Fine(e) THEN TRUE ELSE Report("REJECT", e)
         /\ Stay
    [] e.k = "O" -> LET r == ObjectEvent(e, heap) IN
         /\ IF Fine(e) /\ r.ok THEN TRUE ELSE Report("REJECT", e)
         /\ heap' = r.next /\ regs' = regs /\ hctx' = hctx
    [] e.k = "L" -> (IF LongEvent(e) THEN TRUE ELSE Report("REJECT", e)) /\ Stay
    [] e.k = "M" -> LET r == ScalarEvent(e) IN
         /\ IF ~r.pre THEN Report("OUTSIDE", e) ELSE IF Fine(e) /\ r.ok THEN TRUE ELSE Report("REJECT", e)
         /\ Stay
    [] e.k = "K" -> (IF Fine(e) /\ CapabilityEvent(e) THEN TRUE ELSE Report("REJECT", e)) /\ Stay
    [] e.k = "Q" -> (IF RandEvent(e) THEN TRUE ELSE Report("REJECT", e)) /\ Stay

TraceInit == /\ pos \in {n \in 1..LogLen : Log[n].k = "R"}
             /\ fresh = TRUE /\ regs = <<>> /\ hctx = <<>> /\ heap = NoObjects
TraceNext == /\ pos <= LogLen
             /\ fresh \/ Log[pos].k # "R"
             /\ Consume(Log[pos])
             /\ pos' = pos + 1 /\ fresh' = FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
