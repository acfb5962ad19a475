-------------------------------- MODULE EdDSA -------------------------------
(* Key generation, signing and verification of RFC 8032 for Ed25519 (pure,   *)
(* ctx, ph) and Ed448 (pure with context, ph).                               *)
EXTENDS Curves, LongHash

\* result codes of the interface
KEYGEN_OK == 0
SIGNATURE_OK == 1
VERIFICATION_OK == 2
INVALID_SIGNATURE == 3
ERROR_PUBLICKEY == 4
ERROR_CONTEXT == 5

\* domain separation prefixes; variant is "pure", "ctx" or "ph"
Dom2(ph, ctx) == Ascii("SigEd25519 no Ed25519 collisions") \o <<ph, Len(ctx)>> \o ctx
Dom4(ph, ctx) == Ascii("SigEd448") \o <<ph, Len(ctx)>> \o ctx

\* --- Ed25519 ---
Prefix25519(variant, ctx) ==
  CASE variant = "pure" -> <<>>
    [] variant = "ctx"  -> Dom2(0, ctx)
    [] variant = "ph"   -> Dom2(1, ctx)
PreHash25519(variant, m) == IF variant = "ph" THEN SHA512(m) ELSE m
Secret25519(sk) ==
  LET h == SHA512(sk) IN [s |-> ClampX25519(SubSeq(h, 1, 32)), prefix |-> SubSeq(h, 33, 64)]
BaseMul25519(k) == E255!EncodePt(E255!AMul(k, B25519), 32)
PublicKey25519(sk) == BaseMul25519(Secret25519(sk).s)
\* signing as done by the interface: the public key is an argument; H(pre) is
\* the digest of pre followed by the message
SignH25519(variant, ctx, sk, pk, H(_)) ==
  LET x  == Secret25519(sk)
      d  == Prefix25519(variant, ctx)
      r  == LeInt(H(d \o x.prefix)) % L25519
      R  == BaseMul25519(r)
      k  == LeInt(H(d \o R \o pk)) % L25519
      S  == (r + k * x.s) % L25519
  IN R \o Enc(S, 32)
Sign25519(variant, ctx, sk, pk, m) ==
  LET pm == PreHash25519(variant, m)
      H(pre) == SHA512(pre \o pm)
  IN SignH25519(variant, ctx, sk, pk, H)
\* the verification verdict: "accept", "reject", or "either" when only the
\* cofactored equation of RFC 8032 holds (both answers conform)
VerifyH25519(variant, ctx, pk, sig, H(_)) ==
  LET R  == SubSeq(sig, 1, 32)
      S  == LeInt(SubSeq(sig, 33, 64))
      A  == E255!DecodePt(pk)
      Rp == E255!DecodePt(R)
      k  == LeInt(H(Prefix25519(variant, ctx) \o R \o pk)) % L25519
      Q  == E255!PAdd(E255!PMul(S, E255!Proj(B25519)), E255!PMul(k, E255!PNeg(E255!Proj(A))))
      D  == E255!PAdd(Q, E255!PNeg(E255!Proj(Rp)))
  IN IF S >= L25519 \/ A = <<>> \/ Rp = <<>> THEN "reject"
     ELSE IF E255!PEq(D, E255!PIdent) THEN "accept"
     ELSE IF E255!PEq(E255!PMul(8, D), E255!PIdent) THEN "either"
     ELSE "reject"
Verify25519(variant, ctx, pk, m, sig) ==
  LET pm == PreHash25519(variant, m)
      H(pre) == SHA512(pre \o pm)
  IN VerifyH25519(variant, ctx, pk, sig, H)

\* --- Ed448 ---
PreHash448(variant, m) == IF variant = "ph" THEN SHAKE256(m, 64) ELSE m
Prefix448(variant, ctx) == Dom4(IF variant = "ph" THEN 1 ELSE 0, ctx)
Secret448(sk) ==
  LET h == SHAKE256(sk, 114) IN [s |-> ClampX448(SubSeq(h, 1, 56)), prefix |-> SubSeq(h, 58, 114)]
BaseMul448(k) == E448!EncodePt(E448!AMul(k, B448), 57)
PublicKey448(sk) == BaseMul448(Secret448(sk).s)
SignH448(variant, ctx, sk, pk, H(_)) ==
  LET x  == Secret448(sk)
      d  == Prefix448(variant, ctx)
      r  == LeInt(H(d \o x.prefix)) % L448
      R  == BaseMul448(r)
      k  == LeInt(H(d \o R \o pk)) % L448
      S  == (r + k * x.s) % L448
  IN R \o Enc(S, 57)
Sign448(variant, ctx, sk, pk, m) ==
  LET pm == PreHash448(variant, m)
      H(pre) == SHAKE256(pre \o pm, 114)
  IN SignH448(variant, ctx, sk, pk, H)
VerifyH448(variant, ctx, pk, sig, H(_)) ==
  LET R  == SubSeq(sig, 1, 57)
      S  == LeInt(SubSeq(sig, 58, 114))
      A  == E448!DecodePt(pk)
      Rp == E448!DecodePt(R)
      k  == LeInt(H(Prefix448(variant, ctx) \o R \o pk)) % L448
      Q  == E448!PAdd(E448!PMul(S, E448!Proj(B448)), E448!PMul(k, E448!PNeg(E448!Proj(A))))
      D  == E448!PAdd(Q, E448!PNeg(E448!Proj(Rp)))
  IN IF S >= L448 \/ A = <<>> \/ Rp = <<>> THEN "reject"
     ELSE IF E448!PEq(D, E448!PIdent) THEN "accept"
     ELSE IF E448!PEq(E448!PMul(4, D), E448!PIdent) THEN "either"
     ELSE "reject"
Verify448(variant, ctx, pk, m, sig) ==
  LET pm == PreHash448(variant, m)
      H(pre) == SHAKE256(pre \o pm, 114)
  IN VerifyH448(variant, ctx, pk, sig, H)

\* --- messages given as [pre, n, post] ---
LongH25519(variant, m, pre) ==
  IF variant = "ph" THEN SHA512(pre \o LongSHA512(m)) ELSE LongSHA512(After(pre, m))
LongH448(variant, m, pre) ==
  IF variant = "ph" THEN SHAKE256(pre \o LongHashOf(256, m, 64), 114) ELSE LongHashOf(256, After(pre, m), 114)
LongSign(is448, variant, ctx, sk, pk, m) ==
  LET Ha(pre) == LongH25519(variant, m, pre)
      Hb(pre) == LongH448(variant, m, pre)
  IN IF is448 THEN SignH448(variant, ctx, sk, pk, Hb) ELSE SignH25519(variant, ctx, sk, pk, Ha)
LongVerify(is448, variant, ctx, pk, m, sig) ==
  LET Ha(pre) == LongH25519(variant, m, pre)
      Hb(pre) == LongH448(variant, m, pre)
  IN IF is448 THEN VerifyH448(variant, ctx, pk, sig, Hb) ELSE VerifyH25519(variant, ctx, pk, sig, Ha)
=============================================================================
