------------------------------ MODULE SelfTest ------------------------------
(* The specification against published known answers, and the native         *)
(* evaluation of BigMath against its TLA+ definitions (BigMathDef is a copy  *)
(* of the text of BigMath under a name that has no native evaluation).       *)
(* One state per item; TLC visits all of them.                               *)
EXTENDS EdDSA, HashToCurve, TLC
Def == INSTANCE BigMathDef

\* ---------------------------------------------------------------- answers
Rep(b, n) == [i \in 1..n |-> b]
K1 == HexBytes("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4")
U1 == HexBytes("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c")
K2 == HexBytes("4b66e9d4d1b4673c5ad22691957d6af5c11b6421e0ea01d42ca4169e7918ba0d")
U2 == HexBytes("e5210f12786811d3f4b7959d0538ae2c31dbe7106fc03c3efc4cd549c715a493")
K3 == HexBytes("3d262fddf9ec8e88495266fea19a34d28882acef045104d0d1aae121700a779c984c24f8cdd78fbff44943eba368f54b29259a4f1c600ad3")
U3 == HexBytes("06fce640fa3487bfda5f6cf2d5263f8aad88334cbd07437f020f08f9814dc031ddbdc38c19c6da2583fa5429db94ada18aa7a7fb4ef8a086")
SkA == HexBytes("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60")
SkB == HexBytes("4ccd089b28ff96da9db6c346ec114e0f5b8a319f35aba624da8cf6ed4fb8a6fb")
SkC == HexBytes("833fe62409237b9d62ec77587520911e9a759cec1d19755b7da901b96dca3d42")
Sk448 == HexBytes("6c82a562cb808d10d632be89c8513ebf6c929f34ddfa8c9f63c9960ef6e348a3528c8a3fcc2f044e39a3fc5b94492f8f032e7549a20098f95b")
Abc == <<97, 98, 99>>
Million == Rep(97, 200)
Answers == <<
  \* RFC 7748
  [name |-> "X25519 1", got |-> X25519(K1, U1), want |-> HexBytes("c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552")],
  [name |-> "X25519 2", got |-> X25519(K2, U2), want |-> HexBytes("95cbde9476e8907d7aade45cb4b873f88b595a68799fa152e6f8f7647aac7957")],
  [name |-> "X448 1", got |-> X448(K3, U3), want |-> HexBytes("ce3e4ff95a60dc6697da1db1d85e6afbdf79b50a2412d7546d5f239fe14fbaadeb445fc66a01b0779d98223961111e21766282f73dd96b6f")],
  [name |-> "X25519 iterated", got |-> X25519(Enc(9, 32), Enc(9, 32)), want |-> HexBytes("422c8e7a6227d7bca1350b3e2bb7279f7897b87bb6854b783c60e80311ae3079")],
  [name |-> "X448 iterated", got |-> X448(Enc(5, 56), Enc(5, 56)), want |-> HexBytes("3f482c8a9f19b01e6c46ee9711d9dc14fd4bf67af30765c2ae2b846a4d23a8cd0db897086239492caf350b51f833868b9bc2b3bca9cf4113")],
  \* RFC 8032
  [name |-> "Ed25519 public key", got |-> PublicKey25519(SkA), want |-> HexBytes("d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a")],
  [name |-> "Ed25519 empty message", got |-> Sign25519("pure", <<>>, SkA, PublicKey25519(SkA), <<>>),
   want |-> HexBytes("e5564300c360ac729086e2cc806e828a84877f1eb8e5d974d873e065224901555fb8821590a33bacc61e39701cf9b46bd25bf5f0595bbe24655141438e7a100b")],
  [name |-> "Ed25519 72", got |-> Sign25519("pure", <<>>, SkB, PublicKey25519(SkB), <<114>>),
   want |-> HexBytes("92a009a9f0d4cab8720e820b5f642540a2b27b5416503f8fb3762223ebdb69da085ac1e43e15996e458f3613d0f11d8c387b2eaeb4302aeeb00d291612bb0c00")],
  [name |-> "Ed25519ph abc", got |-> Sign25519("ph", <<>>, SkC, PublicKey25519(SkC), Abc),
   want |-> HexBytes("98a70222f0b8121aa9d30f813d683f809e462b469c7ff87639499bb94e6dae4131f85042463c2a355a2003d062adf5aaa10b8c61e636062aaad11c2a26083406")],
  [name |-> "Ed448 public key", got |-> PublicKey448(Sk448), want |-> HexBytes("5fd7449b59b461fd2ce787ec616ad46a1da1342485a70e1f8a0ea75d80e96778edf124769b46c7061bd6783df1e50f6cd1fa1abeafe8256180")],
  [name |-> "Ed448 empty message", got |-> Sign448("pure", <<>>, Sk448, PublicKey448(Sk448), <<>>),
   want |-> HexBytes("533a37f6bbe457251f023c0d88f976ae2dfb504a843e34d2074fd823d41a591f2b233f034f628281f2fd7a22ddd47d7828c59bd0a21bfd3980ff0d2028d4b18a9df63e006c5d1c2d345b925d8dc00b4104852db99ac5c7cdda8530a113a0f4dbb61149f05a7363268c71d95808ff2e652600")],
  \* FIPS 180-4, FIPS 202
  [name |-> "SHA-512 abc", got |-> SHA512(Abc), want |-> HexBytes("ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f")],
  [name |-> "SHA-512 5 bits", got |-> SHA512Bits(<<>>, 176, 5), want |-> HexBytes("d4ee29a9e90985446b913cf1d1376c836f4be2c1cf3cada0720a6bf4857d886a7ecb3c4e4c0fa8c7f95214e41dc1b0d21b22a84cc03bf8ce4845f34dd5bdbad4")],
  [name |-> "SHA-384 abc", got |-> SHA384(Abc), want |-> HexBytes("cb00753f45a35e8bb5a03d699ac65007272c32ab0eded1631a8b605a43ff5bed8086072ba1e7cc2358baeca134c825a7")],
  [name |-> "SHA3-256 empty", got |-> SHA3(256, <<>>), want |-> HexBytes("a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a")],
  [name |-> "SHA3-512 abc", got |-> SHA3(512, Abc), want |-> HexBytes("b751850b1a57168a5693cd924b6b096e08f621827444f70d884f5d0240d2712e10e116e9192af3c91a7ec57647e3934057340b4cf408d5a56592f8274eec53f0")],
  [name |-> "SHAKE128 empty", got |-> SHAKE128(<<>>, 32), want |-> HexBytes("7f9c2ba4e88f827d616045507605853ed73b8093f6efbc88eb1a6eacfa66ef26")],
  [name |-> "SHAKE256 empty", got |-> SHAKE256(<<>>, 64), want |-> HexBytes("46b9dd2b0ba88d13233b3feb743eeb243fcd52ea62b81b82b50c27646ed5762fd75dc4ddd8c0f200cb05019d67b592f6fc821c49479ab48640292eacb3b7c4be")]
>>

\* the curves themselves: base points on the curve and of the stated order,
\* the maps between the models agree
Truths == <<
  [name |-> "B25519 on curve", holds |-> E255!OnCurve(B25519)],
  [name |-> "B448 on curve", holds |-> E448!OnCurve(B448)],
  [name |-> "order of B25519", holds |-> E255!PEq(E255!PMul(L25519, E255!Proj(B25519)), E255!PIdent)],
  [name |-> "order of B448", holds |-> E448!PEq(E448!PMul(L448, E448!Proj(B448)), E448!PIdent)],
  [name |-> "not a square 25519", holds |-> ~F255!FIsSqr(D25519) /\ F255!FIsSqr(P25519 - 1)],
  [name |-> "not a square 448", holds |-> ~F448!FIsSqr(D448)],
  [name |-> "prime field 25519", holds |-> \A a \in {2, 3, 5, 7} : PowMod(a, P25519 - 1, P25519) = 1],
  [name |-> "prime field 448", holds |-> \A a \in {2, 3, 5, 7} : PowMod(a, P448 - 1, P448) = 1],
  [name |-> "u of B25519", holds |-> F255!FDiv(1 + B25519[2], 1 - B25519[2]) = 9],
  [name |-> "u of B448", holds |-> F448!FDiv(F448!FSqr(B448[2]), F448!FSqr(B448[1])) = 5],
  \* x-only and complete arithmetic agree on a scalar
  [name |-> "models agree 25519", holds |-> \A k \in {1, 2, 3, 7, 8, 1000003, L25519 - 1} :
       LET q == E255!AMul(k, B25519) IN M255!Ladder(k, 9, 255) = F255!FDiv(1 + q[2], 1 - q[2])],
  [name |-> "models agree 448", holds |-> \A k \in {1, 2, 3, 7, 8, 1000003, L448 - 1} :
       LET q == E448!AMul(k, B448) IN M448!Ladder(k, 5, 448) = F448!FDiv(F448!FSqr(q[2]), F448!FSqr(q[1]))],
  [name |-> "projective = affine 25519", holds |-> \A a, b \in {1, 2, 5} :
       LET p == E255!AMul(a, B25519)
           q == E255!AMul(b, B25519)
       IN E255!AAdd(p, q) = E255!Aff(E255!PAdd(E255!Proj(p), E255!Proj(q))) /\ E255!AAdd(p, p) = E255!Aff(E255!PDbl(E255!Proj(p)))],
  [name |-> "projective = affine 448", holds |-> \A a, b \in {1, 2, 5} :
       LET p == E448!AMul(a, B448)
           q == E448!AMul(b, B448)
       IN E448!AAdd(p, q) = E448!Aff(E448!PAdd(E448!Proj(p), E448!Proj(q))) /\ E448!AAdd(p, p) = E448!Aff(E448!PDbl(E448!Proj(p)))],
  \* native runs of equal blocks, and messages given by their ends
  [name |-> "runs of SHA-512 blocks", holds |-> \A k \in 0..3 :
       LET blk == Tup([i \in 1..128 |-> (91 * i + k) % 256])
           Step(a, i) == ShaCompress(a, blk)
       IN ShaRun(ShaH512, blk, k) = FoldN(Step, ShaH512, k)],
  [name |-> "runs of Keccak blocks", holds |-> \A k \in 0..3, r \in {72, 104, 136, 144, 168} :
       LET blk == Tup([i \in 1..r |-> (91 * i + k) % 256])
           Step(a, i) == KAbsorb(a, blk)
       IN KRun(KZero, blk, k) = FoldN(Step, KZero, k)],
  [name |-> "long messages", holds |-> \A n \in {0, 71, 128, 129, 400}, pre \in {<<>>, Rep(9, 135)}, post \in {<<>>, Rep(3, 130)} :
       LET m == [pre |-> pre, n |-> n, post |-> post]
           x == pre \o Zeros(n) \o post
       IN /\ LongSHA512(m) = SHA512(x) /\ LongSHA384(m) = SHA384(x)
          /\ LongHashOf(128, m, 170) = SHAKE128(x, 170) /\ LongHashOf(256, m, 64) = SHAKE256(x, 64)
          /\ LongHashOf(3384, m, 48) = SHA3(384, x)],
  [name |-> "mapped points on curve", holds |-> \A u \in {0, 1, 2, 3, 4, P25519 - 1, 2^200 + 77} : E255!OnCurve(MapToCurve(u))],
  [name |-> "verification accepts what signing makes", holds |->
       \A v \in {"pure", "ctx", "ph"} : Verify25519(v, Abc, PublicKey25519(SkC), Abc, Sign25519(v, Abc, SkC, PublicKey25519(SkC), Abc)) = "accept"],
  [name |-> "verification accepts what signing makes 448", holds |->
       \A v \in {"pure", "ph"} : Verify448(v, Abc, PublicKey448(Sk448), Abc, Sign448(v, Abc, Sk448, PublicKey448(Sk448), Abc)) = "accept"]
>>

\* ------------------------------------------------- definitions = evaluation
Ints == {0, 1, 2, 18, 19, 255, 256, 65537, 2^63, 2^64 - 1, P25519, P448 - 3, 2^200 + 12345}
Words == {0, 1, 2^63, 2^64 - 1, Hex("0123456789abcdef"), Hex("f0f0f0f00f0f0f0f")}
Strs == {<<>>, <<0>>, <<255>>, <<1, 2, 3>>, [i \in 1..33 |-> (7 * i) % 256]}
Same(name, S, f(_), g(_)) == [name |-> name, holds |-> \A x \in S : f(x) = g(x)]
Defs ==
  LET pm(x) == PowMod(x[1], x[2], x[3])
      pmd(x) == Def!PowMod(x[1], x[2], x[3])
      bo(x) == BitOf(x[1], x[2])
      bod(x) == Def!BitOf(x[1], x[2])
      en(x) == Enc(x[1], x[2])
      end(x) == Def!Enc(x[1], x[2])
      eb(x) == EncBE(x[1], x[2])
      ebd(x) == Def!EncBE(x[1], x[2])
      xo(x) == Xor(x[1], x[2])
      xod(x) == Def!Xor(x[1], x[2])
      an(x) == And(x[1], x[2])
      and(x) == Def!And(x[1], x[2])
      rr(x) == RotR64(x[1], x[2])
      rrd(x) == Def!RotR64(x[1], x[2])
      rl(x) == RotL64(x[1], x[2])
      rld(x) == Def!RotL64(x[1], x[2])
      dt(x) == Dot(x, x)
      dtd(x) == Def!Dot(x, x)
      cat(acc, i) == (3 * acc + i) % 1000003
      fo(n) == FoldN(cat, 7, n)
      fod(n) == Def!FoldN(cat, 7, n)
      tp(n) == Tup([i \in 1..n |-> i * i])
      tpd(n) == Def!Tup([i \in 1..n |-> i * i])
  IN << Same("PowMod", Ints \X {0, 1, 2, 5, 2^64 - 1, P25519 - 2} \X {1, 2, 19, P25519, P448}, pm, pmd),
        Same("BitOf", Ints \X {0, 1, 5, 63, 64, 199, 254, 447}, bo, bod),
        Same("BitLen", Ints, BitLen, Def!BitLen),
        Same("LeInt", Strs, LeInt, Def!LeInt),
        Same("BeInt", Strs, BeInt, Def!BeInt),
        Same("Enc", Ints \X {1, 8, 32, 57}, en, end),
        Same("EncBE", Ints \X {1, 8, 32, 57}, eb, ebd),
        Same("Xor", Ints \X Ints, xo, xod),
        Same("And", Ints \X Ints, an, and),
        Same("Not64", Words, Not64, Def!Not64),
        Same("RotR64", Words \X {1, 7, 28, 32, 63}, rr, rrd),
        Same("RotL64", Words \X {0, 1, 7, 28, 32, 63}, rl, rld),
        Same("Dot", Strs, dt, dtd),
        Same("FoldN", {0, 1, 2, 24, 255}, fo, fod),
        Same("Tup", {0, 1, 2, 25}, tp, tpd) >>

VARIABLE item
Init == item \in ({"answer"} \X (1..Len(Answers))) \cup ({"truth"} \X (1..Len(Truths))) \cup ({"def"} \X (1..Len(Defs)))
Next == FALSE /\ item' = item
Spec == Init /\ [][Next]_item
Good == CASE item[1] = "answer" -> Answers[item[2]].got = Answers[item[2]].want
          [] item[1] = "truth" -> Truths[item[2]].holds
          [] item[1] = "def" -> Defs[item[2]].holds
=============================================================================
