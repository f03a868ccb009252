----------------------------- MODULE MMetainfo -----------------------------
(* The universe of small torrent files made by choosing, for each key, to give
   it properly, to leave it out, to give it another type or a bad value. TLC
   checks that Metainfo says of each what the choices say, and writes the texts
   for the real loader to be tried on. *)
EXTENDS Metainfo, FiniteSets, SequencesExt, Json, IOUtils, TLC

S(b) == [t |-> "s", b |-> b]
I(n) == [t |-> "i", neg |-> n < 0, d |-> NatDigits(IF n < 0 THEN 0 - n ELSE n)]
L(s) == [t |-> "l", v |-> s]
KV(k, v) == [k |-> k, v |-> v]
DV(kv) == [t |-> "d", kv |-> kv]
A == <<97>>
Bz == <<98>>
File(n, p) == DV(<<KV(kLength, I(n)), KV(kPath, L(p))>>)

Announces == {"ok", "absent", "int", "empty"}
Infos == {"ok", "absent", "list"}
Names == {"ok", "absent", "int"}
Plens == {"ok", "absent", "zero", "neg", "str"}
Pieces == {"ok", "more", "less", "odd", "absent", "int"}
Singles == {"l3", "l4", "l0", "lneg", "lnone", "lstr"}
Multis == {"one", "two", "withempty", "notlist", "notdict", "nolen", "neglen", "nopath", "pathempty", "pathint", "pathstr"}
GoodModes == {"l3", "l4", "l0", "one", "two", "withempty"}

Total(m) == CASE m = "l3" -> 3 [] m = "l4" -> 4 [] m = "one" -> 2 [] m = "two" -> 5 [] m = "withempty" -> 1
              [] OTHER -> 0
ModeKV(m) ==
  CASE m = "l3" -> <<KV(kLength, I(3))>> [] m = "l4" -> <<KV(kLength, I(4))>> [] m = "l0" -> <<KV(kLength, I(0))>>
    [] m = "lneg" -> <<KV(kLength, I(0 - 4))>> [] m = "lnone" -> <<>> [] m = "lstr" -> <<KV(kLength, S(A))>>
    [] m = "one" -> <<KV(kFiles, L(<<File(2, <<S(A)>>)>>))>>
    [] m = "two" -> <<KV(kFiles, L(<<File(2, <<S(A), S(Bz)>>), File(3, <<S(Bz)>>)>>))>>
    [] m = "withempty" -> <<KV(kFiles, L(<<File(0, <<S(A)>>), File(1, <<S(Bz)>>)>>))>>
    [] m = "notlist" -> <<KV(kFiles, DV(<<>>))>>
    [] m = "notdict" -> <<KV(kFiles, L(<<L(<<>>)>>))>>
    [] m = "nolen" -> <<KV(kFiles, L(<<DV(<<KV(kPath, L(<<S(A)>>))>>)>>))>>
    [] m = "neglen" -> <<KV(kFiles, L(<<File(2, <<S(A)>>), File(0 - 2, <<S(Bz)>>)>>))>>
    [] m = "nopath" -> <<KV(kFiles, L(<<DV(<<KV(kLength, I(0))>>)>>))>>
    [] m = "pathempty" -> <<KV(kFiles, L(<<File(0, <<>>)>>))>>
    [] m = "pathint" -> <<KV(kFiles, L(<<File(0, <<I(1)>>)>>))>>
    [] m = "pathstr" -> <<KV(kFiles, L(<<DV(<<KV(kLength, I(0)), KV(kPath, S(A))>>)>>))>>
NP(m) == (Total(m) + 1) \div 2
Hashes(n) == [i \in 1..n |-> (i * 7) % 256]

Opt(c, k, v) == IF c = "absent" THEN <<>> ELSE <<KV(k, v)>>
InfoKV(c) ==
  Opt(c.name, kName, IF c.name = "int" THEN I(5) ELSE S(A))
  \o Opt(c.plen, kPieceLength, CASE c.plen = "zero" -> I(0) [] c.plen = "neg" -> I(0 - 2) [] c.plen = "str" -> S(A) [] OTHER -> I(2))
  \o Opt(c.pieces, kPieces, CASE c.pieces = "more" -> S(Hashes(20 * NP(c.mode) + 20))
                              [] c.pieces = "less" -> S(Hashes(IF NP(c.mode) = 0 THEN 1 ELSE 20 * NP(c.mode) - 20))
                              [] c.pieces = "odd" -> S(Hashes(20 * NP(c.mode) + 19))
                              [] c.pieces = "int" -> I(20) [] OTHER -> S(Hashes(20 * NP(c.mode))))
  \o ModeKV(c.mode)
Top(c) == DV(Opt(c.announce, kAnnounce, CASE c.announce = "int" -> I(1) [] c.announce = "empty" -> S(<<>>) [] OTHER -> S(A))
             \o Opt(c.info, kInfo, IF c.info = "list" THEN L(<<>>) ELSE DV(InfoKV(c))))
Text(c) == Enc(Norm(Top(c)))

Combos == [announce : Announces, info : Infos, name : Names, plen : Plens, pieces : Pieces, mode : Singles \cup Multis]
Kept == {c \in Combos : c.info # "ok" => c.name = "ok" /\ c.plen = "ok" /\ c.pieces = "ok"}

Proper(c) == /\ c.announce \in {"ok", "empty"} /\ c.info = "ok" /\ c.name = "ok" /\ c.plen = "ok"
             /\ c.pieces = "ok" /\ c.mode \in GoodModes

VARIABLE c
Init == c \in Kept
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Right == Meaning(Text(c)).class = IF Proper(c) THEN "must" ELSE "no"

(* Whatever components a path has, the lexical walk stays inside exactly when the
   walk as a whole ends below the directory. *)
Comps == {<<>>, Dot, DotDot, A, Bz}
PathLaws == \A n \in 0..4 : \A p \in [1..n -> Comps] :
  LET dir == <<A, Bz>>
      w == Walk(dir, p)
  IN /\ (\A i \in 1..n : p[i] \in {A, Bz}) => w = dir \o p
     /\ n > 0 => Resolve(<<cSlash>> \o Join(dir), Join(p)) = IF p[1] = <<>> /\ n > 1 THEN Walk(<<>>, p) ELSE w
     /\ Split(Join(p)) = (IF n = 0 THEN <<<<>>>> ELSE p)
ASSUME PathLaws
ASSUME IOEnv.OUT = "" \/ ndJsonSerialize(IOEnv.OUT, SetToSeq({[op |-> "load", in |-> Text(x)] : x \in Kept}))
=============================================================================
