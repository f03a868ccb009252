------------------------------ MODULE Metainfo ------------------------------
(* What loading the text of a torrent file must give (BEP 3). The operator
   Meaning interprets a text; its field class says whether loading must succeed
   ("must"), may succeed ("may") or must fail ("no"). *)
EXTENDS Bencode, Paths

kAnnounce == <<97,110,110,111,117,110,99,101>>
kInfo == <<105,110,102,111>>
kName == <<110,97,109,101>>
kPieceLength == <<112,105,101,99,101,32,108,101,110,103,116,104>>
kPieces == <<112,105,101,99,101,115>>
kLength == <<108,101,110,103,116,104>>
kFiles == <<102,105,108,101,115>>
kPath == <<112,97,116,104>>

Is(kv, k, t) == HasKey(kv, k) /\ Lookup(kv, k).t = t

Positive(i) == ~i.neg /\ i.d # <<0>>
NonNeg(i) == ~i.neg

(* One element of info.files *)
FileOK(f) == /\ f.t = "d"
             /\ Is(f.kv, kLength, "i") /\ NonNeg(Lookup(f.kv, kLength))
             /\ Is(f.kv, kPath, "l")
             /\ LET p == Lookup(f.kv, kPath).v
                IN p # <<>> /\ \A i \in 1..Len(p) : p[i].t = "s"

FileComps(f) == LET p == Lookup(f.kv, kPath).v IN [i \in 1..Len(p) |-> p[i].b]

(* The number of pieces n must satisfy (n-1) * plen < total <= n * plen. *)
CountOK(n, plen, total) ==
  IF total = <<0>> THEN n = 0
  ELSE n >= 1 /\ BigLess(BigMul(plen, n - 1), total) /\ BigLeq(total, BigMul(plen, n))

No == [class |-> "no"]

(* files: a sequence of [comps, len]; the first component of a multi-file
   torrent's paths is its name. *)
Accepted(top, info, files, single, canon) ==
  LET name == Lookup(info, kName).b
      plen == Lookup(info, kPieceLength)
      hashes == Lookup(info, kPieces).b
      total == BigSum([i \in 1..Len(files) |-> files[i].len])
      n == Len(hashes) \div 20
      ordinary == \A i \in 1..Len(files) : \A j \in 1..Len(files[i].comps) : Ordinary(files[i].comps[j])
      distinct == \A i, j \in 1..Len(files) : i # j => files[i].comps # files[j].comps
  IN IF Len(hashes) % 20 # 0 \/ ~CountOK(n, plen.d, total) \/ ~BigLeq(total, MaxInt64) THEN No
     ELSE [class |-> IF canon /\ ordinary /\ distinct /\ files # <<>> THEN "must" ELSE "may",
           ordinary |-> ordinary,
           announce |-> Lookup(top, kAnnounce).b, name |-> name, plen |-> plen.d,
           hashes |-> hashes, n |-> n, total |-> total, files |-> files, single |-> single]

Interpret(v, canon) ==
  IF v.t # "d" THEN No
  ELSE IF ~Is(v.kv, kAnnounce, "s") \/ ~Is(v.kv, kInfo, "d") THEN No
  ELSE LET info == Lookup(v.kv, kInfo).kv
       IN IF ~Is(info, kName, "s") \/ ~Is(info, kPieceLength, "i") \/ ~Is(info, kPieces, "s") THEN No
          ELSE IF ~Positive(Lookup(info, kPieceLength)) THEN No
          ELSE IF HasKey(info, kLength) /\ HasKey(info, kFiles)
               THEN [class |-> "ambiguous"]
          ELSE IF HasKey(info, kLength)
               THEN LET l == Lookup(info, kLength)
                    IN IF l.t # "i" \/ l.neg THEN No
                       ELSE Accepted(v.kv, info,
                              << [comps |-> <<Lookup(info, kName).b>>, tor |-> Lookup(info, kName).b, len |-> l.d] >>,
                              TRUE, canon)
          ELSE IF ~Is(info, kFiles, "l") THEN No
          ELSE LET fs == Lookup(info, kFiles).v
               IN IF \E i \in 1..Len(fs) : ~FileOK(fs[i]) THEN No
                  ELSE Accepted(v.kv, info,
                         [i \in 1..Len(fs) |-> [comps |-> <<Lookup(info, kName).b>> \o FileComps(fs[i]),
                                                tor |-> Join(FileComps(fs[i])),
                                                len |-> Lookup(fs[i].kv, kLength).d]],
                         FALSE, canon)

Meaning(text) ==
  LET r == Parse(text)
  IN IF ~r.ok THEN No
     ELSE IF r.dup THEN [class |-> "ambiguous"]
     ELSE Interpret(r.v, r.canon /\ r.p = Len(text) + 1)

(* Where the value of the top-level key info stands in the text. *)
RECURSIVE SpanFrom(_, _, _)
SpanFrom(s, p, best) ==
  IF p > Len(s) THEN best
  ELSE IF s[p] = cE THEN best
  ELSE LET k == ParseStr(s, p)
       IN IF ~k.ok THEN best
          ELSE LET r == ParseVal(s, k.p)
               IN IF ~r.ok THEN best
                  ELSE SpanFrom(s, r.p, IF k.v.b = kInfo THEN best \cup {<<k.p, r.p - 1>>} ELSE best)
InfoSpans(s) == SpanFrom(s, 2, {})

Num(b) == [neg |-> FALSE, d |-> b]

(***************************************************************************)
(* Acceptance of what a loader reports, by property                        *)
(***************************************************************************)
(* C03: if it loads, the infohash is that of the bytes of info. *)
InfohashOK(text, out) ==
  out.ok => /\ out.hashlen = 20
            /\ \E i \in 1..Len(out.spans) : out.spans[i] \in InfoSpans(text)

(* C04: refusal of what is malformed, exact reports of what is not. *)
ReportsOK(m, out) ==
  /\ out.announce = m.announce /\ out.name = m.name /\ out.plen = Num(m.plen)
  /\ out.length = Num(m.total) /\ out.hashes = m.hashes /\ out.npieces = m.n
  /\ Len(out.files) = Len(m.files)
  /\ \A i \in 1..Len(m.files) : out.files[i].len = Num(m.files[i].len) /\ out.files[i].tor = m.files[i].tor
AdmissionOK(text, out) ==
  LET m == Meaning(text)
  IN CASE m.class = "no" -> ~out.ok
       [] m.class = "must" -> out.ok /\ ReportsOK(m, out)
       [] m.class = "may" -> out.ok => ReportsOK(m, out)
       [] OTHER -> TRUE

(* C05: all local paths inside the working directory, the ordinary ones exact. *)
ContainmentOK(text, wd, cwd, out) ==
  out.ok =>
    LET dir == Resolve(cwd, wd)
        m == Meaning(text)
    IN /\ \A i \in 1..Len(out.files) : StrictlyInside(dir, Resolve(cwd, out.files[i].local))
       /\ m.class \in {"must", "may"} /\ m.ordinary =>
            /\ Len(out.files) = Len(m.files)
            /\ \A i \in 1..Len(m.files) : Resolve(cwd, out.files[i].local) = dir \o m.files[i].comps
(* ... and ordinary names are not refused *)
OrdinaryLoads(text, out) == Meaning(text).class = "must" => out.ok
=============================================================================
