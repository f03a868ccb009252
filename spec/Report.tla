------------------------------- MODULE Report -------------------------------
(* What the info command says about a torrent file: a text of lines that name
   its parts, with sizes in units of 1024 bytes. *)
EXTENDS Metainfo, FiniteSets, SequencesExt

cLF == 10
cSp == 32
Dec(d) == [i \in 1..Len(d) |-> d[i] + 48]

(***************************************************************************)
(* Sizes for people: a decimal number and a unit                           *)
(***************************************************************************)
Units == << <<66>>, <<75,105,66>>, <<77,105,66>>, <<71,105,66>>, <<84,105,66>>, <<80,105,66>>, <<69,105,66>> >>
RECURSIVE K(_, _)       \* d * 1024^k
K(d, k) == IF k = 0 THEN d ELSE K(BigMul(d, 1024), k - 1)
Pow10(d, f) == StripZeros(d \o [i \in 1..f |-> 0])
Diff(a, b) == IF BigLess(a, b) THEN BigSub(b, a) ELSE BigSub(a, b)

(* A text like 12.375 as the number 12375 and 3 decimals. *)
DecimalOK(t) == /\ t # <<>> /\ t[1] # cDot /\ t[Len(t)] # cDot
                /\ \A i \in 1..Len(t) : t[i] \in 48..57 \/ t[i] = cDot
                /\ Cardinality({i \in 1..Len(t) : t[i] = cDot}) <= 1
Decimals(t) == IF \E i \in 1..Len(t) : t[i] = cDot THEN Len(t) - (CHOOSE i \in 1..Len(t) : t[i] = cDot) ELSE 0
Figures(t) == LET s == SelectSeq(t, LAMBDA c : c # cDot) IN StripZeros([i \in 1..Len(s) |-> s[i] - 48])

(* t and the unit with index k say n bytes: exactly ("exact", but for what a
   64 bit floating point number cannot hold) or to two decimals. *)
Says(t, k, n, exact) ==
  /\ DecimalOK(t)
  /\ LET f == Decimals(t)
         d == Figures(t)
         a == K(d, k)
         b == Pow10(n, f)
     IN /\ k > 0 => BigLeq(Pow10(<<1>>, f), d)
        /\ BigLeq(d, Pow10(<<1,0,2,4>>, f))
        /\ IF exact THEN BigLeq(K(Diff(a, b), 4), b)
           ELSE f = 2 /\ BigLeq(BigMul(Diff(a, b), 2000), BigMul(K(<<1>>, k), 1001))
(* The text x is a number, sep, and a unit. *)
SaysSize(x, sep, n, exact) ==
  \E k \in 0..6 : LET u == sep \o Units[k + 1]
                  IN /\ Len(x) > Len(u) /\ SubSeq(x, Len(x) - Len(u) + 1, Len(x)) = u
                     /\ Says(SubSeq(x, 1, Len(x) - Len(u)), k, n, exact)

(***************************************************************************)
(* The text                                                                *)
(***************************************************************************)
Lines(s) ==
  LET nl == SetToSortSeq({i \in 1..Len(s) : s[i] = cLF}, <)
      at == <<0>> \o nl \o <<Len(s) + 1>>
  IN [k \in 1..(Len(at) - 1) |-> SubSeq(s, at[k] + 1, at[k + 1] - 1)]
LStrip(x) == LET p == {i \in 1..Len(x) : x[i] # cSp}
             IN IF p = {} THEN <<>> ELSE SubSeq(x, CHOOSE i \in p : \A j \in p : i <= j, Len(x))
StartsWith(x, p) == Len(x) >= Len(p) /\ SubSeq(x, 1, Len(p)) = p

lName == <<78,97,109,101,58,32,91>>
lAnnounce == <<65,110,110,111,117,110,99,101,58,32,91>>
lInfohash == <<73,110,102,111,104,97,115,104,58,32,91>>
lPieces == <<80,105,101,99,101,115,58,32,91>>
lLength == <<76,101,110,103,116,104,58,32,91>>
lFiles == <<70,105,108,101,115,58>>
sTimes == <<32,120,32>>
sColon == <<32,58,32>>
sBytes == <<32,98>>

(* What stands between the brackets of the lines with this label. *)
Told(ls, label) ==
  {SubSeq(LStrip(ls[k]), Len(label) + 1, Len(LStrip(ls[k])) - 1) :
     k \in {j \in 1..Len(ls) : StartsWith(LStrip(ls[j]), label) /\ LStrip(ls[j])[Len(LStrip(ls[j]))] = 93}}

SaysPieces(x, n, plen) ==
  LET h == Dec(NatDigits(n)) \o sTimes
  IN StartsWith(x, h) /\ SaysSize(SubSeq(x, Len(h) + 1, Len(x)), <<cSp>>, plen, TRUE)
SaysFile(x, f) ==
  LET y == LStrip(x)
      t == sColon \o f.tor
  IN /\ Len(y) > Len(t) /\ SubSeq(y, Len(y) - Len(t) + 1, Len(y)) = t
     /\ SaysSize(SubSeq(y, 1, Len(y) - Len(t)), <<>>, f.len, TRUE)

Tells(m, ls, hex) ==
  /\ m.name \in Told(ls, lName) /\ m.announce \in Told(ls, lAnnounce)
  /\ Told(ls, lInfohash) = {hex}
  /\ \E x \in Told(ls, lPieces) : SaysPieces(x, m.n, m.plen)
  /\ Dec(m.total) \o sBytes \in Told(ls, lLength)
  /\ \E x \in Told(ls, lLength) : SaysSize(x, <<cSp>>, m.total, FALSE)
  /\ Len(m.files) >= 2 =>
       \E k \in 1..Len(ls) :
         /\ ls[k] = lFiles /\ Len(ls) > k + Len(m.files)
         /\ \A i \in 1..Len(m.files) : SaysFile(ls[k + i], m.files[i])
         /\ LStrip(ls[k + Len(m.files) + 1]) = <<>>

(* out: ok (whether the command succeeded), text, hex (the infohash it says)
   and spans (where in the file bytes with that hash stand); before and after
   are the files around. *)
ReportOK(file, out) ==
  /\ out.before = out.after
  /\ LET m == Meaning(file)
         shown == LET ls == Lines(out.text)
                  IN Tells(m, ls, out.hex) /\ \E i \in 1..Len(out.spans) : out.spans[i] \in InfoSpans(file)
     IN CASE m.class = "no" -> ~out.ok
          [] m.class = "must" -> out.ok /\ shown
          [] m.class = "may" -> out.ok => shown
          [] OTHER -> TRUE
=============================================================================
