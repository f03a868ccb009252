------------------------------- MODULE Layout -------------------------------
(* The partition of a torrent's payload into pieces. Sizes and offsets are
   pairs <<hi, lo>> standing for hi * 2^20 + lo, so that payloads larger than
   the integers of TLC can be judged. A file list is a sequence of lengths. *)
EXTENDS Integers, Sequences

Base == 1048576
P(n) == <<n \div Base, n % Base>>
Zero == <<0, 0>>
Norm2(h, l) == <<h + (l \div Base), l % Base>>
Add(a, b) == Norm2(a[1] + b[1], a[2] + b[2])
Sub(a, b) == Norm2(a[1] - b[1], a[2] - b[2])
Times(a, n) == Norm2(a[1] * n, a[2] * n)
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Le(a, b) == a = b \/ Lt(a, b)
Min2(a, b) == IF Lt(a, b) THEN a ELSE b
Max2(a, b) == IF Lt(a, b) THEN b ELSE a

RECURSIVE StartOf(_, _)
StartOf(lens, k) == IF k = 1 THEN Zero ELSE Add(StartOf(lens, k - 1), lens[k - 1])
TotalOf(lens) == StartOf(lens, Len(lens) + 1)

(* n is the number of pieces of a payload *)
IsCount(n, plen, total) == /\ Lt(Times(plen, n - 1), total) \/ (n = 0 /\ total = Zero)
                           /\ Le(total, Times(plen, n))

(* Piece i, from 0, is the half open interval *)
PieceFrom(plen, i) == Times(plen, i)
PieceTo(plen, total, i) == Min2(Times(plen, i + 1), total)

(* Its segments: where it lies in which files, in order, without empty ones. *)
RECURSIVE SegsFrom(_, _, _, _)
SegsFrom(lens, a, b, k) ==
  IF k > Len(lens) THEN <<>>
  ELSE LET s == StartOf(lens, k)
           e == Add(s, lens[k])
           x == Max2(a, s)
           y == Min2(b, e)
           rest == SegsFrom(lens, a, b, k + 1)
       IN IF Lt(x, y) THEN << [f |-> k, seek |-> Sub(x, s), n |-> Sub(y, x)] >> \o rest ELSE rest
Segs(lens, plen, i) == SegsFrom(lens, PieceFrom(plen, i), PieceTo(plen, TotalOf(lens), i), 1)

RECURSIVE NonEmptySegs(_)
NonEmptySegs(s) == IF s = <<>> THEN <<>>
                   ELSE (IF Head(s).n = Zero THEN <<>> ELSE <<Head(s)>>) \o NonEmptySegs(Tail(s))
RECURSIVE OnlyNonEmpty(_, _)
OnlyNonEmpty(fs, lens) == IF fs = <<>> THEN <<>>
                          ELSE (IF Head(fs) \in 1..Len(lens) /\ lens[Head(fs)] = Zero THEN <<>> ELSE <<Head(fs)>>)
                               \o OnlyNonEmpty(Tail(fs), lens)
FilesOf(segs) == [j \in 1..Len(segs) |-> segs[j].f]

(***************************************************************************)
(* Acceptance of a reported layout                                         *)
(***************************************************************************)
PosOK(plen, at, piece, off) == Le(Times(plen, piece), at) /\ Lt(at, Times(plen, piece + 1)) /\ off = Sub(at, Times(plen, piece))

(* All but the pieces *)
FrameOK(lens, plen, n, out) ==
  LET total == TotalOf(lens)
  IN /\ out.ok /\ out.np = n /\ out.length = total /\ out.plen = plen
     /\ n > 0 => out.last = Sub(total, Times(plen, n - 1))
     /\ \A i \in 1..Len(out.refused) : out.refused[i]
     /\ Len(out.files) = Len(lens)
     /\ \A k \in 1..Len(lens) :
          /\ out.files[k].f = k /\ out.files[k].len = lens[k]
          /\ lens[k] # Zero => /\ PosOK(plen, StartOf(lens, k), out.files[k].sp, out.files[k].so)
                               /\ PosOK(plen, Sub(StartOf(lens, k + 1), P(1)), out.files[k].ep, out.files[k].eo)
LayoutOK(lens, plen, n, out) ==
     /\ FrameOK(lens, plen, n, out)
     /\ Len(out.pieces) = n
     /\ \A i \in 1..n : NonEmptySegs(out.pieces[i]) = Segs(lens, plen, i - 1)
     /\ out.hashes = [i \in 1..n |-> i - 1]
     /\ Len(out.get) = n + 3
     /\ \A j \in 1..(n + 3) :
          OnlyNonEmpty(out.get[j], lens) = IF j \in 2..(n + 1) THEN FilesOf(Segs(lens, plen, j - 2)) ELSE <<>>
(* A layout of which only the pieces at, a sequence, were asked for *)
ProbeOK(lens, plen, n, at, out) ==
     /\ FrameOK(lens, plen, n, out)
     /\ out.hashes = at
     /\ Len(out.pieces) = Len(at) /\ Len(out.get) = Len(at)
     /\ \A i \in 1..Len(at) : LET s == Segs(lens, plen, at[i])
                             IN NonEmptySegs(out.pieces[i]) = s /\ OnlyNonEmpty(out.get[i], lens) = FilesOf(s)
=============================================================================
