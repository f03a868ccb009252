------------------------------ MODULE MSession ------------------------------
(* A client as it works: bytes come in segments of any size, whole frames are cut
   from what has come so far, and acted on one by one; an offence may or may not
   end the connection. TLC checks that what it does for the bytes that have come fits
   the specification, which knows no segments; and writes streams down for the real
   client. *)
EXTENDS Session, Json, IOUtils, TLC

G == [plen |-> 5, total |-> 13, held |-> <<0, 2>>, ih |-> [i \in 1..20 |-> i]]
B4(n) == Bytes4(n)
F(x) == B4(Len(x)) \o x
Top == <<255, 255, 255, 255>>
Req(i, b, n) == F(<<6>> \o i \o b \o n)
R(i, b, n) == Req(B4(i), B4(b), B4(n))
Sentinel == R(2, 0, 3)

Menu == <<
  Zero4, F(<<0>>), F(<<1>>), F(<<2>>), F(<<3>>),
  F(<<4>> \o B4(0)), F(<<4>> \o B4(2)), F(<<4>> \o B4(3)), F(<<4>> \o Top),
  F(<<5, 224>>), F(<<5, 160>>), F(<<5, 255>>), F(<<5, 224, 0>>), F(<<5>>),
  R(0, 0, 1), R(0, 2, 3), R(0, 0, 5), R(2, 1, 2), R(2, 2, 1), R(0, 4, 1),
  R(0, 0, 0), R(0, 5, 0), R(2, 3, 0),
  R(0, 4, 2), R(0, 5, 1), R(0, 0, 6), R(2, 0, 4), R(2, 2, 2), R(2, 0, 5), R(2, 3, 1), R(2, 4, 1),
  Req(B4(0), Top, B4(2)), Req(B4(0), B4(1), Top), Req(B4(0), Top, B4(1)), Req(B4(0), <<128,0,0,0>>, <<128,0,0,1>>), Req(B4(2), Top, Top),
  R(1, 0, 1), R(1, 0, 5), R(1, 4, 4), R(1, 0, 0),
  R(3, 0, 1), R(8, 0, 1), Req(<<128,0,0,0>>, B4(0), B4(1)), Req(Top, B4(0), B4(1)), Req(<<1,0,0,0>>, B4(0), B4(1)), Req(<<0,1,0,0>>, B4(0), B4(1)),
  F(<<7>> \o B4(1) \o B4(0) \o <<9,9,9,9,9>>), F(<<7>> \o B4(9) \o B4(0)), F(<<7>> \o B4(0) \o B4(0) \o Sentinel),
  F(<<8>> \o B4(0) \o B4(0) \o B4(1)), F(<<9, 26, 225>>), F(<<20, 0>> \o Sentinel), F(<<255>>), F(<<13, 0, 0, 0, 1>>), F(<<200>> \o Zero4),
  F(<<6>> \o B4(0) \o B4(0) \o <<0, 0, 1>>), F(<<6>> \o B4(0) \o B4(0) \o B4(1) \o <<0>>), F(<<4, 0, 0, 0>>), F(<<0, 0>>), F(<<7, 0, 0, 0, 0>>), F(<<6>>),
  <<0, 16, 0, 1, 20>>, <<1, 0, 0, 0, 20>>, <<128, 0, 0, 13, 6>>, <<255, 255, 255, 255, 6>>
>>

CONSTANTS Most,     \* messages before the last one
          Pick      \* of which kinds
Streams(n) == [1..n -> Pick]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Menu[Head(s)] \o Cat(Tail(s))

VARIABLES s,        \* which messages
          stream,   \* their bytes
          at,       \* how many have come
          pending,  \* of which these are not whole frames yet
          seen,     \* how many frames were acted on
          sent,     \* pieces sent
          gone
vars == <<s, stream, at, pending, seen, sent, gone>>
Init == /\ \E n \in 0..Most : s \in Streams(n)
        /\ stream = Cat(s) \o Sentinel
        /\ at = 0 /\ pending = <<>> /\ seen = 0 /\ sent = <<>> /\ gone = FALSE
Segments == {1, 2, 3, 4, 7, 16, 17, 40}
Arrive == /\ ~gone /\ at < Len(stream)
          /\ \E n \in Segments : /\ at + n <= Len(stream)
                                 /\ pending' = pending \o SubSeq(stream, at + 1, at + n)
                                 /\ at' = at + n
          /\ UNCHANGED <<s, stream, seen, sent, gone>>
Whole(d) == Len(d) >= 4 /\ FrameLen(d, 0) <= Len(d) - 4
Act == /\ ~gone /\ Whole(pending)
       /\ LET n == FrameLen(pending, 0)
              d == DueFor(G, pending, [from |-> 0, len |-> n, whole |-> TRUE], seen = 0)
          IN /\ pending' = SubSeq(pending, 5 + n, Len(pending))
             /\ seen' = seen + 1
             /\ \/ d.k \in {"answer", "maybe"} /\ sent' = Append(sent, d.m) /\ gone' = FALSE
                \/ d.k \in {"none", "maybe", "offence"} /\ sent' = sent /\ gone' = FALSE
                \/ d.k \in {"maybe", "offence"} /\ sent' = sent /\ gone' = TRUE
       /\ UNCHANGED <<s, stream, at>>
GiveUp == /\ ~gone /\ ~Whole(pending) /\ Len(pending) >= 4 /\ FrameLen(pending, 0) > Patient
          /\ gone' = TRUE /\ UNCHANGED <<s, stream, at, pending, seen, sent>>
Next == Arrive \/ Act \/ GiveUp
Spec == Init /\ [][Next]_vars

(* Once it has acted on all that has come. *)
Quiet == gone \/ ~Whole(pending)
Come == SubSeq(stream, 1, at)
Allowed == Quiet => Fits(DuesOf(G, Come, 0), sent, gone, FALSE)
AllDone == (Quiet /\ ~gone /\ at = Len(stream)) =>
           \/ \E i \in 1..Len(DuesOf(G, stream, 0)) : DuesOf(G, stream, 0)[i].k = "offence"
           \/ sent # <<>> /\ sent[Len(sent)] = Answer(G, DecodeAt(Sentinel, 0).m).m
(* Nothing is sent that is not a part of a held piece. *)
Honest == \A x \in 1..Len(sent) : LET m == sent[x] IN
            /\ Num(m.a) \in Held(G)
            /\ \A j \in 1..Len(m.block) : m.block[j] = ByteAt(Num(m.a) * G.plen + Num(m.b) + (j - 1))
            /\ Num(m.b) + Len(m.block) <= PieceLen(G, Num(m.a))
(* With a part missing, added, or twice it does not fit. *)
Sharp == (Quiet /\ ~gone /\ at = Len(stream) /\ sent # <<>>) =>
           LET ds == DuesOf(G, stream, 0)
               maybe == \E i \in 1..Len(ds) : ds[i].k = "maybe"
           IN maybe \/ (/\ ~Fits(ds, Append(sent, sent[Len(sent)]), FALSE, FALSE)
                        /\ (\A i \in 1..Len(ds) : ds[i].k # "offence") => ~Fits(ds, Tail(sent), FALSE, FALSE) /\ ~Fits(ds, sent, TRUE, FALSE))
Emit == IOEnv.OUT = "" \/ at > 0 \/ PrintT("GEN " \o ToJson([stream |-> stream, parts |-> [i \in 1..Len(s) |-> Len(Menu[s[i]])]]))
All == 1..Len(Menu)
Few == {1, 3, 10, 15, 19, 21, 24, 37, 52, 56, 62}
ASSUME BitsOf(G) = <<160>> /\ LeftOf(G) = 5
=============================================================================
