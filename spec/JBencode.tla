------------------------------ MODULE JBencode ------------------------------
(* Events of the real encoder and decoder, judged by Bencode. *)
EXTENDS Bencode, Judge

MaxDepth == 1000    \* nesting that must be supported

Accept(e) ==
  /\ e.x = "ok"
  /\ CASE e.op = "dec" -> DecodeOK(e.in, e.out) /\ e.same
       [] e.op = "enc" -> /\ EncodeOK(e.v, e.out)
                          /\ e.out.ok => e.back.ok /\ e.back.v = Norm(e.v)
       [] e.op = "get" -> GetOK(e.v, e.key, e.getter, e.out)
       [] e.op = "wide" ->    \* n values, each the one of the text e.in
            LET r == Parse(e.in)
            IN Assert(Canonical(e.in) /\ e.n > 0, "one canonical value") /\
               e.out.ok /\ e.out.n = e.n /\ e.out.same /\ e.out.v = r.v /\ e.out.again
       [] e.op = "long" -> e.out.decoded /\ e.out.encoded    \* the value, and its text
       [] e.op = "deep" ->
            IF e.m < e.n THEN ~e.out.ok
            ELSE IF e.m > e.n \/ e.n > MaxDepth THEN e.out.ok => e.out.depth = e.n
            ELSE e.out.ok /\ e.out.depth = e.n
Judged == Accept(Trace[l])
=============================================================================
