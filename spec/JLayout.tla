------------------------------ MODULE JLayout ------------------------------
EXTENDS Layout, Judge
Accept(e) == e.x = "ok" /\ (IF "at" \in DOMAIN e THEN ProbeOK(e.lens, e.plen, e.n, e.at, e.out)
                             ELSE LayoutOK(e.lens, e.plen, e.n, e.out))
Judged == Accept(Trace[l])
=============================================================================
