----------------------------- MODULE JMetainfo -----------------------------
(* Recorded loads of torrent files, judged by Metainfo. PROP selects which
   property is judged. *)
EXTENDS Metainfo, Judge
(* A record with a field grow is of a file with, at one place in a dictionary,
   one more key and a large value, which mean nothing to the loader: what is
   said of e.in holds of the file as well. *)
Prop == IOEnv.PROP
(* A torrent of many pieces or files, too large to be handed over *)
ManyOK(e) ==
  /\ e.out.ok <=> e.n = (e.length + e.plen - 1) \div e.plen
  /\ e.out.ok => /\ e.out.np = e.n /\ e.out.plen = e.plen /\ e.out.length = e.length
                 /\ e.out.last = e.length - (e.n - 1) * e.plen
                 /\ e.out.nf = (IF e.nf = 0 THEN 1 ELSE e.nf) /\ e.out.right = e.nf
                 /\ e.out.hashes /\ e.out.ih
Accept(e) ==
  /\ e.x = "ok"
  /\ CASE e.op = "many" -> ManyOK(e)
       [] Prop = "C03" -> InfohashOK(e.in, e.out)
       [] Prop = "C04" -> AdmissionOK(e.in, e.out)
       [] Prop = "C05" -> ContainmentOK(e.in, e.wd, e.cwd, e.out) /\ OrdinaryLoads(e.in, e.out)
Judged == Accept(Trace[l])
=============================================================================
