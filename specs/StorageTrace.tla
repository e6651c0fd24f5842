----------------------------- MODULE StorageTrace ----------------------------
(* Validates executions of the real store.  What is compared depends on the   *)
(* property being decided:                                                    *)
(*   CheckAccept  the code must accept and refuse exactly as Accepts says     *)
(*   CheckTwin    a storage that is re-opened must accept and refuse exactly  *)
(*                like a twin that never is                                   *)
EXTENDS Storage, TraceBase

CONSTANTS CheckAccept, CheckTwin

VARIABLE uni        \* names and sizes looked up after every operation

tvars == <<cap, recs, used, uni, tid, l>>

Snap(u) == [i \in 1..Len(u) |-> Load(u[i].k, u[i].n)]

TraceInit == TraceBaseInit /\ cap = 0 /\ recs = <<>> /\ used = 0 /\ uni = <<>>

OpenEv ==
  /\ IsEvent("Open") /\ E.init
  /\ cap' = E.cap /\ recs' = <<>> /\ used' = 0 /\ uni' = E.uni
  /\ \A i \in 1..Len(E.snap) : E.snap[i] = None

SetEv ==
  /\ IsEvent("Set")
  /\ IF CheckAccept THEN Set(E.k, E.n, E.v, E.res)
     ELSE IF E.res THEN SetOk(E.k, E.n, E.v) ELSE SetFails
  /\ CheckTwin => E.res2 = E.res
  /\ UNCHANGED uni
  /\ E.snap = Snap(uni)'

ReopenEv ==
  /\ IsEvent("Reopen")
  /\ IF E.init THEN Clear ELSE Reopen
  /\ UNCHANGED uni
  /\ E.snap = Snap(uni)'

(* A store interrupted after each of its memory writes.  For every image: s1  *)
(* is what the re-opened storage shows, redo the result of storing again, s2  *)
(* what it shows then, s3 the same after one more re-open.                    *)
Same(u, k, n) == Len(u.k) <= KEYLEN /\ Pad(u.k) = Pad(k) /\ u.n = n
ImageOk(im, k, n, v, fits) ==
  /\ \A i \in 1..Len(uni) : ~Same(uni[i], k, n) => im.s1[i] = Load(uni[i].k, uni[i].n)
  /\ fits => im.redo
  /\ \A i \in 1..Len(uni) :
        IF Same(uni[i], k, n) /\ im.redo THEN im.s2[i] = v /\ im.s3[i] = v
        ELSE im.s2[i] = im.s1[i] /\ im.s3[i] = im.s1[i]
CrashSetEv ==
  /\ IsEvent("CrashSet")
  /\ \A j \in 1..Len(E.images) : ImageOk(E.images[j], E.k, E.n, E.v, E.res)
  /\ IF E.res THEN SetOk(E.k, E.n, E.v) ELSE SetFails
  /\ UNCHANGED uni
  /\ E.snap = Snap(uni)'

TraceNext == OpenEv \/ SetEv \/ ReopenEv \/ CrashSetEv \/ (TraceDone /\ UNCHANGED <<cap, recs, used, uni>>)
TraceSpec == TraceInit /\ [][TraceNext]_tvars

TraceInv == UniqueNames
==============================================================================
