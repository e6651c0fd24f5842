----------------------------- MODULE LayoutTrace ------------------------------
(* Validates the bytes of real regions: what the store writes, and what it    *)
(* reads from regions written by others.                                      *)
EXTENDS Layout, TraceBase
VARIABLE uni
tvars == <<cap, recs, uni, tid, l>>

(* the object with number v; see the harness *)
Pattern(v, n) == [i \in 1..n |->
  IF n >= 4 /\ v = 255 THEN (IF i = n THEN 128 ELSE 0)
  ELSE IF n >= 4 /\ v = 254 THEN 0
  ELSE IF n >= 4 /\ v = 253 THEN (IF i = n THEN 127 ELSE IF i = n - 1 THEN 248 ELSE 0)
  ELSE (v + 37 * (i - 1)) % 256]
Shows(rs, snap) == \A i \in 1..Len(uni') :
  LET k == uni'[i].k  n == uni'[i].n
  IN IF Has(rs, k, n) THEN snap[i] >= 0 /\ Object(rs, k, n) = Pattern(snap[i], n) ELSE snap[i] = -1

TraceInit == TraceBaseInit /\ cap = 0 /\ recs = <<>> /\ uni = <<>>
(* opening reads what is there, or forgets it *)
OpenEv == /\ IsEvent("Open") /\ uni' = E.uni /\ cap' = E.cap
          /\ recs' = IF E.init THEN <<>> ELSE Parse(E.was)
          /\ Len(E.img) = E.cap /\ Parse(E.img) = recs'
          /\ Shows(recs', E.snap)
ReopenEv == /\ IsEvent("Reopen") /\ UNCHANGED <<uni, cap>>
            /\ recs' = IF E.init THEN <<>> ELSE recs
            /\ Parse(E.img) = recs'
            /\ Shows(recs', E.snap)
SetEv == /\ IsEvent("Set") /\ UNCHANGED <<uni, cap>>
         /\ E.res = (Has(recs, E.k, E.n) \/ Fits(E.k, E.n))
         /\ recs' = Stored(E.k, Pattern(E.v, E.n))
         /\ Parse(E.img) = recs'
         /\ Shows(recs', E.snap)
TraceNext == OpenEv \/ ReopenEv \/ SetEv \/ (TraceDone /\ UNCHANGED <<cap, recs, uni>>)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceInv == Used(recs) <= cap
==============================================================================
