------------------------- MODULE StorageGarbageTrace -------------------------
(* A store opened on arbitrary contents.  What the garbage happens to show is *)
(* unconstrained; every operation ends, and what has been stored successfully *)
(* is found from then on, also by a storage opened later.                     *)
EXTENDS TraceBase

CONSTANT KEYLEN

VARIABLES known,    \* set of [k, n, v] stored successfully
          uni
tvars == <<known, uni, tid, l>>

Pad(k) == [i \in 1..KEYLEN |-> IF i <= Len(k) THEN k[i] ELSE 0]
Shows(kn, u, snap) ==
  /\ Len(snap) = Len(u)
  /\ \A i \in 1..Len(u) : \A r \in kn :
        (Len(u[i].k) <= KEYLEN /\ r.k = Pad(u[i].k) /\ r.n = u[i].n) => snap[i] = r.v
(* a name that is too long never shows anything *)
NoLong(u, snap) == \A i \in 1..Len(u) : Len(u[i].k) > KEYLEN => snap[i] = -1

TraceInit == TraceBaseInit /\ known = {} /\ uni = <<>>

OpenEv == IsEvent("Open") /\ known' = {} /\ uni' = E.uni /\ NoLong(E.uni, E.snap)

SetEv ==
  /\ IsEvent("Set")
  /\ LET same == {r \in known : r.k = Pad(E.k) /\ r.n = E.n /\ Len(E.k) <= KEYLEN} IN
     /\ (same # {} => E.res)
     /\ (Len(E.k) > KEYLEN => ~E.res)
     /\ known' = IF E.res THEN (known \ same) \cup {[k |-> Pad(E.k), n |-> E.n, v |-> E.v]} ELSE known
  /\ Shows(known', uni, E.snap) /\ NoLong(uni, E.snap)
  /\ UNCHANGED uni

ReopenEv ==
  /\ IsEvent("Reopen")
  /\ known' = IF E.init THEN {} ELSE known
  /\ Shows(known', uni, E.snap) /\ NoLong(uni, E.snap)
  /\ (E.init => \A i \in 1..Len(E.snap) : E.snap[i] = -1)
  /\ UNCHANGED uni

TraceNext == OpenEv \/ SetEv \/ ReopenEv \/ (TraceDone /\ UNCHANGED <<known, uni>>)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceInv == \A r, s \in known : r.k = s.k /\ r.n = s.n => r = s
==============================================================================
