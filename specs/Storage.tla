------------------------------- MODULE Storage -------------------------------
(* The persistent object store, as its users see it.                          *)
(*                                                                            *)
(* A region of `cap` bytes holds a sequence of records.  A record has a name  *)
(* (padded with zeros to KEYLEN characters), an object size and an object.    *)
(* Objects are abstract values; the harness fills an object with a pattern    *)
(* derived from the value and reads it back byte by byte.                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS HDR,      \* bytes of a record besides the object
          MAXREC,   \* longest record
          KEYLEN    \* longest name

VARIABLES cap,      \* size of the region
          recs,     \* sequence of [k, n, v]: the records, oldest first
          used      \* bytes used by the records

svars == <<cap, recs, used>>

None == -1          \* what a load of something absent gives

Pad(k) == [i \in 1..KEYLEN |-> IF i <= Len(k) THEN k[i] ELSE 0]
Find(k, n) == {i \in 1..Len(recs) : recs[i].k = Pad(k) /\ recs[i].n = n}
Stored(k, n) == Len(k) <= KEYLEN /\ Find(k, n) # {}
Load(k, n) == IF Stored(k, n) THEN recs[CHOOSE i \in Find(k, n) : TRUE].v ELSE None

(* the exact rule for accepting a store *)
Accepts(k, n) == \/ Stored(k, n)
                 \/ Len(k) <= KEYLEN /\ HDR + n <= MAXREC /\ used + HDR + n <= cap

StorageInit(c) == cap = c /\ recs = <<>> /\ used = 0

(* a store that succeeds *)
SetOk(k, n, v) ==
  /\ Len(k) <= KEYLEN
  /\ IF Stored(k, n)
       THEN /\ recs' = [recs EXCEPT ![CHOOSE i \in Find(k, n) : TRUE].v = v]
            /\ used' = used
       ELSE /\ recs' = Append(recs, [k |-> Pad(k), n |-> n, v |-> v])
            /\ used' = used + HDR + n
  /\ UNCHANGED cap

(* a store that is refused *)
SetFails == UNCHANGED svars

Set(k, n, v, res) == /\ res = Accepts(k, n)
                     /\ IF res THEN SetOk(k, n, v) ELSE SetFails

(* opening the region again: nothing is lost; with initialisation all is *)
Reopen == UNCHANGED svars
Clear == recs' = <<>> /\ used' = 0 /\ UNCHANGED cap

------------------------------------------------------------------------------
(* properties of the design *)
UniqueNames == \A i, j \in 1..Len(recs) :
                  recs[i].k = recs[j].k /\ recs[i].n = recs[j].n => i = j
Within == used <= cap
==============================================================================
