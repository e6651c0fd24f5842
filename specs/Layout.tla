-------------------------------- MODULE Layout --------------------------------
(* The format of a region of stored objects: records back to back from its    *)
(* first byte.  A record is its own length (two bytes, least significant      *)
(* first on the machines this runs on), four characters of name padded with   *)
(* zeros, and the object.  The records end where fewer than a record's head   *)
(* of bytes are left, or where a length is too small for a record or reaches  *)
(* beyond the region.  Bytes behind them mean nothing.                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

HEAD == 6
NAME == 4
LONGEST == 65535

VARIABLES cap,      \* size of the region
          recs      \* the records: [k, d], name (four characters) and the object's bytes
lvars == <<cap, recs>>

Pad(k) == [i \in 1..NAME |-> IF i <= Len(k) THEN k[i] ELSE 0]

(* -------------------------------------------------- bytes -> records ---- *)
LengthAt(img, at) == img[at] + 256 * img[at + 1]
RecordAt(img, at) == /\ at + HEAD - 1 <= Len(img)
                     /\ LengthAt(img, at) >= HEAD
                     /\ at + LengthAt(img, at) - 1 <= Len(img)
RECURSIVE ParseFrom(_, _)
ParseFrom(img, at) ==
  IF ~RecordAt(img, at) THEN <<>>
  ELSE <<[k |-> SubSeq(img, at + 2, at + 2 + NAME - 1), d |-> SubSeq(img, at + HEAD, at + LengthAt(img, at) - 1)]>>
       \o ParseFrom(img, at + LengthAt(img, at))
Parse(img) == ParseFrom(img, 1)

(* -------------------------------------------------- records -> bytes ---- *)
Bytes(r) == LET n == HEAD + Len(r.d) IN <<n % 256, n \div 256>> \o r.k \o r.d
RECURSIVE Image(_)
Image(rs) == IF rs = <<>> THEN <<>> ELSE Bytes(Head(rs)) \o Image(Tail(rs))
RECURSIVE Used(_)
Used(rs) == IF rs = <<>> THEN 0 ELSE HEAD + Len(Head(rs).d) + Used(Tail(rs))

(* -------------------------------------------------- what it means ------- *)
Matching(rs, k, n) == {i \in 1..Len(rs) : rs[i].k = Pad(k) /\ Len(rs[i].d) = n}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Has(rs, k, n) == Len(k) <= NAME /\ Matching(rs, k, n) # {}
Object(rs, k, n) == rs[First(Matching(rs, k, n))].d
Fits(k, n) == Len(k) <= NAME /\ HEAD + n <= LONGEST /\ Used(recs) + HEAD + n <= cap

Stored(k, d) ==   \* the records after storing
  IF Has(recs, k, Len(d)) THEN [recs EXCEPT ![First(Matching(recs, k, Len(d)))].d = d]
  ELSE IF Fits(k, Len(d)) THEN Append(recs, [k |-> Pad(k), d |-> d])
  ELSE recs
==============================================================================
