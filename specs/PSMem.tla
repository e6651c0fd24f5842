-------------------------------- MODULE PSMem --------------------------------
(* The store at the grain of single memory writes: a region of CAP cells, the *)
(* chain of records in it, and a store as the sequence of writes the code     *)
(* makes (name, size, object, then the head in RAM).  A record is a size of   *)
(* two cells (low, high), a name cell and n object cells.  The module refines *)
(* Storage, and states what a reset between any two writes may leave behind.  *)
(*   Dirty = FALSE  the region was initialised                                *)
(*   Dirty = TRUE   the region was opened with arbitrary contents             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS CAP, KEYS, SIZES, VALS, CELLS, Dirty,
          MINREC    \* shortest record the walk accepts

HDR == 3
MAXREC == 1000
KEYLEN == 1
None == -1
Stuck == -2         \* the search would never end

VARIABLES mem,      \* [0..CAP-1 -> cell]
          head,     \* the free head kept in RAM
          todo,     \* writes of the store in progress that are still to come
          cur,      \* the store in progress: [k, n, v, new]
          known,    \* ghost: sequence of the records stored successfully, in order
          torn      \* ghost: names and sizes whose object a reset has torn

vars == <<mem, head, todo, cur, known, torn>>

NoStore == [k |-> 0, n |-> 0, v |-> 0, new |-> FALSE]

(* the walk along the chain, as on opening *)
Size(m, h) == m[h] + 16 * m[h + 1]
RECURSIVE Walk(_, _)
Walk(m, h) == IF h + HDR <= CAP /\ Size(m, h) >= MINREC /\ h + Size(m, h) <= CAP
              THEN Walk(m, h + Size(m, h)) ELSE h
Scan(m) == Walk(m, 0)

(* the search for a record below the head h *)
RECURSIVE Search(_, _, _, _, _)
Search(m, h, p, k, n) ==
  IF p + HDR > h THEN None
  ELSE IF m[p + 2] = k /\ Size(m, p) = HDR + n THEN p
  ELSE IF Size(m, p) = 0 THEN Stuck
  ELSE Search(m, h, p + Size(m, p), k, n)
Pos(m, h, k, n) == Search(m, h, 0, k, n)
(* the object found, as a sequence of cells *)
Get(m, h, k, n) == LET p == Pos(m, h, k, n)
                   IN IF p < 0 THEN <<>> ELSE [i \in 1..n |-> m[p + HDR + i - 1]]
Obj(n, v) == [i \in 1..n |-> v]

Init == /\ IF Dirty THEN mem \in [0..(CAP - 1) -> CELLS] ELSE mem = [i \in 0..(CAP - 1) |-> 0]
        /\ head = Scan(mem)
        /\ todo = <<>> /\ cur = NoStore /\ known = <<>> /\ torn = {}

DataWrites(p, n, v) == [i \in 1..n |-> <<p + HDR + i - 1, <<v>>>>]

Idx(s, k, n) == {i \in 1..Len(s) : s[i].k = k /\ s[i].n = n}
Put(s, k, n, v) == IF Idx(s, k, n) # {} THEN [s EXCEPT ![CHOOSE i \in Idx(s, k, n) : TRUE].v = v]
                   ELSE Append(s, [k |-> k, n |-> n, v |-> v])

Fits(n) == head + HDR + n <= CAP

Begin(k, n, v) ==
  /\ todo = <<>> /\ cur = NoStore
  /\ LET p == Pos(mem, head, k, n) IN
     IF p >= 0
       THEN /\ todo' = DataWrites(p, n, v)
            /\ cur' = [k |-> k, n |-> n, v |-> v, new |-> FALSE]
       ELSE /\ Fits(n)
            /\ todo' = <<<<head + 2, <<k>>>>, <<head, <<HDR + n, 0>>>>>> \o DataWrites(head, n, v)
            /\ cur' = [k |-> k, n |-> n, v |-> v, new |-> TRUE]
  /\ UNCHANGED <<mem, head, known, torn>>

Refuse(k, n) == /\ todo = <<>> /\ cur = NoStore
                /\ Pos(mem, head, k, n) = None /\ ~Fits(n)
                /\ UNCHANGED vars

Write == /\ todo # <<>>
         /\ LET a == Head(todo)[1]  w == Head(todo)[2] IN
            mem' = [i \in DOMAIN mem |-> IF i \in a..(a + Len(w) - 1) THEN w[i - a + 1] ELSE mem[i]]
         /\ todo' = Tail(todo)
         /\ UNCHANGED <<head, cur, known, torn>>

Finish == /\ todo = <<>> /\ cur # NoStore
          /\ head' = IF cur.new THEN head + HDR + cur.n ELSE head
          /\ known' = Put(known, cur.k, cur.n, cur.v)
          /\ torn' = torn \ {<<cur.k, cur.n>>}
          /\ cur' = NoStore
          /\ UNCHANGED <<mem, todo>>

(* opening again between stores, and a reset in the middle of one *)
Reopen == /\ cur = NoStore
          /\ head' = Scan(mem)
          /\ UNCHANGED <<mem, todo, cur, known, torn>>
Reset == /\ cur # NoStore
         /\ head' = Scan(mem) /\ todo' = <<>> /\ cur' = NoStore
         /\ torn' = torn \cup {<<cur.k, cur.n>>}
         /\ UNCHANGED <<mem, known>>

Next == \/ \E k \in KEYS, n \in SIZES, v \in VALS : Begin(k, n, v)
        \/ \E k \in KEYS, n \in SIZES : Refuse(k, n)
        \/ Write \/ Finish \/ Reopen \/ Reset
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Busy(k, n) == cur # NoStore /\ cur.k = k /\ cur.n = n

TypeOK == head \in 0..CAP /\ \A i \in 1..Len(todo) : todo[i][1] \in 0..(CAP - 1)

NeverStuck == \A k \in KEYS, n \in SIZES :
                 Pos(mem, head, k, n) # Stuck /\ Pos(mem, Scan(mem), k, n) # Stuck

(* every object known to be stored is found, by this storage and by one that  *)
(* would be opened now, whatever write comes next                             *)
KnownFound ==
  \A i \in 1..Len(known) :
     LET r == known[i] IN
     (~Busy(r.k, r.n) /\ <<r.k, r.n>> \notin torn) =>
        /\ Get(mem, head, r.k, r.n) = Obj(r.n, r.v)
        /\ Get(mem, Scan(mem), r.k, r.n) = Obj(r.n, r.v)

(* in an initialised region nothing is found that was not stored *)
NothingElse ==
  ~Dirty => \A k \in KEYS, n \in SIZES :
     (Idx(known, k, n) = {} /\ ~Busy(k, n) /\ <<k, n>> \notin torn) =>
        Pos(mem, head, k, n) = None /\ Pos(mem, Scan(mem), k, n) = None

(* opening again gives the same head: the same stores are accepted *)
SameHead == (~Dirty /\ cur = NoStore) => Scan(mem) = head

(* the object whose store a reset interrupted can be stored again *)
Redo == [][cur # NoStore /\ cur' = NoStore =>
             \/ Pos(mem', head', cur.k, cur.n) # None
             \/ head' + HDR + cur.n <= CAP]_vars

(* refinement of the abstract store: torn = {} until a reset happens *)
RECURSIVE Bytes(_)
Bytes(s) == IF s = <<>> THEN 0 ELSE HDR + Head(s).n + Bytes(Tail(s))
ARecs == [i \in 1..Len(known) |-> [k |-> <<known[i].k>>, n |-> known[i].n, v |-> known[i].v]]
A == INSTANCE Storage WITH cap <- CAP, recs <- ARecs, used <- Bytes(known)
NoReset == torn = {}
AcceptRule == (~Dirty /\ torn = {} /\ cur = NoStore) =>
    \A k \in KEYS, n \in SIZES :
       A!Accepts(<<k>>, n) <=> (Pos(mem, head, k, n) # None \/ Fits(n))
Refines == [][\/ ~NoReset
              \/ A!Reopen
              \/ \E k \in KEYS, n \in SIZES, v \in VALS : A!Set(<<k>>, n, v, TRUE)]_vars
==============================================================================
