---------------------------------- MODULE Adc --------------------------------
(* Single analog reads through the oneshot driver of the ESP32.               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES busy,   \* converter units in use
          ready,  \* <<unit, channel>> configured as they should be
          c,      \* pin of the call in progress; -1: none
          bad,    \* a step of this call failed
          val     \* value read by this call; -1: none
avars == <<busy, ready, c, bad, val>>

\* what the pins of the chip are connected to
Map == <<<<36, 37, 38, 39, 32, 33, 34, 35>>, <<4, 0, 2, 15, 13, 12, 14, 27, 25, 26>>>>
Channels(p) == {x \in {<<u, k>> : u \in 0..1, k \in 0..9} : x[2] + 1 <= Len(Map[x[1] + 1]) /\ Map[x[1] + 1][x[2] + 1] = p}
HasChannel(p) == Channels(p) # {}
ChannelOf(p) == CHOOSE x \in Channels(p) : TRUE
FullRange == 3
Bits == 12

AdcInit == busy = {} /\ ready = {} /\ c = -1 /\ bad = FALSE /\ val = -1
Begin(p) == c = -1 /\ c' = p /\ bad' = FALSE /\ val' = -1 /\ UNCHANGED <<busy, ready>>
New(u, ok) == /\ c # -1 /\ ok => (u \in 0..1 /\ u \notin busy)
              /\ busy' = IF ok THEN busy \cup {u} ELSE busy
              /\ bad' = (bad \/ ~ok) /\ UNCHANGED <<ready, c, val>>
Configure(u, ch, atten, bits, ok) ==
  /\ c # -1 /\ u \in busy
  /\ ready' = IF ok /\ atten = FullRange /\ bits = Bits THEN ready \cup {<<u, ch>>} ELSE ready \ {<<u, ch>>}
  /\ bad' = (bad \/ ~ok) /\ UNCHANGED <<busy, c, val>>
Convert(u, ch, ok, v) ==
  /\ c # -1 /\ u \in busy /\ HasChannel(c)
  /\ val' = IF ok /\ <<u, ch>> = ChannelOf(c) /\ <<u, ch>> \in ready THEN v ELSE -1
  /\ bad' = (bad \/ ~ok) /\ UNCHANGED <<busy, ready, c>>
Delete(u) == /\ c # -1 /\ u \in busy /\ busy' = busy \ {u} /\ ready' = {x \in ready : x[1] # u} /\ UNCHANGED <<c, bad, val>>
MayRet(res) == /\ busy = {}
               /\ IF HasChannel(c) /\ ~bad THEN val # -1 /\ res = val ELSE res = -1
Ret == c' = -1 /\ UNCHANGED <<busy, ready, bad, val>>
==============================================================================
