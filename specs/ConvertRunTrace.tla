--------------------------- MODULE ConvertRunTrace ----------------------------
(* Validates runs of the real converter.                                       *)
EXTENDS ConvertRun, TraceBase
VARIABLES fonts, known
tvars == <<fonts, known, tid, l>>
TraceInit == TraceBaseInit /\ fonts = [x \in {} |-> [stem |-> "", bad |-> {}]] /\ known = [x \in {} |-> {}]
Set(s) == {s[i] : i \in 1..Len(s)}
FontEv == IsEvent("FontFile") /\ fonts' = (E.path :> [stem |-> E.stem, bad |-> Set(E.bad)]) @@ fonts /\ UNCHANGED known
RunEv == /\ IsEvent("Run")
         /\ LET fs == Set(E.files)  e == Effective(E.req) IN
            /\ Allowed(E.req, fonts, E.block, E.limit, E.status, fs, known)
            /\ known' = IF E.status = 0 THEN (Key(e) :> Contents(fs)) @@ known ELSE known
         /\ UNCHANGED fonts
TraceNext == FontEv \/ RunEv \/ (TraceDone /\ UNCHANGED <<fonts, known>>)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
