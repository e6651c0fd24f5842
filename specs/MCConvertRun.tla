----------------------------- MODULE MCConvertRun -----------------------------
(* The converter as an algorithm: it reads its options one by one, opens the   *)
(* font, renders it, writes its files one after the other and reports success  *)
(* only after the last one was written completely.  Every end of a run is      *)
(* checked against what ConvertRun allows.                                     *)
EXTENDS ConvertRun, Json
CONSTANTS MaxOpts, Limits, Values     \* Values: letter -> values tried
VARIABLES req, pos, set, block, limit, pc, files, status, known
vars == <<req, pos, set, block, limit, pc, files, status, known>>
Fonts == [x \in {"font", "damaged"} |-> [stem |-> IF x = "font" THEN "Font" ELSE "Damaged", bad |-> IF x = "font" THEN {} ELSE {"ISO-8859-1"}]]
Opts == UNION {{[o |-> c, v |-> x, long |-> g] : x \in Values[c], g \in (IF c \in {"b", "h", "?"} THEN {FALSE} ELSE BOOLEAN)} : c \in DOMAIN Values}
Reqs == UNION {[1..n -> Opts] : n \in 0..MaxOpts}
Default == [font |-> "", size |-> "12", dpi |-> "141", enc |-> "ASCII", dir |-> "bin", binary |-> FALSE, help |-> FALSE]
Init == /\ req \in {r \in Reqs : Len(r) < 2 \/ (\E i \in 1..Len(r) : r[i].o = "f")}
        /\ pos = 1 /\ set = Default /\ pc = "options" /\ files = {} /\ status = -1
        /\ block \in BOOLEAN /\ limit \in Limits /\ (block => limit = -1)
        /\ known = [x \in {} |-> {}]
Apply(s, p) == CASE p.o = "f" -> [s EXCEPT !.font = p.v] [] p.o = "s" -> [s EXCEPT !.size = p.v] [] p.o = "d" -> [s EXCEPT !.dpi = p.v]
                 [] p.o = "e" -> [s EXCEPT !.enc = Canon[p.v]] [] p.o = "o" -> [s EXCEPT !.dir = p.v]
                 [] p.o = "b" -> [s EXCEPT !.binary = TRUE] [] OTHER -> [s EXCEPT !.help = TRUE]
End(s) == pc' = "end" /\ status' = s /\ UNCHANGED <<req, pos, set, block, limit, known>>
Option == /\ pc = "options" /\ pos <= Len(req)
          /\ IF req[pos].o \in {"s", "d"} /\ req[pos].v \in NotNumbers THEN End(1) /\ UNCHANGED files
             ELSE set' = Apply(set, req[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<req, block, limit, pc, files, status, known>>
Check == /\ pc = "options" /\ pos > Len(req)
         /\ IF set.help \/ set.font \notin DOMAIN Fonts \/ set.enc = "NO-SUCH" THEN End(1) /\ UNCHANGED files
            ELSE IF set.enc \in Fonts[set.font].bad THEN End(1) /\ UNCHANGED files     \* found while rendering
            ELSE pc' = "write" /\ UNCHANGED <<req, pos, set, block, limit, files, status, known>>
Size(name) == 3       \* pieces of a whole file
Write == /\ pc = "write"
         /\ LET todo == Names(set, Fonts[set.font].stem) \ {f.name : f \in files} IN
            IF todo = {} THEN End(0) /\ UNCHANGED files
            ELSE LET n == CHOOSE n \in todo : TRUE IN
                 IF block THEN End(1) /\ UNCHANGED files
                 ELSE IF limit >= 0 /\ limit < Size(n)
                      THEN files' = files \union {[dir |-> set.dir, name |-> n, size |-> limit, sum |-> "part"]} /\ End(1)
                      ELSE /\ files' = files \union {[dir |-> set.dir, name |-> n, size |-> Size(n), sum |-> n]}
                           /\ UNCHANGED <<req, pos, set, block, limit, pc, status, known>>
Next == Option \/ Check \/ Write
Spec == Init /\ [][Next]_vars
OptionsUnderstood == pc # "options" /\ pos > Len(req) => set = Effective(req)
Whole == LET e == Effective(req) IN IF Sound(e, Fonts) /\ ~Malformed(req) THEN Key(e) :> {<<n, 3, n>> : n \in Names(e, Fonts[e.font].stem)} ELSE [x \in {} |-> {}]
EndAllowed == pc = "end" => /\ Allowed(req, Fonts, block, limit, status, files, [x \in {} |-> {}])
                            /\ Allowed(req, Fonts, block, limit, status, files, Whole)
(* what Allowed must not let pass: success for less than the whole, or failure for no reason *)
Teeth == pc = "end" => LET e == Effective(req) IN
   /\ status = 0 => ~Allowed(req, Fonts, block, limit, 1, files, Whole) /\ ~Allowed(req, Fonts, block, limit, 0, {}, Whole)
   /\ status = 1 => ~Allowed(req, Fonts, block, limit, 0, files, Whole)
   /\ ~Allowed(req, Fonts, block, limit, -6, files, Whole)
Emit == (pc' = "end" /\ pc # "end") => PrintT("@T@" \o ToJson([req |-> req, block |-> block, limit |-> limit]))
Vals == [f |-> {"font", "damaged", "missing"}, s |-> {"9", "abc"}, d |-> {"72"}, e |-> {"iso-8859-1", "ASCII", "NO-SUCH"}, o |-> {"out"}, b |-> {""}, h |-> {""}]
LimitsQ == {-1, 0, 2, 3}
==============================================================================
