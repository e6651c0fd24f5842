------------------------------ MODULE ConvertRun ------------------------------
(* A run of the font converter as its user sees it: what the command line      *)
(* asks for, what goes wrong around it, which files come out and whether       *)
(* success is reported.                                                        *)
(*                                                                             *)
(* A request is a sequence of options [o, v, long]: the letter, its value      *)
(* ("" for -b and -h) and whether it is spelled out (--size).  Of an option    *)
(* given more than once the last one counts.                                   *)
EXTENDS Naturals, Integers, Sequences, TLC

Given(req, c) == \E i \in 1..Len(req) : req[i].o = c
Value(req, c, default) ==
  IF ~Given(req, c) THEN default
  ELSE LET i == CHOOSE i \in 1..Len(req) : req[i].o = c /\ \A j \in (i + 1)..Len(req) : req[j].o # c IN req[i].v

(* charset names are not case-sensitive *)
Canon == [x \in {"ascii", "ASCII", "Ascii", "ISO-8859-1", "iso-8859-1", "ISO-8859-5", "cp1251", "CP1251", "koi8-r", "KOI8-R", "NO-SUCH", "no-such"} |->
           CASE x \in {"ascii", "ASCII", "Ascii"} -> "ASCII"
             [] x \in {"ISO-8859-1", "iso-8859-1"} -> "ISO-8859-1"
             [] x = "ISO-8859-5" -> x
             [] x \in {"cp1251", "CP1251"} -> "CP1251"
             [] x \in {"koi8-r", "KOI8-R"} -> "KOI8-R"
             [] OTHER -> "NO-SUCH"]

(* what is asked for *)
Effective(req) == [font |-> Value(req, "f", ""), size |-> Value(req, "s", "12"), dpi |-> Value(req, "d", "141"),
                   enc |-> Canon[Value(req, "e", "ASCII")], dir |-> Value(req, "o", "bin"),
                   binary |-> Given(req, "b"), help |-> Given(req, "h") \/ Given(req, "?")]
Base(e, stem) == stem \o e.size \o "pt" \o (IF e.enc = "ASCII" THEN "7" ELSE "8") \o "b"
Names(e, stem) == IF e.binary THEN {Base(e, stem) \o "Bitmaps.bin", Base(e, stem) \o "Glyphs.bin"} ELSE {Base(e, stem) \o ".h"}

(* fonts: for each readable font file, what it is called without its extension (stem), and the charsets it has       *)
(* damaged glyphs for (bad)                                                                                           *)
NotNumbers == {"abc", "", "-", "12abc", "9x", "0x20", "12 ", "1 2", "9,5", "9.5", "1e1", "99999999999", "2147483648", "4294967308", "-4294967284"}
Malformed(req) == \E i \in 1..Len(req) : req[i].o \in {"s", "d"} /\ req[i].v \in NotNumbers
(* sizes at which no glyph fits the format, whatever the resolution, and whose number of 64ths has more than 31 bits *)
TooLarge == {"33554431", "33554432", "67108864", "67108876", "134217740", "1073741836", "2147483647"}
Sound(e, fonts) == ~e.help /\ e.size \notin TooLarge /\ e.font \in DOMAIN fonts /\ e.enc \notin fonts[e.font].bad /\ e.enc # "NO-SUCH"

(* The contents depend on nothing but font, size, resolution, charset and format. *)
Key(e) == <<e.font, e.size, e.dpi, e.enc, e.binary>>

(* A file is [dir, name, size, sum].  fault: "" none; "block" something else   *)
(* is in the way of a file; a limit is the number of bytes a file may have     *)
(* (-1: any).  `known` has the contents of every request converted before.     *)
Contents(files) == {<<f.name, f.size, f.sum>> : f \in files}
Longest(cs) == CHOOSE n \in {c[2] : c \in cs} : \A c \in cs : c[2] <= n
Allowed(req, fonts, block, limit, status, files, known) ==
  LET e == Effective(req)
      ok == Sound(e, fonts) /\ ~Malformed(req)
      complete == /\ {f.name : f \in files} = Names(e, fonts[e.font].stem)
                  /\ \A f \in files : f.dir = e.dir
                  /\ Key(e) \in DOMAIN known => Contents(files) = known[Key(e)]
  IN /\ status >= 0
     /\ status = 0 => ok /\ ~block /\ complete
     /\ ok /\ ~block /\ limit = -1 => status = 0
     /\ ok /\ ~block /\ limit >= 0 /\ Key(e) \in DOMAIN known => (status = 0 <=> limit >= Longest(known[Key(e)]))
     /\ \A f \in files : ok /\ f.dir = e.dir /\ f.name \in Names(e, fonts[e.font].stem)    \* nothing else is ever written
==============================================================================
