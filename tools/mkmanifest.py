#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the properties with a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = (" Trusts TLC, the C++ compiler and sanitizer, and the harness (a command interpreter without oracle). "
         "The conformance part covers the executions it generates, not every execution.")
CLAIMED = {
    "S01": "Exhaustive TLC check of the store (abstract and at the grain of memory writes) within small constants; every transition sampled from the abstract model's graph and random histories are replayed on the real code and each result is checked by TLC against the specification.",
    "S02": "As S01, with a twin storage that is never re-opened: both must accept and refuse the same stores, and show the same objects, re-opened after every operation.",
    "S03": "As S01, with the exact acceptance rule of the specification; exact-size regions under AddressSanitizer.",
    "S04": "TLC checks every interleaving of memory writes and resets in a small region; on the real code every machine store into the region is single-stepped and the region after it is re-opened and checked by TLC.",
    "S05": "TLC starts from every content of a small region; the real code is run on generated contents under AddressSanitizer with a time limit, traces validated by TLC.",
    "B01": "Exhaustive TLC check of the text model; every transition of it and random operation sequences replayed on the real classes with exact heap buffers under AddressSanitizer, validated by TLC.",
    "B02": "As B01; integer types of every width, boundary and random values, every base and width; the expected digits are computed by the specification.",
    "B03": "As B01; floats are given as exact fractions and the specification computes the exact rounding interval.",
    "B04": "As B01; views, comparison, searching and formatting.",
    "M01": "Exhaustive TLC check of the view model; transitions and random sequences replayed on real views.",
    "E01": "Exhaustive TLC check on small words; the real functions run on boundary and random values of every width, results checked by TLC.",
    "F01": "Exhaustive TLC check of the frame model at every depth; every transition, every pixel of small frames and random drawing on small and large frames replayed on the real frame buffers, the whole image checked by TLC after every operation.",
    "F02": "As F01, with clears and colour changes.",
    "G01": "Exhaustive TLC check of the canvas model; figures of every kind in and around small frames, and far away, are drawn on the real canvas and on a larger one, and TLC compares the two pictures.",
    "G02": "Exhaustive TLC check of the canvas model, its transitions replayed; random figures and text under every rotation compared by TLC with the picture drawn unrotated.",
    "G03": "TLC checks the line algorithm step by step for all end points of a grid; every line of a small grid under every rotation, every slope, random and very long lines of the real canvas are judged by TLC against the geometric definition.",
    "G04": "Exhaustive TLC check of the canvas model, its transitions replayed; every small rectangle around small frames and random ones judged by TLC.",
    "G05": "TLC checks the circle algorithm step by step for every radius up to a bound; the real circles of every radius up to a bound, and some larger, are judged by TLC against the geometric definition.",
    "G06": "Exhaustive TLC check of the algebra on small values; boundary and random values in every element type on the real classes, results judged by TLC.",
    "T01": "TLC checks the code to glyph mapping for all codes; all 256 codes looked up in generated fonts and the built-in one, with signed and unsigned char, under AddressSanitizer with exact-size tables.",
    "T02": "Exhaustive TLC check of the typing model, its transitions replayed; random fonts and texts drawn on the real canvas, the pixels computed by the specification.",
    "T03": "As T02, with the bounds computed by the library.",
    "C01": "Exhaustive TLC check of the packer model against the bits written; its transitions, every byte at every bit position and random sequences replayed.",
    "C02": "Exhaustive TLC check of the recogniser model; all its texts, random texts in several multi-byte encodings and code points through UTF-8 fed to the real converter.",
    "C03": "TLC checks packing and unpacking of small fonts; generated BDF fonts and two TrueType fonts are converted by the real program in both forms, loaded into the real font class and compared by TLC with the source glyphs.",
    "C04": "TLC checks every small request and fault of the run model; its scenarios and random command lines are run with the real program, with missing and broken fonts, blocked files and file size limits, and TLC judges status and files.",
    "L01": "Exhaustive TLC check of the output model; its transitions and random sequences replayed on the real classes of both platforms over a simulated UART.",
    "U01": "TLC explores every arrival pattern, buffer size and timeout of a small receiver on a wrapping clock; its scenarios and random byte streams replayed on the real code of both platforms over a simulated UART and clock.",
    "U02": "As U01, with the wrap-around and the half-range of the tick counter placed systematically around and inside calls; virtual time at return judged by TLC.",
    "U03": "As U01, with driver errors and short writes.",
    "U04": "Exhaustive TLC check of the initialisation model; its scenarios, every frame format and random histories replayed against a simulated driver.",
    "P01": "Exhaustive TLC check of the transfer model with every failing piece; scenarios, every length up to a bound and random lengths replayed on the real code of both platforms over a simulated bus.",
    "P02": "Exhaustive TLC check of the holding model with every driver failure; scenarios and random histories replayed against a simulated driver.",
    "I01": "Exhaustive TLC check of the transfer model with every outcome; scenarios, every length up to a bound and random transfers replayed on the real code of both platforms over a simulated bus.",
    "I02": "As I01; every address on every port and random sequences with failures.",
    "D01": "Exhaustive TLC check of the pin and selector model; every transition, every pin number and random histories replayed on the real code of both platforms over simulated pads.",
    "A01": "Exhaustive TLC check of repeated reads with every failure; scenarios, every pin number and random histories replayed on the real code (ESP32 in both compiler variants, Arduino) over a simulated converter.",
    "W01": "TLC explores every early wake, overslept or refused sleep and pause of a small clock; scenarios and random durations around every wrap-around replayed on the real code over a virtual clock, times judged by TLC.",
}
TECH = "TLA+ specification checked with TLC; traces of the real code validated against it by TLC"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": f"VERIF_TIER=quick python3 tools/check.py {p['id']}",
                 "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {p['id']}",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": TECH, "level": "model_checking",
                 "level_note": CLAIMED[p["id"]] + TRUST} for p in props if p["id"] in CLAIMED],
     "not_applicable": [{"property": p["id"], "reason": "no check has been built for it yet"} for p in props if p["id"] not in CLAIMED],
     "notes": "TLA+ with TLC throughout; see DESIGN.md. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
