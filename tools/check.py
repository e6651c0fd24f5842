#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current tree (see DESIGN.md)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mbv

MODULES = {"S": "storage", "B": "text", "M": "views", "E": "views", "F": "frame", "G": "canvas", "T": "fonts",
           "C": "converter", "L": "serialout", "U": "uart", "P": "spi", "I": "i2c", "D": "gpio", "A": "adc", "W": "timing", "N": "objects", "H": "heap"}

if __name__ == "__main__":
    if len(sys.argv) != 2:
        sys.exit(__doc__)
    prop = sys.argv[1]
    mod = importlib.import_module("checks." + MODULES[prop[0]])
    sys.exit(mbv.main(prop, getattr(mod, prop)))
