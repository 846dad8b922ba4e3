#!/usr/bin/env python3
"""Writes engine/shapes.json from the extraction of the reference tree (build/out)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
import prog
prog._SHAPES["x"] = 1
prog.shapes = lambda: {}
P = prog.load(os.path.join(V, "build", "out"))
json.dump(prog.shape_of(P), open(os.path.join(V, "engine", "shapes.json"), "w"), indent=0, sort_keys=True)
