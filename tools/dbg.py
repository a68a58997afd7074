"""Rebuild the native harness and run it on a replay file: dbg.py src entry replay [defs]"""
import sys, subprocess; sys.path.insert(0, '/verif')
from vlib import build as b
x = (sys.argv[1], tuple(sys.argv[4:])); r = b.native([x], None, ()); p = subprocess.run([r[x], sys.argv[2], sys.argv[3]], capture_output=True, text=True); print(p.stdout + p.stderr)
