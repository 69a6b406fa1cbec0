#!/usr/bin/env python3
"""judge.py MODULE FOCUS TRACE: let a trace module judge one file (development aid)."""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
d = tempfile.mkdtemp(prefix="judge-")
try:
    r = vlib.tlc(d, sys.argv[1], "SPECIFICATION Spec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n",
                 {"TRACE": os.path.abspath(sys.argv[3]), "FOCUS": sys.argv[2]})
    print("ok" if r.ok else "rejected" if r.rejected else "violated" if r.violated else "error", "depth", r.depth,
          "distinct", r.distinct)
    if r.error:
        print(r.error[-2500:])
    if r.rejected:
        print(open(sys.argv[3]).read().splitlines()[r.depth - 1][:3000])
finally:
    shutil.rmtree(d, ignore_errors=True)
