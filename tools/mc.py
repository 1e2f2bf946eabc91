#!/usr/bin/env python3
"""mc.py MODULE[:CFG] ... : model-check specifications, short output"""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
for a in sys.argv[1:]:
    m, _, c = a.partition(":")
    try:
        print(vlib.run_model(m, c or m + ".cfg", workers=6, timeout=int(os.environ.get("T", "300"))), flush=True)
    except vlib.Infra as e:
        s = str(e)
        i = s.find("rror:")
        print("FAIL", m, c, s[max(0, i - 200):i + 2500] if i > 0 else s[-2500:], flush=True)
