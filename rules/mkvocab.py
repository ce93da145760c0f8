"""mkvocab.py FACTSDIR: write the list of known function names (helpers outside it are analysed by inlining)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import *
F = Facts(sys.argv[1])
s = sorted(set(b.npath for b in F.bodies if b.k == "fn"))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "vocab.txt"), "w").write("\n".join(s) + "\n")
print(len(s))
