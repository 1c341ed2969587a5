"""which functions of the modules under verification are reached by no contract"""
import json, glob, re, subprocess, sys
sys.path.insert(0, "/verif")
from amv import build
cov = set()
for f in glob.glob("/verif/evidence/???.json"):
    t = open(f).read()
    cov |= set(re.findall(r"\b_?[A-Za-z]\w*\b", t))
ll = open(build.ir(build.sources(True))).read()
defs = re.findall(r'^define [^@]*@"?([\w.$]+)"?\(', ll, re.M)
un = [d for d in defs if d not in cov and not d.startswith("_ZNS") and not d.startswith("_ZNKSt") and not d.startswith("_ZSt") and "gnu_cxx" not in d]
print(len(defs), len(un))
print(" ".join(un))
