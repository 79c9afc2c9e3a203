#!/usr/bin/env python3
"""development aid: rebuild the 'fixed' lines of known_findings.jsonl from /repo's fix: commits"""
import json, subprocess, os
V=os.path.dirname(os.path.abspath(__file__))
MAP=json.load(open(os.path.join(V,"fixmap.json")))
out=[]; p=os.path.join(V,"known_findings.jsonl")
if os.path.exists(p):
    out=[l.strip() for l in open(p) if l.strip() and json.loads(l)["kind"]!="fixed"]
miss=[]
for l in reversed(subprocess.check_output(["git","-C","/repo","log","--format=%h %s","9c0d433.."],text=True).splitlines()):
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    pid=MAP.get(h)
    if not pid: miss.append(l); continue
    out.append(json.dumps(dict(property=pid,kind="fixed",commit=h,what="fixed: property=%s %s %s"%(pid,h,s[5:]))))
open(p,"w").write("\n".join(out)+"\n")
print(len(out),"entries; unmapped:",miss)
