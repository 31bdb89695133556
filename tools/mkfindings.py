#!/usr/bin/env python3
# Writes the "fixed:" part of known-findings.txt from the fix commits; findings are kept by hand.
import subprocess,re,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP=[("particle set that runs out","C15"),("renaming an indexed","C15"),("interleaved","C15"),("gzip header flags","C07"),("truncated or damaged gzip","C10"),
 ("compressed stream whose file","C12"),("writing reports","C12"),("bgeo: trunc","C10"),("geo: position-only","C06"),("pda: trunc","C10"),("rib: failed","C12"),("pdc: trunc","C09"),
 ("pdb: word","C07"),("prt: channel","C07"),("ptc: trunc","C10"),("pts: colours","C07"),("mc: trunc","C10"),("bin: trunc","C10"),("geo: a header","C10"),("ptc with a","C11"),
 ("failed cached read","C02"),("writer tables","C03"),("a table holds twice","C05"),("clones of","C16"),("merge:","C16"),("left empty","C12"),("command line","C18"),("iterators: postfix","C15"),("sort releases","C17"),("another shape","C18"),("while parsing pts","C02"),("attrNameMap","C20"),("points given from Python","C22"),("particle indices and values given","C22"),("not UTF-8","C20"),("let Python own","C22"),("raise Python exceptions","C22"),("partedit","C23"),("partinspect","C23"),("partview","C24"),("partjson","C20"),("free the gzip stream","C21"),]
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s","300f6cd..HEAD"],capture_output=True,text=True).stdout.split("\n")
out=["# Genuine defects of the pinned tree. 'fixed:' entries were repaired in /repo and suppress nothing.",
     "# 'finding: property=<id> class=<regular expression over violation classes> <what fails>' entries are reported as KNOWN-FINDING."]
for l in log:
    if not l: continue
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    p=[v for k,v in MAP if k in s]
    assert p,s
    out.append("fixed: property=%s %s %s"%(p[0],h,s[5:]))
f=os.path.join(H,"known-findings.txt")
keep=[l.rstrip("\n") for l in open(f) if l.startswith("finding:")] if os.path.exists(f) else []
open(f,"w").write("\n".join(out+keep)+"\n")
