#!/usr/bin/env python3
"""symb.py REPLAY...: names the frames of an address sanitizer report."""
import re, sys, subprocess
for f in sys.argv[1:]:
    t = open(f, errors="replace").read()
    print(f); print(t.split("--- violation\n")[1][:300])
    for b, a in re.findall(r"#\d+ \S+ +\((/verif/build/\w+)\+(0x[0-9a-f]+)\)", t)[:30]:
        o = subprocess.run(["addr2line", "-Cfpie", b, a], capture_output=True, text=True).stdout.strip()
        print("   ", re.sub(r"\(.*?\) ?", "", o)[:200])
