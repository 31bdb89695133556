import partio, sys
s = partio.create(); h = s.addAttribute("position", partio.VECTOR, 3); s.addParticle(); s.set(h, 0, (1.0, 2.0, 3.0)); s.sort()
junk = object(); before = sys.getrefcount(junk)
for i in range(20):
    try: s.findNPoints((0.0, junk, 0.0), 1, 1.0); sys.exit(1)
    except ValueError: pass
sys.exit(sys.getrefcount(junk) != before)
