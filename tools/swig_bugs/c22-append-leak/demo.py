import partio, sys
s = partio.create(); h = s.addAttribute("position", partio.VECTOR, 3); s.addParticles(400)
for i in range(400): s.set(h, i, (float(i), 0.0, 0.0))
s.sort()
def many(n):
    for i in range(n): s.findPoints((-1.0, -1.0, -1.0), (1000.0, 1.0, 1.0))
many(2); a = sys.getallocatedblocks(); many(20); sys.exit(sys.getallocatedblocks() - a > 1000)
