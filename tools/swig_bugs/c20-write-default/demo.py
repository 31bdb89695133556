import partio, sys
s = partio.create(); h = s.addAttribute("position", partio.VECTOR, 3); s.addParticle(); s.set(h, 0, (1.0, 2.0, 3.0))
partio.write("a.bgeo", s); sys.exit(open("a.bgeo", "rb").read()[:2] == b"\x1f\x8b")
