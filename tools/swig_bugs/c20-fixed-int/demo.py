import partio, sys
s = partio.create(); h = s.addFixedAttribute("seed", partio.INT, 1); s.setFixed(h, (16777217,)); sys.exit(s.getFixed(h) != (16777217,))
