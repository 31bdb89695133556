import partio, sys
s = partio.create(); s.addFixedAttribute("origin", partio.VECTOR, 3)
try: s.fixedAttributeInfo(1)
except IndexError: sys.exit(0)
sys.exit(1)
