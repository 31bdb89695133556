import partio, sys, gc, ctypes
class Info(ctypes.Structure): _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
mallinfo = ctypes.CDLL(None).mallinfo2; mallinfo.restype = Info
def used(): gc.collect(); return mallinfo().uordblks
s = partio.create(); h = s.addAttribute("position", partio.VECTOR, 3); s.addParticle(); s.set(h, 0, (1.0, 2.0, 3.0)); partio.write("a.bgeo", s)
def many(n):
    for i in range(n): partio.readHeaders("a.bgeo")
many(10); a = used(); many(2000); sys.exit(used() - a > 200000)
