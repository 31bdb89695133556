"""Scenarios of the python simulator.  Every decision is drawn from the tape (_sim.choose)."""
import sys, io, os, gc, json, struct, builtins
import _sim, partio, partjson

VECTOR, FLOAT, INT, STR = partio.VECTOR, partio.FLOAT, partio.INT, partio.INDEXEDSTR
FMT = "bgeo bhclassic itbl atbl pdb pdb32 pdb64 bin prt ptc ptf pdc geo hclassic pda rib mc pts".split()
BGEO = 0
TEXT = ("geo", "hclassic", "pda", "rib", "pts")
WRITABLE = [f for f in FMT if f not in ("mc", "pts")]
GZ = [f for f in FMT if f not in ("bin", "prt")]
CMP_ANYORDER, CMP_NOFIXED = 2 + 32, 64
choose = _sim.choose
def pick(seq): return seq[choose(len(seq))]

class Raised:
    """An exception a call ended with."""
    def __init__(self, e): self.kind = type(e); self.text = str(e)[:200]

def call(phase, fn, *args, allowed=()):
    """One call of the code under test; an exception not allowed here is a violation."""
    _sim.enter(phase)
    try:
        r = fn(*args)
        _sim.leave()
        return r
    except BaseException as e:
        _sim.leave()
        if isinstance(e, tuple(allowed)):
            e.__traceback__ = None
            return Raised(e)
        if e.__context__ is not None: e = e.__context__ if type(e) is SystemError else e
        _sim.violation("exception:" + phase.replace(" ", "-"), "%s raises %s: %s" % (phase, type(e).__name__, e))

def isText(x):
    try: x.encode(); return True
    except UnicodeEncodeError: return False
def allText(m): return all(isText(x) for a in m["attrs"] + m["fixed"] for x in [a[0]] + a[4])
def bits(v): return struct.pack("<f", v) if v == v else b"nan"
def same(kind, a, b):
    if len(a) != len(b): return False
    if kind in (INT, STR): return all(y is None or type(x) is int and x == y for x, y in zip(a, b))
    return all(y is None or x == y and bits(x) == bits(y) or (x != x and y != y) for x, y in zip(a, b)) # None: any value

def check(m, s, where, order=True, values=True, fixedValues=True):
    """Compares what the binding says about set s with the model m."""
    bad = lambda t: _sim.violation("binding:" + where.replace(" ", "-"), where + ": " + t)
    def go():
        if values and s.numParticles() != m["n"]: bad("numParticles is %d, not %d" % (s.numParticles(), m["n"]))
        for kind, num, info in (("attrs", s.numAttributes, s.attributeInfo), ("fixed", s.numFixedAttributes, s.fixedAttributeInfo)):
            want = m[kind]
            if num() != len(want): bad("%d %s, not %d" % (num(), kind, len(want)))
            if order:
                for i, a in enumerate(want):
                    h = info(i)
                    if (h.name, h.type, h.count) != tuple(a[:3]): bad("attribute %d is %r, not %r" % (i, (h.name, h.type, h.count), tuple(a[:3])))
            for name, typ, cnt, data, strs in want:
                if not isText(name): continue # cannot be asked for, not being UTF-8
                h = info(name)
                if h is None: bad("attribute %r is not found" % name)
                if (h.name, h.type, h.count) != (name, typ, cnt): bad("attribute %r is %r" % (name, (h.name, h.type, h.count)))
                if not values or kind == "fixed" and not fixedValues: continue
                if kind == "attrs":
                    for i in range(m["n"]):
                        v = s.get(h, i)
                        if type(v) is not tuple or not same(typ, v, data[i * cnt:(i + 1) * cnt]): bad("%r of particle %d is %r, not %r" % (name, i, v, data[i * cnt:(i + 1) * cnt]))
                    table, look = s.indexedStrs, s.lookupIndexedStr
                else:
                    v = s.getFixed(h)
                    if type(v) is not tuple or not same(typ, v, data): bad("fixed %r is %r, not %r" % (name, v, data))
                    table, look = s.fixedIndexedStrs, s.lookupFixedIndexedStr
                if typ == STR:
                    t = table(h)
                    if t != strs: bad("strings of %r are %r, not %r" % (name, t, strs))
                    for x in strs:
                        if not isText(x): continue
                        k = look(h, x)
                        if k < 0 or k >= len(strs) or strs[k] != x: bad("looking up %r of %r gives %d" % (x, name, k))
                    if "no such string" not in strs and look(h, "no such string") != -1: bad("an unknown string is found")
            if info("no such attribute") is not None and not any(a[0] == "no such attribute" for a in want): bad("an unknown attribute is found")
    call("query " + where, go)

def plain(x):
    """Numbers in the forms python programs pass them."""
    return x

def build(m, where="build"):
    """Builds the set through the binding, along a drawn path."""
    how, seq, ints = choose(3), (tuple, list)[choose(2)], choose(3) == 2
    def go():
        s = partio.create()
        idx = list(range(m["n"]))
        if how == 0: s.addParticles(m["n"]) if m["n"] else None
        hs = []
        for name, typ, cnt, data, strs in m["attrs"]:
            h = s.addAttribute(name, typ, cnt); hs.append(h)
            for k, x in enumerate(strs):
                if x in strs[:k]: s.setIndexedStr(h, s.registerIndexedStr(h, "to be renamed %d" % k), x)
                else: s.registerIndexedStr(h, x)
        fs = []
        for name, typ, cnt, data, strs in m["fixed"]:
            h = s.addFixedAttribute(name, typ, cnt); fs.append(h)
            for k, x in enumerate(strs):
                if x in strs[:k]: s.setFixedIndexedStr(h, s.registerFixedIndexedStr(h, "to be renamed %d" % k), x)
                else: s.registerFixedIndexedStr(h, x)
        def conv(typ, v):
            if ints and typ not in (INT, STR): v = [int(x) if x == x and abs(x) < 2**24 and float(int(x)) == x and bits(float(int(x))) == bits(x) else x for x in v]
            return seq(v)
        if how == 1:
            for i in idx:
                j = s.addParticle()
                if j != i: _sim.violation("binding:addParticle", "particle %d gets number %r" % (i, j))
        elif how == 2 and m["n"]:
            k = 1 + choose(m["n"]); s.addParticles(k)
            if m["n"] > k: s.addParticles(m["n"] - k)
        if choose(2): hs = [s.attributeInfo(a[0]) for a in m["attrs"]]
        for h, (name, typ, cnt, data, strs) in zip(hs, m["attrs"]):
            for i in idx: s.set(h, i, conv(typ, data[i * cnt:(i + 1) * cnt]))
        for h, (name, typ, cnt, data, strs) in zip(fs, m["fixed"]): s.setFixed(h, conv(typ, data))
        return s
    return call(where, go)

def expectSet(m, s, where, flags=0):
    d = _sim.compare(m["id"], s.ptr(), flags)
    if d: _sim.violation("content:" + where.replace(" ", "-"), where + ": " + d)

# ------------------------------------------------------------------ C20
def c20read():
    f = _sim.sample(120); m = f["model"]
    if m is None: return
    _sim.note("read %s %s" % (f["path"], _sim.describe(m["id"]))); before = _sim.get(f["path"])
    for k in range(1 + choose(2)):
        _sim.slow(1, 0); way = choose(5); path = f["path"]
        if way == 0: s = call("read", partio.read, path)
        elif way == 1: s = call("read quietly", partio.read, path, False)
        elif way == 2:
            s, err = call("readVerbose", partio.readVerbose, path)
            if s is not None and err: pass
        elif way == 3: s, err = call("readCachedVerbose", partio.readCachedVerbose, path, False)
        else: s = call("readHeaders", partio.readHeaders, path)
        if s is None: _sim.violation("null:" + f["fmt"], "python gets nothing for a file C++ reads")
        if way < 4: expectSet(m, s, "read " + f["fmt"]); check(m, s, "read " + f["fmt"])
        else: check(m, s, "headers " + f["fmt"], values=False)
        if way < 3 and choose(2): jsonTrip(s, m, "read " + f["fmt"])
        s = None; gc.collect()
        if _sim.handles(): _sim.violation("handles:read", "a file stays open")
    if _sim.get(f["path"]) != before: _sim.violation("file-changed", "reading changed the file")

def c20build():
    fmt = pick(WRITABLE); m = _sim.gen(FMT.index(fmt), 60); gz = fmt in GZ and choose(3) == 2
    _sim.note("build, write %s %s" % (fmt, _sim.describe(m["id"])))
    s = build(m); expectSet(m, s, "build"); check(m, s, "build")
    if choose(2):
        ref, path = "/sim/ref." + fmt, "/sim/py." + fmt
        force = gz and choose(2)
        if gz and not force: ref += ".gz"; path += ".gz"
        _sim.writeref(m["id"], ref, 1 if force else 0); _sim.slow(0, 1)
        args = (False, bool(choose(2)))[:choose(3)] if not force else (True, bool(choose(2)))[:1 + choose(2)]
        call("write", partio.write, path, s, *args)
        a, b = _sim.get(ref), _sim.get(path)
        if a != b: _sim.violation("bytes:" + fmt, "python writes %s bytes, C++ %s, for the same set" % (b and len(b), a and len(a)))
        expectSet(m, s, "written set")
    if choose(2): jsonTrip(s, m, "build")
    if choose(3) == 2:
        for k in range(1 + choose(4)): edit(m, s)
        expectSet({"id": _sim.model(s.ptr())["id"]}, s, "edited")

def edit(m, s):
    """Renames, re-sets and re-reads single things."""
    kinds = [a for a in m["attrs"] if a[1] == STR]
    if kinds:
        a = pick(kinds); h = s.attributeInfo(a[0]); k = choose(len(a[4])); new = "renamed %d" % choose(1000)
        call("setIndexedStr", s.setIndexedStr, h, k, new)
        t = call("indexedStrs", s.indexedStrs, h)
        if t[k] != new or [x for i, x in enumerate(t) if i != k] != [x for i, x in enumerate(a[4]) if i != k]: _sim.violation("binding:rename", "renaming string %d of %r gives %r" % (k, a[4], t))
        a[4][k] = new
        if call("lookupIndexedStr", s.lookupIndexedStr, h, new) not in [i for i, x in enumerate(a[4]) if x == new]: _sim.violation("binding:rename-lookup", "a renamed string is not found")
    nums = [a for a in m["attrs"] if a[1] != STR]
    if nums and m["n"]:
        a = pick(nums); h = s.attributeInfo(a[0]); i = choose(m["n"])
        v = tuple(choose(1000) - 500 if a[1] == INT else _sim.number() for _ in range(a[2]))
        call("set", s.set, h, i, v); g = call("get", s.get, h, i)
        if not same(a[1], g, v): _sim.violation("binding:set", "%r set to %r reads as %r" % (a[0], v, g))

def jsonTrip(s, m, where):
    """toJson, perhaps through text, fromJson."""
    if not allText(m): return # json is text
    if any(len(set(a[4])) != len(a[4]) for a in m["attrs"] + m["fixed"]): return # a table with a string twice comes back with it once
    before = _sim.model(s.ptr())
    d = call("toJson", partjson.toJson, s)
    text = choose(3)
    if text:
        t = json.dumps(d, indent=2, sort_keys=True) if text == 1 else json.dumps(d)
        d = json.loads(t)
    err, sys.stderr = sys.stderr, io.StringIO()
    try: q = call("fromJson", partjson.fromJson, d); said = sys.stderr.getvalue()
    finally: sys.stderr = err
    if said: _sim.violation("json:message", where + ": converting back complains: " + said[:300])
    x = _sim.compare(m["id"], q.ptr(), 0 if text != 1 else CMP_ANYORDER)
    if x: _sim.violation("json:content", where + ": to json and back: " + x)
    x = _sim.same(before["id"], _sim.model(s.ptr())["id"], 0)
    if x: _sim.violation("json:source-changed", where + ": converting to json changed the set: " + x)
    e = call("toJson again", partjson.toJson, q)
    if json.loads(json.dumps(e)) != json.loads(json.dumps(partjson.toJson(s))) and not hasNan(m): _sim.violation("json:again", where + ": converting the result again gives other json")

def c20edited():
    """Json as people edit it: what does not fit is skipped with a message, everything else arrives."""
    m = distinct(_sim.gen(BGEO, 12)); s = build(m)
    _sim.note("edited json of " + _sim.describe(m["id"]))
    d = json.loads(json.dumps(call("toJson", partjson.toJson, s))); messages = 0
    at = lambda kind: pick([a for a in m[kind] if a is not None]) if m[kind] else None
    edits = choose(4)
    for k in range(edits):
        what = choose(7); a, f = at("attrs"), at("fixed"); i = choose(m["n"]) if m["n"] else None
        if what == 0 and a:
            del d["attributes"][a[0]]; m["attrs"].remove(a); messages += m["n"] > 0 or a[1] == STR
        elif what == 1 and a and i is not None and a[0] in d["particles"][str(i)]:
            d["particles"][str(i)][a[0]] = [0] * (a[2] + 1 if choose(2) else max(0, a[2] - 1)); messages += len(d["particles"][str(i)][a[0]]) != a[2]
            a[3][i * a[2]:(i + 1) * a[2]] = [None] * a[2] if len(d["particles"][str(i)][a[0]]) != a[2] else [0] * a[2]
        elif what == 2 and a and i is not None and a[0] in d["particles"][str(i)]:
            del d["particles"][str(i)][a[0]]; a[3][i * a[2]:(i + 1) * a[2]] = [None] * a[2]
        elif what == 3 and f:
            del d["fixedAttributes"][f[0]]; m["fixed"].remove(f); messages += f[1] == STR
        elif what == 4 and f:
            d["fixedAttributes"][f[0]]["value"] = [0] * (f[2] + 1); f[3][:] = [None] * f[2]; messages += 1
        elif what == 5 and a and a[1] == STR and a[0] in d["indexedStrings"]:
            del d["indexedStrings"][a[0]]; a[4][:] = []
        elif what == 6 and i is not None:
            d["particles"][str(i)]["no such attribute"] = [1]; messages += 1
    err, sys.stderr = sys.stderr, io.StringIO()
    try: q = call("fromJson edited", partjson.fromJson, d); said = sys.stderr.getvalue()
    finally: sys.stderr = err
    if messages and edits == 1 and not said: _sim.violation("json:skipped-silently", "what does not fit is skipped without a message")
    check(m, q, "edited json")

def distinct(m):
    """The set with every string once in its table."""
    return _sim.distinct(m["id"])

def hasNan(m): return any(v != v for a in m["attrs"] + m["fixed"] for v in a[3])

class FakeFiles:
    """Python's own file access on the simulated disk, while partjson's main runs."""
    def __init__(self, failOpen=None, failWrite=-1): self.failOpen, self.failWrite, self.opened = failOpen, failWrite, 0
    def exists(self, p): return str(p) in _sim.files()
    def open(self, p, mode="r", *a, **k):
        p = str(p)
        if not p.startswith("/sim/"): return self.real["open"](p, mode, *a, **k)
        if p == self.failOpen: raise OSError(13, "Permission denied", p)
        me = self; self.opened += 1
        class F(io.BytesIO):
            def __init__(f): io.BytesIO.__init__(f, _sim.get(p) if "r" in mode or "a" in mode else b""); f.left = me.failWrite
            def write(f, b):
                if f.left >= 0:
                    if len(b) > f.left: io.BytesIO.write(f, b[:f.left]); f.left = 0; raise OSError(28, "No space left on device")
                    f.left -= len(b)
                return io.BytesIO.write(f, b)
            def close(f):
                if not f.closed and ("w" in mode or "a" in mode or "+" in mode): _sim.put(p, f.getvalue())
                io.BytesIO.close(f)
        if "r" in mode and not self.exists(p): raise FileNotFoundError(2, "No such file or directory", p)
        if "w" in mode: _sim.put(p, b"")
        return F() if "b" in mode else io.TextIOWrapper(F(), encoding="utf-8", write_through=True)
    def __enter__(self):
        path = os.path
        self.real = {"open": builtins.open, "ioopen": io.open, "exists": path.exists, "isfile": path.isfile, "access": os.access, "stat": os.stat}
        builtins.open = io.open = self.open
        ours = lambda p: isinstance(p, (str, bytes, os.PathLike)) and os.fspath(p).startswith("/sim/")
        path.exists = lambda p: self.exists(p) if ours(p) else self.real["exists"](p)
        path.isfile = lambda p: self.exists(p) if ours(p) else self.real["isfile"](p)
        os.access = lambda p, m, **k: self.exists(p) if ours(p) else self.real["access"](p, m, **k)
        return self
    def __exit__(self, *a):
        builtins.open, io.open = self.real["open"], self.real["ioopen"]
        os.path.exists, os.path.isfile, os.access = self.real["exists"], self.real["isfile"], self.real["access"]

def jsonMain(args, files, phase):
    """partjson's own main; returns its exit status and what it said."""
    old = sys.argv, sys.stdout, sys.stderr
    sys.argv, sys.stdout, sys.stderr = ["partjson"] + args, io.StringIO(), io.StringIO()
    status = 0; _sim.enter(phase)
    try:
        with files: partjson.main()
    except SystemExit as e: status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except Exception as e: status = 1; sys.stderr.write("%s: %s" % (type(e).__name__, e)); e.__traceback__ = None
    finally:
        _sim.leave(); said = sys.stdout.getvalue() + sys.stderr.getvalue(); sys.argv, sys.stdout, sys.stderr = old
    _sim.evt("%s -> %d, says %d" % (phase, status, len(said)))
    gc.collect()
    return status, said

def c20main():
    fmt = pick(("bgeo", "geo", "bhclassic", "ptc", "pdb")); m = _sim.gen(FMT.index(fmt), 30); src = "/sim/in." + fmt
    _sim.note("partjson %s %s" % (fmt, _sim.describe(m["id"])))
    _sim.writeref(m["id"], src, 0)
    _sim.heal(); s = partio.read(src)
    if s is None: return
    want = _sim.model(s.ptr()); cm = s; data0 = _sim.get(src)
    if not allText(want) or any(len(set(a[4])) != len(a[4]) for a in want["attrs"] + want["fixed"]): return
    verbose = ["-v"] if choose(2) else []
    st, said = jsonMain(verbose + [src, "/sim/mid.json"], FakeFiles(), "partjson to json")
    if st or _sim.get("/sim/mid.json") is None: _sim.violation("tool:to-json", "converting a good %s file to json ends with %d: %s" % (fmt, st, said[:300]))
    if _sim.get(src) != data0: _sim.violation("tool:input-changed", "converting changed the input")
    out = pick(("bgeo", "geo", "bhclassic", "ptc", "pdb")) if choose(3) == 2 else "bgeo"
    zip = ["-c"] if choose(3) == 2 else []
    if out == "bgeo" and any(a[0] == "position" and a[1] == VECTOR and a[2] == 3 for a in want["attrs"]): # others bgeo does not hold
        st, said = jsonMain(verbose + zip + ["/sim/mid.json", "/sim/out." + out], FakeFiles(), "partjson from json")
        if st: _sim.violation("tool:from-json", "converting json to %s ends with %d: %s" % (out, st, said[:300]))
        if zip and (_sim.get("/sim/out." + out) or b"")[:2] != b"\x1f\x8b": _sim.violation("tool:compress", "the output is not compressed")
        q = partio.read("/sim/out." + out)
        if q is None: _sim.violation("tool:unreadable", "the file made from json is not read")
        x = _sim.compare(want["id"], q.ptr(), CMP_ANYORDER)
        if x: _sim.violation("tool:content", "%s to json to bgeo: %s" % (fmt, x))
    # and when something is wrong
    for k in range(choose(3)):
        bad = choose(5); _sim.heal()
        if bad == 0:
            st, said = jsonMain(["/sim/none." + fmt, "/sim/o.json"], FakeFiles(), "partjson missing input")
            if st == 0: _sim.violation("tool:missing", "a missing input ends with status 0")
        elif bad == 1:
            n = len(_sim.get("/sim/mid.json")); cut = choose(n); _sim.remove("/sim/full.json")
            st, said = jsonMain([src, "/sim/full.json"], FakeFiles(failWrite=cut), "partjson full disk")
            if st == 0: _sim.violation("tool:full", "an output cut after %d of %d bytes ends with status 0" % (cut, n))
        elif bad == 2:
            st, said = jsonMain([src, "/sim/mid.unknown"], FakeFiles(failOpen="/sim/mid.unknown"), "partjson cannot create")
            if st == 0: _sim.violation("tool:create", "an output that cannot be created ends with status 0")
        elif bad == 3:
            b = _sim.get("/sim/mid.json"); _sim.put("/sim/cut.json", b[:choose(len(b))]); _sim.remove("/sim/c.bgeo")
            st, said = jsonMain(["/sim/cut.json", "/sim/c.bgeo"], FakeFiles(), "partjson cut json")
            if st == 0: _sim.violation("tool:cut", "json cut short is converted")
        else:
            _sim.put("/sim/cut." + fmt, data0[:choose(len(data0))])
            ok = partio.read("/sim/cut." + fmt, False) is not None
            st, said = jsonMain(["/sim/cut." + fmt, "/sim/c.json"], FakeFiles(), "partjson cut input")
            if not ok and st == 0: _sim.violation("tool:damaged", "an input that cannot be read ends with status 0")
        if _sim.get(src) != data0: _sim.violation("tool:input-changed", "a failing conversion changed the input")

def withPositions(n):
    m = _sim.gen(BGEO, n)
    for k in range(6):
        if any(a[0] == "position" and a[1] == VECTOR and a[2] == 3 for a in m["attrs"]) and m["n"] > 0 and not any(a[0] == "position" and any(v != v or abs(v) == float("inf") for v in a[3]) for a in m["attrs"]): return m
        m = _sim.gen(BGEO, n)
    return None

def c20calls():
    m = withPositions(60)
    if m is None: return
    s = build(m); p = s.ptr(); _sim.note("calls on " + _sim.describe(m["id"])); pos = [a for a in m["attrs"] if a[0] == "position"][0][3]
    for k in range(1 + choose(4)):
        what = choose(5)
        if what == 0:
            call("sort", s.sort)
            c = tuple(pos[3 * choose(m["n"]):][:3]) if choose(2) else tuple(float(choose(400) - 200) for _ in range(3))
            r, n = pick((0.0, 1.0, 50.0, 1e6)), 1 + choose(12)
            got, want = call("findNPoints", s.findNPoints, c, n, r), _sim.refNPoints(p, c, n, r)
            if [tuple(x) for x in got] != want: _sim.violation("binding:findNPoints", "python gets %r, C++ %r" % (got, want))
            lo = tuple(float(choose(400) - 300) for _ in range(3)); hi = tuple(x + choose(500) for x in lo)
            got, want = call("findPoints", s.findPoints, lo, hi), _sim.refPoints(p, lo, hi)
            if got != want: _sim.violation("binding:findPoints", "python gets %r, C++ %r" % (got, want))
            mm = _sim.model(p); m = dict(mm)
        elif what == 1:
            names = [a[0] for a in m["attrs"]]; d = None
            if choose(2): d = {n: "mapped %d" % i for i, n in enumerate(names) if choose(2) and n}
            parts = choose(3)
            if parts == 2: q = call("cloneSchema", partio.cloneSchema, s, d) if d is not None or choose(2) else call("cloneSchema", partio.cloneSchema, s)
            else: q = call("clone", partio.clone, s, bool(parts), d) if d is not None or choose(2) else call("clone", partio.clone, s, bool(parts))
            ref = _sim.refClone(p, -1 if parts == 2 else parts, d); expectSet(ref, q, "clone", CMP_NOFIXED if parts == 2 else 0); check(ref, q, "clone", fixedValues=parts != 2); expectSet(m, s, "cloned from")
        elif what == 2:
            o = _sim.gen(BGEO, 20); t = build(o); ints = [a[0] for a in m["attrs"] if a[1] == INT and a[2] == 1]; i0 = pick(ints) if ints and choose(2) else ""
            i1 = pick(ints) if ints and choose(2) else ""
            ref = _sim.refMerge(p, t.ptr(), i0, i1); q = call("clone", partio.clone, s, True)
            call("merge", partio.merge, q, t, i0, i1) if i0 or i1 or choose(2) else call("merge", partio.merge, q, t)
            expectSet(ref, q, "merge"); expectSet(o, t, "merged from")
        elif what == 3 and not any(a[0] in ("id", "velocity") and False for a in m["attrs"]):
            ids = [a for a in m["attrs"] if a[0] == "id"]
            if ids and (ids[0][1] != INT or ids[0][2] != 1): continue
            if m["n"] > 25 or any(len(set(x[4])) != len(x[4]) for x in m["attrs"]): continue # the reference works on a clone, which holds every string once
            args = (1 + choose(4), pick((1.0, 10.0, 100.0)), pick((0.5, 5.0)), choose(3), pick((1.0, 4.0)))
            call("sort", s.sort); ref = _sim.refCluster(p, *args); q = call("computeClustering", partio.computeClustering, s, *args)
            if (q is None) != (ref is None): _sim.violation("binding:cluster", "python gets %r" % q)
            if q is not None: expectSet(ref, q, "cluster"); check(ref, q, "cluster")
            m = _sim.model(p)
        else:
            edit(m, s); m = _sim.model(p)
        check(m, s, "after calls")

def c20():
    pick((c20read, c20read, c20build, c20build, c20main, c20calls, c20edited))()
    gc.collect()
    if _sim.handles(): _sim.violation("handles", "a file stays open")

# ------------------------------------------------------------------ C22
GOOD = (TypeError, ValueError, IndexError, OverflowError, KeyError, AttributeError, RuntimeError, MemoryError)

def misuse(m, s, n):
    """Calls no program should make; each has to raise an ordinary exception and change nothing."""
    nums = [a for a in m["attrs"] if a[1] in (INT, STR)]; flts = [a for a in m["attrs"] if a[1] in (VECTOR, FLOAT)]
    a = pick(m["attrs"]) if m["attrs"] else None; h = s.attributeInfo(a[0]) if a else None
    good = [0] * a[2] if a else []
    fx = pick(m["fixed"]) if m["fixed"] else None; fh = s.fixedAttributeInfo(fx[0]) if fx else None; fgood = [0] * fx[2] if fx else []
    junk = (lambda: "x" * n, lambda: None, lambda: object(), lambda: b"1" * n, lambda: [1], lambda: {}, lambda: 1j)[choose(7)]()
    class Broken: # a sequence whose items cannot be had
        def __init__(self, n): self.n = n
        def __len__(self): return self.n
        def __getitem__(self, i): raise RuntimeError("no item")
    table = [
        ("set wrong count", lambda: s.set(h, 0, tuple(good + [1])), a and m["n"]),
        ("set nothing", lambda: s.set(h, 0, ()), a and m["n"] and a[2] > 0),
        ("set junk", lambda: s.set(h, 0, tuple(good[:-1] + [junk])), a and m["n"] and a[2] > 0),
        ("set broken sequence", lambda: s.set(h, 0, Broken(a[2])), a and m["n"] and a[2] > 0),
        ("set no sequence", lambda: s.set(h, 0, 5), a and m["n"]),
        ("set none", lambda: s.set(h, 0, None), a and m["n"]),
        ("set huge", lambda: s.set(h, 0, tuple(good[:-1] + [10 ** 400])), a and m["n"] and a[2] > 0),
        ("set too large", lambda: s.set(h, 0, tuple(good[:-1] + [2 ** 70])), a and m["n"] and a[2] > 0 and a[1] in (INT, STR)),
        ("set float in int", lambda: s.set(h, 0, tuple(good[:-1] + [1.5])), a and m["n"] and a[2] > 0 and a[1] in (INT, STR)),
        ("set past the end", lambda: s.set(h, m["n"] + choose(3), tuple(good)), a),
        ("set negative", lambda: s.set(h, -1 - choose(3), tuple(good)), a),
        ("set by text", lambda: s.set(h, "0", tuple(good)), a),
        ("get past the end", lambda: s.get(h, m["n"] + choose(100)), a),
        ("get negative", lambda: s.get(h, -1 - choose(3)), a),
        ("get by text", lambda: s.get(h, "0"), a),
        ("get huge", lambda: s.get(h, 2 ** 80), a),
        ("get by nothing", lambda: s.get(None, 0), True),
        ("setFixed wrong count", lambda: s.setFixed(fh, tuple(fgood + [1])), fx),
        ("setFixed junk", lambda: s.setFixed(fh, tuple(fgood[:-1] + [junk])), fx and fx[2] > 0),
        ("setFixed huge", lambda: s.setFixed(fh, tuple(fgood[:-1] + [10 ** 400])), fx and fx[2] > 0),
        ("setFixed broken sequence", lambda: s.setFixed(fh, Broken(fx[2])), fx and fx[2] > 0),
        ("setFixed no sequence", lambda: s.setFixed(fh, 7), fx),
        ("attributeInfo past the end", lambda: s.attributeInfo(len(m["attrs"]) + choose(3)), True),
        ("attributeInfo negative", lambda: s.attributeInfo(-1 - choose(3)), True),
        ("fixedAttributeInfo past the end", lambda: s.fixedAttributeInfo(len(m["fixed"]) + choose(3)), True),
        ("attributeInfo of junk", lambda: s.attributeInfo(junk), not isinstance(junk, (str, bytes))),
        ("findNPoints short", lambda: s.findNPoints((0.0,) * choose(3), 3, 1.0), True),
        ("findNPoints long", lambda: s.findNPoints((0.0,) * (4 + choose(60)), 3, 1.0), True),
        ("findNPoints junk", lambda: s.findNPoints((0.0, junk, 0.0), 3, 1.0), True),
        ("findNPoints broken sequence", lambda: s.findNPoints(Broken(3), 3, 1.0), True),
        ("findNPoints no sequence", lambda: s.findNPoints(3, 3, 1.0), True),
        ("findPoints short", lambda: s.findPoints((0.0,) * choose(3), (1.0,) * 3), True),
        ("findPoints long", lambda: s.findPoints((0.0,) * 3, (1.0,) * (4 + choose(60))), True),
        ("findPoints junk", lambda: s.findPoints((0.0, 0.0, junk), (1.0,) * 3), True),
        ("read junk", lambda: partio.read(junk), not isinstance(junk, (str, bytes)) and junk is not None),
        ("write junk", lambda: partio.write("/sim/x.bgeo", junk), True),
        ("clone junk", lambda: partio.clone(junk, True), True),
        ("merge junk", lambda: partio.merge(s, junk), True),
        ("registerIndexedStr junk", lambda: s.registerIndexedStr(h, 5), a),
        ("addAttribute junk", lambda: s.addAttribute(5, FLOAT, 1), True),
    ]
    name, fn, ok = table[n % len(table)]
    if not ok: return len(table)
    r = call(name, fn, allowed=GOOD)
    if not isinstance(r, Raised): _sim.violation("no-exception:" + name.replace(" ", "-"), "%s: no exception is raised, the result is %r" % (name, type(r)))
    _sim.evt("%s raises %s" % (name, r.kind.__name__))
    d = _sim.compare(m["id"], s.ptr(), 0)
    if d: _sim.violation("changed:" + name.replace(" ", "-"), "%s: raised %s but changed the set: %s" % (name, r.kind.__name__, d))
    return len(table)

def c22odd():
    """Odd but allowed: sequences with code of their own, shared cached sets, objects outliving each other."""
    m = withPositions(12)
    if m is None: return
    s = build(m); _sim.note("odd uses of " + _sim.describe(m["id"]))
    for k in range(1 + choose(3)):
        what = choose(5); a = pick(m["attrs"]); h = s.attributeInfo(a[0]); i = choose(m["n"])
        if what == 0: # the sequence adds particles while it is read
            more = 1 + choose(400); vals = [choose(100) for _ in range(a[2])] if a[1] in (INT, STR) else [float(choose(100)) for _ in range(a[2])]
            class Growing:
                def __init__(self): self.grown = 0
                def __len__(self): return a[2]
                def __getitem__(self, j):
                    if not self.grown and j == a[2] // 2: self.grown = 1; s.addParticles(more)
                    if j >= a[2]: raise IndexError()
                    return vals[j]
            call("set growing", s.set, h, i, Growing())
            if a[2]:
                if s.numParticles() != m["n"] + more: _sim.violation("odd:grow", "%d particles, not %d" % (s.numParticles(), m["n"] + more))
                a[3][i * a[2]:(i + 1) * a[2]] = vals
                for x in m["attrs"]:
                    x[3].extend([None] * (more * x[2]))
                m["n"] += more
        elif what == 1: # two holders of a cached set
            path = "/sim/odd.bgeo"; _sim.writeref(_sim.gen(BGEO, 10)["id"], path, 0)
            p, e = call("readCachedVerbose", partio.readCachedVerbose, path, False); q, e = call("readCachedVerbose", partio.readCachedVerbose, path, False)
            if p is not None:
                w = _sim.model(p.ptr()); p = None; gc.collect(); check(w, q, "other holder"); q = None; gc.collect()
        elif what == 2: # attribute handles and iterators outlive their set
            t = build(m) if all(v is not None for x in m["attrs"] for v in x[3]) else None
            if t is None: continue
            g = t.attributeInfo(a[0]); it = call("addParticles", t.addParticles, 3); t = None; gc.collect()
            if (g.name, g.type, g.count) != a[:3]: _sim.violation("odd:handle", "a handle changes when its set is gone: %r" % ((g.name, g.type, g.count),))
            it = None; gc.collect()
        elif what == 3: # bool, subclasses and other sequences
            class I(int): pass
            class F(float): pass
            vals = [I(7)] * a[2] if a[1] in (INT, STR) else [F(1.5)] * a[2]
            if a[1] == INT and a[2] and choose(2): vals[0] = True
            call("set subclasses", s.set, h, i, pick((list, tuple))(vals)); a[3][i * a[2]:(i + 1) * a[2]] = [int(v) if a[1] in (INT, STR) else float(v) for v in vals]
        else: # the same call with keywords of a plain kind
            if len(m["attrs"]) and a[1] != STR: call("set by position", s.set, s.attributeInfo([x[0] for x in m["attrs"]].index(a[0])), i, tuple(a[3][i * a[2]:(i + 1) * a[2]])) if None not in a[3][i * a[2]:(i + 1) * a[2]] else None
        check(m, s, "after odd uses")

def c22misuse():
    m = _sim.gen(BGEO, 12); s = build(m); _sim.note("misuse of " + _sim.describe(m["id"]))
    for k in range(1 + choose(5)): misuse(m, s, choose(1000))
    check(m, s, "after misuse")
    good = build(m); expectSet(m, good, "later build")

def c22fail():
    """Missing, cut, damaged files and failing devices, seen from python."""
    f = _sim.sample(40); m = f["model"]
    if m is None: return
    data = _sim.get(f["path"]); path = f["path"]; _sim.note("failing reads of " + path)
    for k in range(1 + choose(3)):
        _sim.put(path, data); _sim.heal(); what = choose(5)
        if what == 0: _sim.remove(path)
        elif what == 1: _sim.put(path, data[:choose(len(data) + 1)])
        elif what == 2: _sim.damage(path); _sim.limit(1 << 24)
        elif what == 3: _sim.fault("eioread", choose(4))
        else: _sim.fault("open", 0)
        way = choose(4)
        if way == 0: s, err = call("read", partio.read, path, bool(choose(2)), allowed=(MemoryError,)), None
        elif way == 3: s, err = call("readHeaders", partio.readHeaders, path, allowed=(MemoryError,)), None
        else:
            r = call("readVerbose", (partio.readVerbose, partio.readHeadersVerbose)[way - 1], path, allowed=(MemoryError,))
            s, err = r if isinstance(r, tuple) else (r, None)
        if isinstance(s, Raised): s = None; continue
        if s is None and err == "": _sim.violation("silent", "nothing is returned and the message is empty")
        if s is not None and what in (0, 4): _sim.violation("invented", "a set is returned for a file that cannot be opened")
        if s is not None and what == 2:
            # whatever came out of a damaged file can be looked at
            def look():
                n = s.numParticles()
                for i in range(s.numAttributes()):
                    h = s.attributeInfo(i); h.name; h.count
                    if way < 2:
                        for j in sorted(set((0, n // 2, n - 1))):
                            if 0 <= j < n: s.get(h, j)
                        if h.type == STR: s.indexedStrs(h)
                for i in range(s.numFixedAttributes()):
                    h = s.fixedAttributeInfo(i)
                    if way < 2: s.getFixed(h)
                    if way < 2 and h.type == STR: s.fixedIndexedStrs(h)
                return 0
            call("look at a damaged set", look, allowed=(MemoryError, UnicodeDecodeError))
        s = None; gc.collect()
        if _sim.handles(): _sim.violation("handles:read", "a file stays open")
    _sim.put(path, data); _sim.limit(1 << 28); _sim.heal()
    s = call("read afterwards", partio.read, path)
    if s is None: _sim.violation("later", "a good file is not read after failures")
    expectSet(m, s, "later"); 

def c22memory():
    """Memory runs out inside one call: MemoryError or a reported failure, nothing changed, and it works afterwards."""
    m = withPositions(30)
    if m is None: return
    s = build(m); call("sort", s.sort); m = _sim.model(s.ptr()); o = _sim.gen(BGEO, 10); t = build(o); _sim.note("memory runs out on " + _sim.describe(m["id"]))
    fmt = pick(("bgeo", "geo", "pdb", "ptc", "pda")); path = "/sim/m." + fmt
    partio.write(path, s, False, False); size = _sim.get(path); first = partio.read(path, False); first = first and _sim.model(first.ptr())
    for k in range(1 + choose(3)):
        calls = [("read", lambda: partio.read(path, False)), ("readVerbose", lambda: partio.readVerbose(path)), ("readHeaders", lambda: partio.readHeaders(path, False)),
                 ("readCachedVerbose", lambda: partio.readCachedVerbose(path, False)), ("write", lambda: partio.write(path, s, False, False)),
                 ("findPoints", lambda: s.findPoints((-1e3,) * 3, (1e3,) * 3)), ("findNPoints", lambda: s.findNPoints((0.0,) * 3, 5, 1e4)), ("sort", lambda: s.sort()),
                 ("clone", lambda: partio.clone(s, True)), ("cloneSchema", lambda: partio.cloneSchema(s)), ("merge", lambda: partio.merge(partio.clone(s, True), t)),
                 ("attributeInfo", lambda: s.attributeInfo("position")), ("indexedStrs", lambda: [s.indexedStrs(s.attributeInfo(a[0])) for a in m["attrs"] if a[1] == STR])]
        name, fn = pick(calls); _sim.heal()
        n0 = _sim.allocs(); call(name + " (counted)", fn); na = _sim.allocs() - n0
        _sim.arm(choose(na + 1), choose(3) == 2)
        r = call(name + " without memory", fn, allowed=(MemoryError,)); hit = _sim.disarm()
        if isinstance(r, Raised) and not hit: _sim.violation("no-fault:" + name, "MemoryError though memory did not run out")
        r = None; gc.collect()
        d = _sim.compare(m["id"], s.ptr(), 0) or _sim.compare(o["id"], t.ptr(), 0)
        if d: _sim.violation("changed:" + name, "%s ran out of memory and changed a set: %s" % (name, d))
        if _sim.handles(): _sim.violation("handles:" + name, "a file stays open")
        _sim.put(path, size)
    _sim.heal(); check(m, s, "after memory ran out")
    q = call("read afterwards", partio.read, path)
    if (q is None) != (first is None): _sim.violation("later", "a good file is not read afterwards")
    if q is not None: expectSet(first, q, "later")

def c22leak():
    """The same calls again and again take no more memory."""
    m = withPositions(10)
    if m is None: return
    path = "/sim/l.bgeo"; _sim.writeref(m["id"], path, 0); s = build(m)
    if choose(4) == 3: # numbers python does not keep ready
        h = s.attributeInfo("position"); others = [x for x in m["attrs"] if x[0] != "position"]; s.addParticles(300)
        for i in range(m["n"], m["n"] + 300):
            s.set(h, i, (i * 0.5, 1.0, -1.0))
            for x in others: s.set(s.attributeInfo(x[0]), i, (0,) * x[2])
    call("sort", s.sort); m = _sim.model(s.ptr()); t = build(_sim.gen(BGEO, 6))
    h = s.attributeInfo("position"); strs = [a[0] for a in m["attrs"] if a[1] == STR]
    ops = [("read", lambda: partio.read(path)), ("read missing", lambda: partio.read("/sim/none.bgeo", False)), ("readVerbose", lambda: partio.readVerbose(path)),
           ("readVerbose missing", lambda: partio.readVerbose("/sim/none.bgeo")), ("readHeaders", lambda: partio.readHeaders(path)), ("readHeadersVerbose", lambda: partio.readHeadersVerbose(path)),
           ("readCachedVerbose", lambda: partio.readCachedVerbose(path, bool(choose(2)))), ("create", lambda: partio.create()), ("build", lambda: build(m)),
           ("clone", lambda: partio.clone(s, True)), ("clone with map", lambda: partio.clone(s, True, {"position": "mapped position"})), ("cloneSchema", lambda: partio.cloneSchema(s)),
           ("computeClustering", lambda: partio.computeClustering(s, 2, 1.0, 0.5, 0, 1.0)), ("merge", lambda: partio.merge(partio.clone(t, True), t)),
           ("attributeInfo", lambda: [s.attributeInfo(i) for i in range(s.numAttributes())] + [s.attributeInfo("position")]),
           ("fixedAttributeInfo", lambda: [s.fixedAttributeInfo(i) for i in range(s.numFixedAttributes())]), ("get", lambda: [s.get(h, i) for i in range(m["n"])]),
           ("set", lambda: [s.set(h, i, s.get(h, i)) for i in range(m["n"])]), ("findPoints", lambda: s.findPoints((-1e3,) * 3, (1e3,) * 3)),
           ("findNPoints", lambda: s.findNPoints((0.0,) * 3, 5, 1e4)), ("indexedStrs", lambda: [s.indexedStrs(s.attributeInfo(x)) for x in strs]),
           ("addParticles", lambda: partio.create().addParticles(3)), ("toJson", lambda: partjson.toJson(s)), ("fromJson", lambda: partjson.fromJson(partjson.toJson(s))),
           ("write", lambda: partio.write("/sim/lw.bgeo", s)), ("TypeName", lambda: partio.TypeName(choose(5)))]
    if any(a[0] == "id" and (a[1] != INT or a[2] != 1) for a in m["attrs"]): ops = [o for o in ops if o[0] != "computeClustering"]
    mis = choose(4) == 3; n = choose(1000); name, fn = pick(ops); _sim.note(("misuse %d" % n if mis else name) + " again and again on " + _sim.describe(m["id"]))
    def once():
        if mis: misuse(m, s, n)
        else:
            if name == "build" : fn()
            else: call(name, fn)
        gc.collect()
    if mis: m["id"]; d = _sim.compare(m["id"], s.ptr(), 0)
    once(); once(); _sim.forget(); live0 = _sim.live(); py0 = sys.getallocatedblocks()
    K = 12
    for k in range(K): once()
    live1 = _sim.live(); py1 = sys.getallocatedblocks()
    what = "misuse" if mis else name.replace(" ", "-")
    if live1[0] - live0[0] >= K: _sim.violation("leak:" + what, "%d blocks, %d bytes are left after %d repetitions; live: %s" % (live1[0] - live0[0], live1[1] - live0[1], K, live1[2]))
    if py1 - py0 >= K: _sim.violation("leak-python:" + what, "%d python blocks are left after %d repetitions" % (py1 - py0, K))
    if _sim.handles(): _sim.violation("handles:" + what, "a file stays open")

def c22():
    pick((c22misuse, c22misuse, c22odd, c22fail, c22memory, c22leak))()

def warm():
    """Once per process: everything python and swig build lazily."""
    s = partio.create(); h = s.addAttribute("position", VECTOR, 3); s.addParticles(2); s.set(h, 0, (1.0, 2.0, 3.0)); s.get(h, 0); s.sort()
    json.loads(json.dumps(partjson.toJson(s))); partjson.fromJson(partjson.toJson(s)); gc.collect(); gc.disable()

try:
    import pyedit
    c23 = pyedit.c23
except Exception as e: # the other properties do not depend on the editor
    def c23(why=repr(e)): _sim.violation("editor:load", "the editor cannot be loaded: " + why)
