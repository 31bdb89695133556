"""The particle editor and the spreadsheet, driven by a simulated user."""
import sys, io, os, gc, struct
import _sim, partio, pyqt
pyqt.install()
import partedit, partinspect
from pysim import *

def f32(x):
    try: return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError: return float("inf") if x > 0 else float("-inf")
def quiet(phase, fn, *args, allowed=()):
    """One act of the user: python's own file questions go to the simulated disk, messages nowhere."""
    old = sys.stdout, sys.stderr; sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        with FakeFiles(): return call(phase, fn, *args, allowed=allowed)
    finally: sys.stdout, sys.stderr = old
def bad(cls, text): _sim.violation("editor:" + cls, text)
def particle(m, i): return repr([tuple(a[3][i * a[2]:(i + 1) * a[2]]) for a in m["attrs"]])
def particles(m): return {particle(m, i) for i in range(m["n"])}
def usable(m): return allText(m) and all(a[2] > 0 for a in m["attrs"] + m["fixed"]) and len({a[0] for a in m["attrs"]}) == len(m["attrs"]) and len({a[0] for a in m["fixed"]}) == len(m["fixed"]) and all(len(set(a[4])) == len(a[4]) for a in m["attrs"] + m["fixed"])
def gen(n):
    for k in range(20):
        m = _sim.gen(BGEO, n)
        if usable(m): return fresh(m)
    return empty()
def fresh(m): return {"id": m["id"], "n": m["n"], "attrs": [[a[0], a[1], a[2], list(a[3]), list(a[4])] for a in m["attrs"]], "fixed": [[a[0], a[1], a[2], list(a[3]), list(a[4])] for a in m["fixed"]]}
def empty(): return {"id": None, "n": 0, "attrs": [], "fixed": []}

class Editor:
    """The editor with what it has to hold."""
    def __init__(self):
        pyqt.reset(); self.m = empty(); self.dirty = False; self.base = set(); self.said = []
        self.w = quiet("editor starts", partedit.PartEdit); self.d = self.w.data
        self.d.dirtied.connect(self.said.append)
        self.table = [x for x in pyqt.LIVE if isinstance(x, partedit.ParticleTableWidget)][0]
        self.fixed = [x for x in pyqt.LIVE if isinstance(x, partedit.FixedAttributesWidget)][0]
        self.strings = [x for x in pyqt.LIVE if isinstance(x, partedit.IndexedStringsWidget)]
    def press(self, tip, slot):
        b = [x for x in pyqt.LIVE if isinstance(x, pyqt.QPushButton) and x._tip == tip]
        quiet(tip, b[0].clicked.emit if b else slot)
    def have(self, m): self.m = m
    def resolve(self):
        """Values nothing is said about are taken as they are."""
        for a in self.m["attrs"]:
            if None in a[3]:
                h = self.d.attributeInfo(a[0])
                for i in range(self.m["n"]): a[3][i * a[2]:(i + 1) * a[2]] = list(self.d.get(h, i))
    def inspect(self, where):
        m, d = self.m, self.d
        check(m, d.data, where); self.resolve()
        if bool(d.dirty) != self.dirty: bad("dirty", "%s: dirty is %r" % (where, d.dirty))
        if self.said and bool(self.said[-1]) != self.dirty: bad("dirty-told", "%s: the window was told dirty is %r" % (where, self.said[-1]))
        # the table shows every particle and attribute
        t = self.table; names = [a[0] for a in m["attrs"]]
        if t.rowCount() != m["n"] or t.columnCount() != len(names): bad("table-size", "%s: the table is %d by %d for %d particles of %d attributes" % (where, t.rowCount(), t.columnCount(), m["n"], len(names)))
        heads = [t.horizontalHeaderItem(c) for c in range(t.columnCount())]; heads = [x.text() if x else None for x in heads]
        if sorted(map(str, heads)) != sorted(names): bad("table-columns", "%s: the columns are %r for %r" % (where, heads, names))
        for c, name in enumerate(heads):
            a = m["attrs"][names.index(name)]
            for i in range(m["n"]): self.cell(where, t.cellWidget(i, c), a, a[3][i * a[2]:(i + 1) * a[2]], "%r of particle %d" % (name, i))
        f = self.fixedTable()
        if f is not None:
            shown = [f.verticalHeaderItem(r) for r in range(f.rowCount())] if f._shown else []
            shown = [x.text() if x else None for x in shown]
            if sorted(map(str, shown)) != sorted(a[0] for a in m["fixed"]): bad("fixed-rows", "%s: the fixed attributes shown are %r" % (where, shown))
            for r, name in enumerate(shown):
                a = [a for a in m["fixed"] if a[0] == name][0]; self.cell(where, f.cellWidget(r, 0), a, a[3], "fixed %r" % name)
        for s in self.strings:
            kind = "fixed" if s.fixedAttrs else "attrs"; want = {a[0]: a[4] for a in m[kind] if a[1] == STR}
            ts = pyqt.walk(s, pyqt.QTableWidget)
            if len(ts) != 1: continue
            t = ts[0]; got = {}
            if t._shown:
                for r in range(t.rowCount()):
                    inner = pyqt.walk(t.cellWidget(r, 0), pyqt.QTableWidget)
                    got[t.verticalHeaderItem(r).text()] = [inner[0].item(i, 0).text() for i in range(inner[0].rowCount())] if inner else None
            if got != want: bad("strings-shown", "%s: the strings shown are %r, not %r" % (where, got, want))
    def fixedTable(self):
        ts = pyqt.walk(self.fixed, pyqt.QTableWidget); return ts[0] if len(ts) == 1 else None
    def cell(self, where, w, a, want, what):
        e = pyqt.walk(w, pyqt.QLineEdit) if w is not None else []
        if len(e) != a[2]: bad("cell", "%s: %s is shown in %d fields, not %d" % (where, what, len(e), a[2]))
        got = [int(x.text()) if a[1] in (INT, STR) else f32(float(x.text())) for x in e]
        if not same(a[1], got, want): bad("cell", "%s: %s is shown as %r, not %r" % (where, what, [x.text() for x in e], want))
    # what a user does
    def start(self, m, how):
        if how == 0: self.openGood(m)
        else: s = build(m); quiet("setData", self.w.setData, s); self.have(m); self.base = particles(m)
    def openGood(self, m):
        path = "/sim/in%d.bgeo" % choose(2); _sim.writeref(m["id"], path, 0); _sim.slow(1, 0)
        pyqt.ANSWERS["open"] = pick((path, (path, "filter"))); before = _sim.get(path)
        ref = partio.read(path, False)
        if ref is None: return
        r = fresh(_sim.model(ref.ptr()))
        if not usable(r): return
        self.press("Open File", self.w.openSlot)
        if _sim.get(path) != before: bad("file-changed", "opening changed the file")
        self.have(r); self.base = particles(r); self.dirty = False
    def openBad(self):
        m = gen(8)
        if m["id"] is None: return
        path = "/sim/bad.bgeo"; _sim.writeref(m["id"], path, 0); data = _sim.get(path) or b""; _sim.heal(); what = choose(5)
        if what == 0: _sim.remove(path)
        elif what == 1: _sim.put(path, data[:choose(len(data) + 1)])
        elif what == 2: _sim.fault("eioread", choose(4))
        elif what == 3: _sim.fault("open", 0)
        else: path = ""
        pyqt.ANSWERS["open"] = pick((path, (path, "filter")))
        self.press("Open File", self.w.openSlot); _sim.heal()
        if what in (0, 4): return # nothing happens
        got = fresh(_sim.model(self.d.data.ptr()))
        if got["n"] or got["attrs"] or got["fixed"]:
            ref = partio.read(path, False)
            if what == 3 or ref is None: bad("invented", "a file that cannot be read shows %d particles" % got["n"])
            expectSet(fresh(_sim.model(ref.ptr())), self.d.data, "open failing")
        self.have(got); self.base = particles(got); self.dirty = False
    def text(self, a):
        if a[1] == STR: return str(choose(max(1, len(a[4]))))
        if a[1] == INT: return str(pick((0, 1, -1, 7, 2147483647, -2147483648, choose(1000))))
        return pick(("0", "0.1", "-2.5", "1e-3", "3", str(_sim.number()), str(choose(1000) / 8.0)))
    def type(self):
        m = self.m; fixed = choose(3) == 2; kind = m["fixed" if fixed else "attrs"]
        if not kind or not fixed and not m["n"]: return
        a = pick(kind); i = 0 if fixed else choose(m["n"])
        if fixed:
            t = self.fixedTable()
            if t is None: return
            rows = {t.verticalHeaderItem(r).text(): r for r in range(t.rowCount())}; w = t.cellWidget(rows[a[0]], 0)
        else:
            t = self.table; cols = {t.horizontalHeaderItem(c).text(): c for c in range(t.columnCount())}; w = t.cellWidget(i, cols[a[0]])
        e = pyqt.walk(w, pyqt.QLineEdit); first = [x.text() for x in e]; j = choose(len(e))
        for k in range(1 + choose(3)):
            x = pick((self.text(a), self.text(a), first[j])); was = e[j].text()
            if "nan" in x or "inf" in x: continue
            quiet("type", e[j].typed, x)
            a[3][i * a[2] + j] = int(x) if a[1] in (INT, STR) else f32(float(x))
            if was != x: self.dirty = True
            elif not self.dirty: self.dirty = bool(self.d.dirty)
    def addParticle(self):
        m = self.m; ids = [a for a in m["attrs"] if a[0] == "id"]
        if ids and ids[0][1] == INT and m["n"] and max(ids[0][3]) == 2147483647: return
        if ids and ids[0][1] == FLOAT and any(v != v for v in ids[0][3]): return
        told = []; self.d.particleAdded.connect(told.append); self.press("Add Particle", self.w.addParticleSlot)
        self.d.particleAdded.disconnect(told.append)
        if told != [m["n"]]: bad("told", "adding particle %d tells %r" % (m["n"], told))
        for a in m["attrs"]:
            last = a[3][-a[2]:] if m["n"] else [0 if a[1] in (INT, STR) else 0.0] * a[2]
            if a[0] == "id" and a[2] == 1 and a[1] == INT: last = [max(a[3]) + 1] if m["n"] else [None]
            elif a[0] == "id": last = [None] * a[2]
            a[3].extend(last)
        m["n"] += 1; self.dirty = True
    def addAttribute(self):
        m = self.m; fixed = bool(choose(2)); kind = m["fixed" if fixed else "attrs"]
        name = pick(("id", "pid", "ids", "new", "mass", "a b", "Cd", "zz%d" % choose(50)))
        if name in [a[0] for a in kind]: return
        typ = pick((VECTOR, FLOAT, INT, STR)); cnt = 3 if typ == VECTOR else pick((1, 1, 2, 4, 9, 16)); probe = [name, typ, cnt, [], []]
        words = [self.text(probe) if typ != STR else "0" for _ in range(pick((1, 1, cnt, 1 + choose(cnt), cnt + 1)))]
        words = ["0" if "nan" in x or "inf" in x else x for x in words]; cancelled = choose(6) == 5; noname = choose(8) == 7; direct = choose(4) == 3
        vals = [int(x) if typ in (INT, STR) else f32(float(x)) for x in words]; vals = (vals + [vals[-1]] * cnt)[:cnt]
        def fill(dialog):
            f = {w._label.strip(" :").lower(): w for w in pyqt.LIVE if "_label" in w.__dict__}
            f["name"].setText("" if noname else name); f["type"].setCurrentIndex(f["type"]._items.index(partio.TypeName(typ))); f["count"].setText(str(cnt)); f["fixed"].setChecked(fixed); f["default value"].setText(pick((" ", "  ")).join(words))
            dialog.reject() if cancelled else dialog.accept()
        pyqt.LIVE[:] = [w for w in pyqt.LIVE if "_label" not in w.__dict__]; pyqt.ANSWERS["dialog"] = fill
        if direct: quiet("addAttribute", self.d.addAttribute, name, typ, cnt, fixed, vals[0] if cnt == 1 and choose(2) else tuple(vals))
        else: self.press("Add Attribute", self.w.addAttributeSlot)
        if not direct and (cancelled or noname): return
        kind.append([name, typ, cnt, list(vals) * (1 if fixed else m["n"]), []]); self.dirty = True
    def delete(self):
        m = self.m; t = self.table; what = choose(4)
        t._selr = sorted({choose(m["n"]) for _ in range(1 + choose(3))}) if m["n"] and what != 1 else []
        t._selc = sorted({choose(len(m["attrs"])) for _ in range(1 + choose(2))}) if m["attrs"] and what in (1, 2) else []
        if choose(4) == 3: t._selr.reverse()
        gone = [t.horizontalHeaderItem(c).text() for c in t._selc]; rows = set(t._selr)
        quiet("delete key", t.keyPressEvent, pyqt.Key(pick((pyqt.Qt.Key_Delete, pyqt.Qt.Key_Backspace))))
        if not gone and not rows: return
        self.without(rows, gone)
    def without(self, rows, names):
        m = self.m
        for a in m["attrs"]: a[3] = [v for i in range(m["n"]) if i not in rows for v in a[3][i * a[2]:(i + 1) * a[2]]]
        m["n"] -= len(rows); m["attrs"] = [a for a in m["attrs"] if a[0] not in names]; self.dirty = True
    def otherKey(self): quiet("another key", self.table.keyPressEvent, pyqt.Key(pyqt.Qt.Key_Up))
    def remove(self):
        m = self.m; what = choose(3)
        if what == 0 and m["fixed"]:
            names = sorted({pick(m["fixed"])[0] for _ in range(1 + choose(2))}); quiet("removeFixedAttributes", self.d.removeFixedAttributes, names)
            m["fixed"] = [a for a in m["fixed"] if a[0] not in names]; self.dirty = True
        elif what == 1 and m["attrs"]:
            names = sorted({pick(m["attrs"])[0] for _ in range(1 + choose(2))}); quiet("removeAttributes", self.d.removeAttributes, names); self.without(set(), names)
        elif what == 2 and m["n"]:
            rows = {choose(m["n"]) for _ in range(1 + choose(4))}; quiet("removeParticles", self.d.removeParticles, pick((list, set, sorted, tuple))(rows)); self.without(rows, ())
    def save(self):
        delta = choose(2); path = "/sim/out%d.bgeo" % choose(2); now = _sim.model(self.d.data.ptr())
        pyqt.ANSWERS["save"] = pick((path, (path, "filter"), "", ("", "")))
        others = {p: _sim.get(p) for p in _sim.files() if p != path}; before = _sim.get(path)
        if delta: self.delta()
        _sim.slow(0, 1); self.press("Save File As Delta" if delta else "Save File", self.w.saveDeltaSlot if delta else self.w.saveSlot); _sim.heal()
        if pyqt.ANSWERS["save"] in ("", ("", "")):
            if _sim.get(path) != before: bad("cancelled", "a cancelled save changed a file")
        elif not delta:
            got = _sim.get(path); _sim.writeref(now["id"], "/sim/ref.bgeo", 0)
            if got != _sim.get("/sim/ref.bgeo"): bad("saved", "the saved file has %s bytes, the set takes %s" % (got and len(got), len(_sim.get("/sim/ref.bgeo") or b"")))
            _sim.remove("/sim/ref.bgeo"); self.base = particles(self.m); self.dirty = False
        else:
            q = partio.read(path, False)
            if q is not None and any(a[:3] == ["position", VECTOR, 3] for a in self.m["attrs"]): self.deltaHolds(q, "the saved delta") # others bgeo does not hold
        for p in others:
            if _sim.get(p) != others[p]: bad("other-file", "saving changed %s" % p)
    def delta(self):
        d = quiet("createDelta", self.d.createDelta); self.deltaHolds(d, "the delta")
    def deltaHolds(self, d, what):
        m = self.m; got = fresh(_sim.model(d.ptr())); want = particles(m) - self.base
        if got["n"]: got["attrs"] = [a for b in m["attrs"] for a in got["attrs"] if a[0] == b[0]]
        have = [particle(got, i) for i in range(got["n"])]
        if any(v != v for a in m["attrs"] for v in a[3]): pass
        elif set(have) != want: bad("delta", "%s holds %d different particles, %d were changed" % (what, len(set(have)), len(want)))
        if have and [(a[0], a[1], a[2]) for a in got["attrs"]] != [(a[0], a[1], a[2]) for a in m["attrs"]]: bad("delta-attributes", "%s has attributes %r" % (what, [a[0] for a in got["attrs"]]))
        if have:
            for a, b in zip(got["attrs"], m["attrs"]):
                if a[4] != b[4]: bad("delta-strings", "%s has strings %r for %r, not %r" % (what, a[4], a[0], b[4]))

def c23edit():
    m = gen(10); e = Editor(); e.inspect("empty")
    if m["id"] is not None and choose(8): e.start(m, choose(2)); e.inspect("start")
    _sim.note("editing " + (_sim.describe(m["id"]) if m["id"] is not None else "nothing"))
    for k in range(1 + choose(8)):
        name = pick(("type", "type", "type", "addParticle", "addParticle", "addAttribute", "addAttribute", "delete", "delete", "remove", "save", "save", "delta", "open", "openBad", "otherKey"))
        _sim.evt("the user: " + name); _sim.heal()
        if name == "open":
            x = gen(8)
            if x["id"] is not None: e.openGood(x)
        else: getattr(e, name)()
        e.inspect("after " + name)
    if _sim.handles(): bad("handles", "a file stays open")

TYPES = ("None", "Vector", "Float", "Integer", "Indexed String")
def c23sheet():
    """The spreadsheet shows the set as it is."""
    only = bool(choose(2)); pyqt.reset(); sp = quiet("spreadsheet", partinspect.Spreadsheet, only); D = pyqt.Qt.DisplayRole
    for k in range(1 + choose(3)):
        m = gen(10)
        if m["id"] is None: return
        path = "/sim/s%d.bgeo" % k; _sim.writeref(m["id"], path, 0); _sim.heal(); r = partio.read(path, False)
        if r is None: continue
        r = fresh(_sim.model(r.ptr())); how = choose(4); _sim.note("spreadsheet of " + _sim.describe(m["id"]))
        if not usable(r): continue
        if how == 3: _sim.remove(path); r = empty()
        _sim.slow(1, 0)
        if how == 2:
            for a in m["attrs"]: # names the sheet puts first
                n = pick(("id", "ids", "h_pil_id", a[0], a[0])); a[0] = n if n not in [x[0] for x in m["attrs"]] else a[0]
            quiet("spreadsheet setData", sp.setData, build(m)); r = m
        else: quiet("spreadsheet setFile", sp.setFile, path)
        views = pyqt.walk(sp, pyqt.QTreeView)
        if len(views) != 1 or views[0]._model is None: bad("sheet-view", "%d views" % len(views))
        proxy = views[0]._model; model = proxy._source; names = {a[0]: a for a in r["attrs"]}; no = pyqt.QModelIndex()
        at = lambda row, col: call("sheet data", model.data, model.createIndex(row, col), D); head = lambda c: call("sheet header", model.headerData, c, None, D)
        rows, cols = call("rowCount", model.rowCount, no), call("columnCount", model.columnCount, no)
        if only:
            if rows != len(names) or cols != 4: bad("sheet-size", "%d rows and %d columns for %d attributes" % (rows, cols, len(names)))
            seen = [at(i, 1) for i in range(rows)]
            if sorted(seen) != sorted(names): bad("sheet-attrs", "the attributes shown are %r, not %r" % (seen, sorted(names)))
            for i, n in enumerate(seen):
                if (at(i, 2), at(i, 3)) != (TYPES[names[n][1]], names[n][2]): bad("sheet-attrs", "%r is shown as %r" % (n, (at(i, 2), at(i, 3))))
            shown = [at(i, 1) for i in range(rows)]; accepts = lambda i: call("filter", proxy.filterAcceptsRow, i, no)
        else:
            want = ["Index"] + ["%s[%d]" % (a[0], j) for a in r["attrs"] for j in range(a[2])]; heads = [head(c) for c in range(cols)]
            if rows != r["n"]: bad("sheet-size", "%d rows for %d particles" % (rows, r["n"]))
            if sorted(heads) != sorted(want) or heads[0] != "Index": bad("sheet-columns", "the columns are %r, not %r" % (heads, want))
            for i in range(rows):
                if at(i, 0) != str(i): bad("sheet-index", "row %d is called %r" % (i, at(i, 0)))
                for c in range(1, cols):
                    n, j = heads[c][:-1].rsplit("[", 1); a = names[n]; v = at(i, c)
                    if not same(a[1], [v], [a[3][i * a[2] + int(j)]]): bad("sheet-value", "%s of particle %d is shown as %r, not %r" % (heads[c], i, v, a[3][i * a[2] + int(j)]))
            shown = heads; accepts = lambda i: call("filter", proxy.filterAcceptsColumn, i, no)
        if at(rows, 0) is not None: bad("sheet-size", "there is a row past the end")
        boxes = pyqt.walk(sp, pyqt.QLineEdit)
        for f in range(choose(3)):
            name = pick(sorted(names)) if names else "x"; t = pick(("", name, name[:choose(len(name) + 1)], "zzz", "zzz " + name)); import re
            boxes[0].setText(t); words = [x for x in re.split(r"\W+", t) if x]
            for i, s in enumerate(shown):
                ok = not t or any(x in s for x in words) or not only and i == 0
                if bool(accepts(i)) != ok: bad("sheet-filter", "filter %r: %r is %s" % (t, s, "hidden" if ok else "shown"))
        boxes[0].setText("")

def c23main():
    """The programs' own main, with what a user may type behind their names."""
    pyqt.reset(); which = choose(2); mod = (partedit, partinspect)[which]; m = gen(8)
    if m["id"] is None: return
    path = "/sim/main.bgeo"; _sim.writeref(m["id"], path, 0); _sim.heal(); ref = partio.read(path, False); before = _sim.get(path)
    if ref is None: return
    r = fresh(_sim.model(ref.ptr()))
    if not usable(r): return
    what = pick(("good", "good", "none", "missing", "help", "cut")); args = {"good": [path], "none": [], "missing": ["/sim/nothing.bgeo"], "help": [pick(("-h", "--help"))] + [path] * choose(2), "cut": [path]}[what]
    if what == "cut": _sim.put(path, before[:choose(len(before))])
    if which and choose(2) and what in ("good", "none", "missing"): args = [pick(("-a", "--attrs"))] + args
    cut = partio.read(path, False) is None if what == "cut" else None
    _sim.note("%s %s %s" % (mod.__name__, what, _sim.describe(m["id"])))
    old = sys.argv; sys.argv = [mod.__name__] + args; ends = []
    def run():
        try: mod.main()
        except SystemExit as e: ends.append(e.code if isinstance(e.code, int) else 0 if e.code is None else 1)
    try: quiet(mod.__name__ + " main", run)
    finally: sys.argv = old
    if what == "help" and ends != [0]: bad("main-help", "asked for help it ends with %r" % ends)
    if what in ("none", "missing") and which and (not ends or ends[0] == 0): bad("main-usage", "without a file it ends with %r" % ends)
    if what in ("good", "cut") or what in ("none", "missing") and not which:
        if ends: bad("main-ends", "%s: it ends with %r" % (what, ends))
        want = r if what == "good" else empty()
        if which:
            v = [x for x in pyqt.LIVE if isinstance(x, pyqt.QTreeView)]; got = v[0]._model._source.parts if v else None
        else:
            v = [x for x in pyqt.LIVE if isinstance(x, partedit.PartEdit)]; got = v[0].data.data if v else None
        if got is None: bad("main-window", "there is no window with data")
        if what != "cut" or cut: check(want, got, "window of main")
    if what == "good" and _sim.get(path) != before: bad("file-changed", "opening changed the file")

def c23():
    pick((c23edit, c23edit, c23edit, c23edit, c23sheet, c23main))()
    pyqt.reset(); gc.collect()
