"""A stand-in for Qt: widgets that keep what is put into them, and a user who is the simulator."""
import sys, types

class Const:
    """Any constant or result nothing depends on."""
    def __init__(self, name="any"): self.__dict__["_name"] = name
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return Const(self._name + "." + n)
    def __call__(self, *a, **k): return Const(self._name + "()")
    def _op(self, o): return self
    __or__ = __ror__ = __and__ = __rand__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _op
    def __int__(self): return 1
    __index__ = __int__
    def __iter__(self): return iter(())
    def __setattr__(self, n, v): pass
CONSTS = {}
class Meta(type):
    def __getattr__(cls, n):
        if n.startswith("__"): raise AttributeError(n)
        for c in cls.__mro__[:-1]:
            if (c.__name__, n) in CONSTS: return CONSTS[c.__name__, n]
        return CONSTS.setdefault((cls.__name__, n), Const(n))
class Bound:
    def __init__(self): self.slots = []
    def connect(self, f): self.slots.append(f)
    def disconnect(self, f=None): self.slots = [s for s in self.slots if f is not None and s != f]
    def emit(self, *a):
        for s in list(self.slots): s(*a)
class Signal:
    def __init__(self, *types): pass
    def __set_name__(self, cls, n): self.n = "_signal_" + n
    def __get__(self, o, cls):
        if o is None: return self
        if self.n not in o.__dict__: o.__dict__[self.n] = Bound()
        return o.__dict__[self.n]
LIVE = []      # every widget of this run
ANSWERS = {}   # what the user answers a dialog
class QObject(metaclass=Meta):
    def __init__(self, *a, **k):
        if self not in LIVE: LIVE.append(self)
    def __eq__(self, o): return self is o
    def __hash__(self): return id(self)
    def __getattr__(self, n):
        if n.startswith("_"): raise AttributeError(n)
        return Const(n)
class QLayout(QObject):
    def __init__(self, parent=None, *a):
        QObject.__init__(self); self._kids = []
        if isinstance(parent, QWidget): parent.setLayout(self)
    def addWidget(self, w, *a): self._kids.append(w)
    addLayout = addWidget
    def removeWidget(self, w): self._kids = [k for k in self._kids if k is not w]
    def addRow(self, label, w): self._kids.append(w); w._label = label
class QWidget(QObject):
    _layout = None; _shown = True; _title = None
    def setLayout(self, l): self._layout = l
    def layout(self): return self._layout
    def hide(self): self._shown = False
    def show(self): self._shown = True
    def isVisible(self): return self._shown
    def setWindowTitle(self, t): self._title = t
    def windowTitle(self): return self._title
class Text(QWidget):
    def __init__(self, text="", *a, **k): QWidget.__init__(self); self._text = text if isinstance(text, str) else ""
    def text(self): return self._text
    def setText(self, t): self._text = t
class QLabel(Text): pass
class QFrame(QWidget): pass
class QSplitter(QWidget):
    def __init__(self, *a): QWidget.__init__(self); self._layout = QLayout()
    def addWidget(self, w): self._layout.addWidget(w)
class QMainWindow(QWidget):
    def setCentralWidget(self, w): self._layout = QLayout(); self._layout.addWidget(w)
class QPushButton(Text):
    clicked = Signal()
    _tip = None
    def setToolTip(self, t): self._tip = t
class QCheckBox(QWidget):
    _on = False
    def isChecked(self): return self._on
    def setChecked(self, v): self._on = bool(v)
class QComboBox(QWidget):
    def __init__(self, *a): QWidget.__init__(self); self._items, self._at = [], 0
    def addItem(self, t, *a): self._items.append(t)
    def setCurrentIndex(self, i): self._at = i
    def currentIndex(self): return self._at
    def currentText(self): return self._items[self._at]
class QLineEdit(Text):
    editingFinished = Signal(); textChanged = Signal(str); returnPressed = Signal()
    def setText(self, t): self._text = t; self.textChanged.emit(t)
    def typed(self, t): self.setText(t); self.editingFinished.emit()
class QShortcut(QObject):
    activated = Signal()
class QDialog(QWidget):
    _result = 0
    def accept(self): self._result = 1
    def reject(self): self._result = 0
    def exec_(self):
        f = ANSWERS.get("dialog"); self._result = 0
        if f: f(self)
        return self._result
    exec = exec_
class QFileDialog(QDialog):
    @staticmethod
    def getOpenFileName(*a, **k): return ANSWERS["open"]
    @staticmethod
    def getSaveFileName(*a, **k): return ANSWERS["save"]
class QTableWidgetItem(Text):
    def setToolTip(self, t): self._tip = t
class Index:
    def __init__(self, r, c, valid=True): self.r, self.c, self.v = r, c, valid
    def row(self): return self.r
    def column(self): return self.c
    def isValid(self): return self.v
class QTableWidget(QWidget):
    def __init__(self, rows=0, cols=0, *a):
        QWidget.__init__(self); self._r, self._c = (rows, cols) if isinstance(rows, int) else (0, 0)
        self._cell, self._item, self._h, self._v = {}, {}, {}, {}; self._selr, self._selc = [], []
    def rowCount(self): return self._r
    def columnCount(self): return self._c
    def _shrink(self):
        for d in (self._cell, self._item):
            for k in [k for k in d if k[0] >= self._r or k[1] >= self._c]: del d[k]
        for d, n in ((self._h, self._c), (self._v, self._r)):
            for k in [k for k in d if k >= n]: del d[k]
    def setRowCount(self, n): self._r = n; self._shrink()
    def setColumnCount(self, n): self._c = n; self._shrink()
    def clear(self): self._cell, self._item, self._h, self._v = {}, {}, {}, {}; self._selr, self._selc = [], []
    def clearContents(self): self._cell, self._item = {}, {}
    def setCellWidget(self, r, c, w):
        if 0 <= r < self._r and 0 <= c < self._c: self._cell[r, c] = w
    def removeCellWidget(self, r, c): self._cell.pop((r, c), None)
    def cellWidget(self, r, c): return self._cell.get((r, c))
    def setItem(self, r, c, i):
        if 0 <= r < self._r and 0 <= c < self._c: self._item[r, c] = i
    def item(self, r, c): return self._item.get((r, c))
    def setHorizontalHeaderItem(self, c, i):
        if 0 <= c < self._c: self._h[c] = i
    def setVerticalHeaderItem(self, r, i):
        if 0 <= r < self._r: self._v[r] = i
    def horizontalHeaderItem(self, c): return self._h.get(c)
    def verticalHeaderItem(self, r): return self._v.get(r)
    def setVerticalHeaderLabels(self, l):
        for i, t in enumerate(l): self.setVerticalHeaderItem(i, QTableWidgetItem(t))
    def setHorizontalHeaderLabels(self, l):
        for i, t in enumerate(l): self.setHorizontalHeaderItem(i, QTableWidgetItem(t))
    def selectionModel(self):
        t = self
        class S:
            def selectedRows(self): return [Index(r, 0) for r in t._selr]
            def selectedColumns(self): return [Index(0, c) for c in t._selc]
        return S()
    def keyPressEvent(self, e): pass
class QTreeView(QWidget):
    _model = None
    def setModel(self, m): self._model = m
    def model(self): return self._model
class Key:
    def __init__(self, k): self.k = k
    def key(self): return self.k
class QModelIndex(Index):
    def __init__(self, r=-1, c=-1, valid=False): Index.__init__(self, r, c, valid)
class QAbstractItemModel(QObject):
    def createIndex(self, r, c, p=None): return QModelIndex(r, c, r >= 0 and c >= 0)
class QSortFilterProxyModel(QAbstractItemModel):
    _source = None; invalid = 0
    def setSourceModel(self, m): self._source = m
    def sourceModel(self): return self._source
    def invalidateFilter(self): self.invalid += 1
class Qt(metaclass=Meta): pass

def walk(w, cls, out=None):
    """The widgets of a class inside a widget, in order."""
    if out is None: out = []
    if isinstance(w, cls): out.append(w); return out
    l = w._layout if isinstance(w, QWidget) else w
    for k in l._kids if isinstance(l, QLayout) else (): walk(k, cls, out)
    return out
def reset(): LIVE.clear(); ANSWERS.clear()

def module(name, table):
    m = types.ModuleType(name); m.__dict__.update(table)
    def missing(n):
        if n.startswith("__"): raise AttributeError(n)
        return Meta(n, (QWidget,), {})
    m.__getattr__ = missing; sys.modules[name] = m; return m
def install():
    mine = {k: v for k, v in globals().items() if k.startswith("Q") or k == "Signal"}
    for n in ("QVBoxLayout", "QHBoxLayout", "QFormLayout"): mine[n] = Meta(n, (QLayout,), {})
    gui = module("Qt.QtGui", mine); wid = module("Qt.QtWidgets", mine); core = module("Qt.QtCore", mine)
    q = module("Qt", {"QtGui": gui, "QtWidgets": wid, "QtCore": core}); q.__path__ = []
