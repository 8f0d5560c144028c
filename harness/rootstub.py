"""An in-memory stand-in for the parts of PyROOT that the scripts in util/ use.

Files live in FILES (absolute path -> {tree name: Data}) and nowhere else. Trees behave as in PyROOT: iterating yields the
tree itself positioned on the next entry, an ntuple keeps single precision numbers, and what is written goes to the file
that is the current directory.
"""
import os, re, struct, sys, types

class Unsupported(BaseException):
    """The script uses a part of ROOT that isn't here: nothing can be said about it."""


def unknown(k):
    if re.match("(Get|Set|Is|Add|Fill|Draw|Copy|Clone|Merge|Loop|Process|Scan|Branch|Read|Append|Print|Show|Load|Reset|Find|Write|Save|ls|mkdir|Make|Use|Auto|Flush|As|Delete|Open|Map)([A-Z]|$)", k):
        raise Unsupported(k)
    raise AttributeError(k)


FILES = {}
STATE = {"cwd": None}


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


class Data:
    def __init__(self, branches, rows):
        self.branches, self.rows = list(branches), [tuple(r) for r in rows]


class Named:
    def __init__(self, name):
        self.n = name

    def GetName(self):
        return self.n

    def GetTitle(self):
        return self.n

    def __str__(self):
        return self.n


class Leaf(Named):
    def __init__(self, tree, name):
        Named.__init__(self, name)
        self.t = tree

    def GetValue(self, i=0):
        return self.t.__getattr__(self.n)


class TTree(object):
    def __init__(self, name="", title="", data=None):
        self._name, self._title, self._data, self._pos = name, title, data, 0

    def _get(self):
        return self._data

    def _b(self):
        d = self._get()
        return d.branches if d else []

    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        d = object.__getattribute__(self, "_get")()
        if d is None or k not in d.branches or not d.rows:
            unknown(k)
        return d.rows[self._pos][d.branches.index(k)]

    def __iter__(self):
        d = self._get()
        for i in range(len(d.rows) if d else 0):
            self._pos = i
            yield self

    def __len__(self):
        d = self._get()
        return len(d.rows) if d else 0

    def __bool__(self):
        return True

    __nonzero__ = __bool__

    def GetName(self):
        return self._name

    def GetEntries(self):
        return len(self)

    GetEntriesFast = GetEntries

    def GetEntry(self, i):
        if not 0 <= i < len(self):
            return 0
        self._pos = i
        return 4 * len(self._b())

    LoadTree = GetEntry

    def GetListOfBranches(self):
        return [Named(b) for b in self._b()]

    def GetListOfLeaves(self):
        return [Leaf(self, b) for b in self._b()]

    def GetBranch(self, n):
        return Named(n) if n in self._b() else None

    def GetLeaf(self, n):
        return Leaf(self, n) if n in self._b() else None

    def SetBranchStatus(self, *a):
        pass

    def SetDirectory(self, *a):
        pass

    def Write(self, name="", *a):
        f = STATE["cwd"]
        if f is not None and f.writable:
            d = self._get()
            FILES[f.path][name or self._name] = Data(d.branches, d.rows)
        return 1


class TNtuple(TTree):
    def __init__(self, name, title, branches, bufsize=0):
        TTree.__init__(self, name, title, Data(branches.split(":"), []))

    def Fill(self, *vals):
        if len(vals) == 1 and hasattr(vals[0], "__len__"):
            vals = list(vals[0])
        n = len(self._data.branches)
        if len(vals) < n:
            raise IndexError("%i values for %i branches" % (len(vals), n))
        self._data.rows.append(tuple(f32(v) for v in vals[:n]))
        return 4 * n


class TChain(TTree):
    def __init__(self, name="", title=""):
        TTree.__init__(self, name, title)
        self._files, self._cache = [], None

    def Add(self, path, n=-1):
        self._files.append(os.path.abspath(path))
        self._cache = None
        return 1

    AddFile = Add

    def _get(self):
        if self._cache is None:
            parts = [FILES[f][self._name] for f in self._files if f in FILES and self._name in FILES[f]]
            if not parts:
                return None
            self._cache = Data(parts[0].branches, [r for p in parts for r in p.rows])
        return self._cache


class TFile(object):
    def __init__(self, path, mode="READ", *a):
        self.path, m = os.path.abspath(path), mode.upper() or "READ"
        self.writable = m != "READ"
        self.zombie = (m == "READ" and self.path not in FILES) or (m in ("NEW", "CREATE") and self.path in FILES)
        if m in ("RECREATE", "NEW", "CREATE") and not self.zombie:
            FILES[self.path] = {}
        elif m == "UPDATE":
            FILES.setdefault(self.path, {})
        STATE["cwd"] = self

    @staticmethod
    def Open(path, mode="READ", *a):
        f = TFile(path, mode)
        return None if f.zombie else f

    def IsZombie(self):
        return self.zombie

    def IsOpen(self):
        return not self.zombie

    def Get(self, name):
        d = FILES.get(self.path, {}).get(name)
        return TTree(name, "", d) if d is not None else None

    def GetListOfKeys(self):
        return [Named(k) for k in FILES.get(self.path, {})]

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        t = self.Get(k)
        if t is None:
            unknown(k)
        return t

    def cd(self, *a):
        STATE["cwd"] = self
        return True

    def WriteTObject(self, o, name="", *a):
        self.cd()
        return o.Write(name)

    WriteObject = WriteTObject

    def Write(self, *a):
        return 1

    def Close(self, *a):
        if STATE["cwd"] is self:
            STATE["cwd"] = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.Close()


class Module(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(k)


def module():
    m = Module("ROOT")
    for c in (TFile, TTree, TNtuple, TChain):
        setattr(m, c.__name__, c)
    m.gROOT = types.SimpleNamespace(SetBatch=lambda *a: None)
    return m
