"""Abstract machine state: frames, heap, facts, event history (all persistent)."""
from collections import namedtuple
from .terms import *

HO = namedtuple("HO", "kind cls attrs data")  # heap object
Ev = namedtuple("Ev", "op target key val args kws loc")  # see events()

EMPTY_HIST = mk("HIST0")


class Base:
    """frames and heap that exist after the modules were read"""

    def __init__(self):
        self.frames = {}
        self.heap = {}


class State:
    __slots__ = ("base", "frames", "heap", "facts", "hist", "sym", "_key")

    def __init__(self, base, frames=None, heap=None, facts=None, hist=EMPTY_HIST, sym=None):
        self.base = base
        self.frames = frames or {}
        self.heap = heap or {}
        self.facts = facts or {}
        self.hist = hist
        self.sym = sym or {}
        self._key = None

    def _with(self, **kw):
        s = State.__new__(State)
        s.base = self.base
        s.frames = kw.get("frames", self.frames)
        s.heap = kw.get("heap", self.heap)
        s.facts = kw.get("facts", self.facts)
        s.hist = kw.get("hist", self.hist)
        s.sym = kw.get("sym", self.sym)
        s._key = None
        return s

    # frames -------------------------------------------------------------
    def frame(self, fid):
        f = self.frames.get(fid)
        if f is None:
            f = self.base.frames.get(fid)
        return f

    def setvar(self, fid, name, val):
        f = dict(self.frame(fid))
        f[name] = val
        fr = dict(self.frames)
        fr[fid] = f
        return self._with(frames=fr)

    def delvar(self, fid, name):
        f = dict(self.frame(fid))
        f.pop(name, None)
        fr = dict(self.frames)
        fr[fid] = f
        return self._with(frames=fr)

    def newframe(self, tag, vars):
        k = 0
        while (tag, k) in self.frames or (tag, k) in self.base.frames:
            k += 1
        fr = dict(self.frames)
        fr[(tag, k)] = vars
        return (tag, k), self._with(frames=fr)

    def dropframe(self, fid):
        if fid not in self.frames:
            return self
        fr = dict(self.frames)
        del fr[fid]
        return self._with(frames=fr)

    # heap ---------------------------------------------------------------
    def obj(self, n):
        o = self.heap.get(n)
        if o is None:
            o = self.base.heap.get(n)
        return o

    def setobj(self, n, o):
        h = dict(self.heap)
        h[n] = o
        return self._with(heap=h)

    def alloc(self, site, o):
        k = 0
        while True:
            n = mk("OBJ", site, k)
            if n not in self.heap and n not in self.base.heap:
                break
            k += 1
        return n, self.setobj(n, o)

    # facts --------------------------------------------------------------
    def fact(self, t, v):
        f = dict(self.facts)
        f[t] = v
        return self._with(facts=f)

    # events -------------------------------------------------------------
    def emit(self, ev):
        return self._with(hist=mk("HIST", self.hist, ev))

    def events(self):
        out = []
        h = self.hist
        while h.k == "HIST":
            out.append(h.a[1])
            h = h.a[0]
        out.reverse()
        return out

    def setsym(self, base, name, val):
        s = dict(self.sym)
        s[(base, name)] = val
        return self._with(sym=s)

    def key(self):
        if self._key is None:
            self._key = (
                frozenset((f, frozenset(v.items())) for f, v in self.frames.items()),
                frozenset(self.heap.items()),
                frozenset(self.facts.items()),
                self.hist,
                frozenset(self.sym.items()),
            )
        return self._key
