"""Static program representation: modules, functions, classes of /repo."""
import ast
import os


class FuncInfo:
    def __init__(self, node, name, qual, module, cls, relpath):
        self.node = node
        self.name = name
        self.qual = qual
        self.module = module
        self.cls = cls
        self.relpath = relpath
        self.lineno = node.lineno
        body = node.body if isinstance(node.body, list) else [node.body]
        self.is_gen = _has_yield(body) if not isinstance(node, ast.Lambda) else False
        self.nested = any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp, ast.ClassDef))
                          for b in body for x in ast.walk(b)) or self.is_gen
        self.deco = set()
        self.declared = {}
        for b in body:
            for x in _walk_scope(b):
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    for n in x.names:
                        self.declared[n] = "g" if isinstance(x, ast.Global) else "n"

    @property
    def fullname(self):
        return self.module + "." + self.qual

    def loc(self, node=None):
        return (self.relpath, getattr(node, "lineno", self.lineno), self.qual)


def _walk_scope(node):
    yield node
    for c in ast.iter_child_nodes(node):
        if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield from _walk_scope(c)


def _has_yield(body):
    for b in body:
        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        for x in _walk_scope(b):
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return True
    return False


class ClassInfo:
    def __init__(self, node, name, qual, module, relpath):
        self.node = node
        self.name = name
        self.qual = qual
        self.module = module
        self.relpath = relpath
        self.bases = ()       # Nodes
        self.ns = None        # frame id of the class namespace
        self._mro = None

    @property
    def fullname(self):
        return self.module + "." + self.qual

    def mro(self):
        """list of class nodes (CLS/EXT), C3"""
        if self._mro is None:
            from .terms import mk
            me = mk("CLS", self)
            seqs = []
            for b in self.bases:
                if b.k == "CLS":
                    seqs.append(list(b.a[0].mro()))
                elif b.k == "EXT":
                    from .know import ext_mro
                    from .terms import EXT
                    seqs.append([EXT(n) for n in ext_mro(b.a[0])])
            seqs.append([b for b in self.bases if b.k in ("CLS", "EXT")])
            res = [me]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                res.append(c)
                seqs = [[x for x in t if x is not c] for t in seqs]
                seqs = [t for t in seqs if t]
            from .terms import EXT
            o = EXT("builtins.object")
            if o not in res:
                res.append(o)
            self._mro = res
        return self._mro

    def mro_names(self):
        from .know import cname
        return [cname(c) for c in self.mro()]


class Repo:
    PKG = "hickle"

    def __init__(self, root="/repo"):
        self.root = root
        self.files = {}      # module name -> path
        self.trees = {}
        self.is_pkg = set()
        top = os.path.join(root, self.PKG)
        for d, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)[:-3].split(os.sep)
                if rel[-1] == "__init__":
                    rel = rel[:-1]
                    self.is_pkg.add(".".join(rel))
                self.files[".".join(rel)] = p
        for m, p in self.files.items():
            with open(p, "rb") as fh:
                src = fh.read()
            self.trees[m] = ast.parse(src, p)

    def rel(self, module):
        return os.path.relpath(self.files[module], self.root)
