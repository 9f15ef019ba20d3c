"""Builtins, string and container methods (knowledge about Python itself)."""
import string
from .terms import *
from .know import *
from .state import HO, Ev

def lit(v):
    if isinstance(v, tuple):
        return T(*[lit(x) for x in v])
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes)):
        return C(v)
    raise TypeError


PURE_EXT = {
    "builtins.len", "builtins.id", "builtins.hash", "builtins.repr", "builtins.abs", "builtins.min", "builtins.max",
    "builtins.sum", "builtins.range", "builtins.enumerate", "builtins.zip", "builtins.map", "builtins.filter",
    "builtins.reversed", "builtins.iter", "builtins.callable", "builtins.ord", "builtins.chr", "builtins.round",
    "builtins.slice", "builtins.print", "builtins.memoryview", "builtins.isinstance", "builtins.issubclass",
    "builtins.hasattr", "builtins.vars", "builtins.globals", "builtins.locals", "builtins.dir",
    "re.compile", "re.escape", "contextlib.closing", "contextlib.suppress", "contextlib.nullcontext",
    "operator.attrgetter", "operator.itemgetter", "collections.namedtuple", "os.path.basename", "os.path.join",
    "os.path.dirname", "itertools.chain", "itertools.count", "itertools.islice", "itertools.repeat", "types.MappingProxyType",
    "collections.deque", "h5py.special_dtype", "h5py.string_dtype", "h5py.check_dtype", "h5py.check_string_dtype",
}
BAD = object()


def _codec(v):
    if v is None:
        return "utf8"
    if is_c(v) and isinstance(cval(v), str):
        s = cval(v).lower().replace("-", "").replace("_", "")
        return s
    return "?"


class BuiltinMixin:

    def pure(self, f, args, kws, st):
        return CL(f, tuple(args), tuple(kws))

    # external callables ----------------------------------------------------------
    def ext_call(self, f, args, kws, st, ctx, n):
        nm = f.a[0]
        kw = {k: v for k, v in kws if k}
        if nm.startswith("builtins."):
            h = getattr(self, "b_" + nm[9:].replace(".", "_"), None)
            if h is not None:
                r = h(args, kw, kws, st, ctx, n)
                if r is not None:
                    return r
            parts = nm.split(".")
            if len(parts) == 3 and args:
                # unbound method: dict.get(x, ...)
                a0 = args[0]
                if a0.k == "OBJ" and st.obj(a0) is not None:
                    if parts[1] == "object" and parts[2] == "__setattr__" and is_c(args[1]):
                        st = self.emit(st, Ev("setattr", a0, cval(args[1]), self.freeze(args[2], st), (), (), ctx.fn.loc(n)))
                        return [(NONE, self.raw_setattr(a0, cval(args[1]), args[2], st))]
                    if parts[1] == "object" and parts[2] == "__getattribute__" and is_c(args[1]):
                        if st.obj(a0).cls is not None and st.obj(a0).cls.k == "CLS":
                            return self.inst_attr(a0, cval(args[1]), st, ctx, n)
                    return self.method_call(AT(a0, parts[2]), args[1:], kws, st, ctx, n)
                if parts[1] in ("str", "bytes"):
                    return self.method_call(AT(a0, parts[2]), args[1:], kws, st, ctx, n)
                if parts[1] == "dict" and parts[2] == "fromkeys":
                    items, ok = self.seq_items(a0, st)
                    if ok:
                        v = args[1] if len(args) > 1 else NONE
                        return [st.alloc(self.site(n, ctx, "fromkeys"), HO("dict", None, (), (tuple((x, v) for x in dict.fromkeys(items)), ())))]
            c = EXT(nm)
            if len(parts) == 2 and issub(c, EXT("builtins.BaseException")):
                return [(mk("EXC", c, tuple(self.freeze(a, st) for a in args), NONE), st)]
        if nm == "functools.partial" and args:
            return [st.alloc(self.site(n, ctx, "partial"), HO("partial", None, (), (args[0], tuple(args[1:]), tuple(kws))))]
        if nm == "collections.ChainMap":
            lst, st = st.alloc(self.site(n, ctx, "cmaps"), HO("list", None, (), tuple(args)))
            return [st.alloc(self.site(n, ctx, "chainmap"), HO("chainmap", None, (), lst))]
        if nm in ("collections.OrderedDict", "collections.defaultdict") and not (nm.endswith("defaultdict") and len(args) > 1):
            o, st = st.alloc(self.site(n, ctx, "odict"), HO("dict", None, (), ((), ())))
            if nm.endswith("OrderedDict"):
                st = self.dict_init(o, args, kws, st)
            return [(o, st)]
        if nm == "contextlib.ExitStack":
            return [st.alloc(self.site(n, ctx, "exitstack"), HO("exitstack", None, (), ()))]
        if nm == "numpy.dtype" and len(args) == 1:
            a = args[0]
            while a.k in ("ENC", "DEC"):
                a = a.a[0]
            if a.k == "AT" and a.a[1] in ("str", "descr"):
                return [(a.a[0], st)]
        if nm in ("re.search", "re.match", "re.fullmatch", "re.sub", "re.split", "re.findall") and len(args) > 1 and not kws:
            r = self.re_method(CL(EXT("re.compile"), (args[0],)), nm[3:], list(args[1:]), st)
            if r is not None:
                return [(r, st)]
        if nm == "re.compile" and args and is_c(args[0]):
            return [(CL(f, tuple(args), tuple(kws)), st)]
        if nm.rpartition(".")[0] in ("os.path", "posixpath") and nm.rpartition(".")[2] in ("basename", "join", "dirname", "splitext", "normpath", "isabs") and args and all(is_c(a) for a in args):
            import posixpath
            try:
                return [(C(getattr(posixpath, nm.rpartition(".")[2])(*[cval(a) for a in args])), st)]
            except Exception:
                pass
        if nm == "itertools.chain" and args:
            acc, ok = [], True
            for a in args:
                it, k = self.elements(a, st)
                ok = ok and k
                acc += it
            if ok:
                return [st.alloc(self.site(n, ctx, "chain"), HO("list", None, (), tuple(acc)))]
        if nm == "ast.literal_eval" and len(args) == 1 and is_c(args[0]) and isinstance(cval(args[0]), str):
            import ast
            try:
                return [(lit(ast.literal_eval(cval(args[0]))), st)]
            except (ValueError, SyntaxError) as e:
                self.throw(mk("EXC", EXT("builtins." + type(e).__name__), (), NONE), st)
                return []
            except TypeError:
                pass
        if nm == "typing.cast" and len(args) == 2:
            return [(args[1], st)]
        if nm in PURE_EXT:
            return [(self.pure(f, args if nm.split(".")[-1] in ("enumerate", "zip", "map", "reversed", "iter", "closing") else
                               [self.freeze(a, st) for a in args], [(k, self.freeze(v, st)) for k, v in kws], st), st)]
        return self.opaque(f, args, kws, st, ctx, n)

    def b_isinstance(self, args, kw, kws, st, ctx, n):
        if len(args) != 2:
            return None
        x, c = args
        x = x if x.k == "OBJ" else self.freeze(x, st)
        cs = []

        def flat(y):
            items, ok = self.seq_items(y, st) if y.k in ("TUP", "OBJ") else ((), False)
            if ok:
                for z in items:
                    flat(z)
            else:
                cs.append(y)
        flat(c)
        und = []
        for y in cs:
            if y.k == "BIN" and y.a[0] == "BitOr":
                cs.extend(y.a[1:])
                continue
            if y.k == "CL" and y.a[0] is EXT("builtins.type") and y.a[1] == (NONE,):
                y = EXT("builtins.NoneType")
            d = self.decide_isi(x, y, st)
            if d is True:
                return [(TRUE, st)]
            if d is None:
                und.append(mk("ISI", x, y))
        if not und:
            return [(FALSE, st)]
        return [(und[0] if len(und) == 1 else mk("OR", tuple(und)), st)]

    def b_issubclass(self, args, kw, kws, st, ctx, n):
        if len(args) != 2:
            return None
        cs, ok = self.seq_items(args[1], st) if args[1].k in ("TUP", "OBJ") else ((args[1],), True)
        if not ok:
            return None
        a = args[0]
        und = []
        for c in cs:
            r = None
            if a.k in ("EXT", "CLS"):
                r = issub(a, c)
            elif a.k == "AT" and a.a[1] == "__class__":
                r = self.decide_isi(a.a[0], c, st)
                if r is None:
                    und.append(mk("ISI", a.a[0], c))
                    continue
            if r is True:
                return [(TRUE, st)]
            if r is None:
                und.append(CL(EXT("builtins.issubclass"), (a, c)))
        if not und:
            return [(FALSE, st)]
        return [(und[0] if len(und) == 1 else mk("OR", tuple(und)), st)]

    def b_type_mro(self, args, kw, kws, st, ctx, n):
        if len(args) == 1 and args[0].k == "CLS":
            return [st.alloc(self.site(n, ctx, "mro"), HO("list", None, (), tuple(args[0].a[0].mro())))]
        if len(args) == 1 and args[0].k == "EXT" and known_class(args[0].a[0]):
            return [st.alloc(self.site(n, ctx, "mro"), HO("list", None, (), tuple(EXT(x) for x in ext_mro(args[0].a[0]))))]
        return [(CL(EXT("builtins.type.mro"), [self.freeze(a, st) for a in args]), st)]

    def b_type(self, args, kw, kws, st, ctx, n):
        if len(args) == 1:
            if args[0] is NONE:
                return [(EXT("builtins.NoneType"), st)]
            return self.attr(args[0], "__class__", st, ctx, n)
        return None

    def b_super(self, args, kw, kws, st, ctx, n):
        if len(args) == 2 and args[0].k == "CLS":
            return [(mk("SUPER", args[0], args[1]), st)]
        return [(TOP("super"), st)]

    def b_object(self, args, kw, kws, st, ctx, n):
        return [st.alloc(self.site(n, ctx, "object"), HO("inst", EXT("builtins.object"), (), None))]

    def b_getattr(self, args, kw, kws, st, ctx, n):
        if len(args) < 2 or not (is_c(args[1]) and isinstance(cval(args[1]), str)):
            return [(CL(EXT("builtins.getattr"), [self.freeze(a, st) for a in args]), st)]
        b, name = args[0], cval(args[1])
        if len(args) == 2:
            return self.attr(b, name, st, ctx, n)
        h = self.has(b, name, st)
        if h is True:
            return self.attr(b, name, st, ctx, n)
        if h is False:
            return [(args[2], st)]
        if (b, name) in st.sym:
            return [(st.sym[(b, name)], st)]
        if self.model_attr is not None:
            saved, self.sink = self.sink, []
            r = self.model_attr(b, name, st, ctx, n)
            thrown, self.sink = self.sink, saved
            if r is not None:
                r = list(r)
                for x, s in thrown:
                    if x.k == "EXC" and cname(x.a[0]) == "builtins.AttributeError":
                        r.append((args[2], s))
                    else:
                        self.throw(x, s)
                return r
        return [(CL(EXT("builtins.getattr"), (self.freeze(b, st), args[1], self.freeze(args[2], st))), st)]

    def has(self, b, name, st):
        if b.k == "MOD":
            return name in (st.frame(("mod", b.a[0])) or {}) or b.a[0] + "." + name in self.repo.trees
        if b.k == "CLS":
            v, o = self.class_lookup(b.a[0], name, st)
            if v is not None:
                return True
            return False if o is None or (o.k == "EXT" and o.a[0].startswith("builtins.") and not name.startswith("__")) else None
        if b.k == "OBJ" and st.obj(b) is not None and st.obj(b).cls is not None and st.obj(b).cls.k == "CLS":
            o = st.obj(b)
            if any(a == name for a, _ in o.attrs):
                return True
            v, ow = self.class_lookup(o.cls.a[0], name, st)
            if v is not None:
                return True
            return False if ow is None else None
        if b.k == "EXT" and b.a[0].startswith("builtins."):
            import builtins
            x = getattr(builtins, b.a[0][9:], BAD)
            if isinstance(x, type):
                return hasattr(x, name)
        k = kind_of(b, st) if b.k in ("S", "CL", "IX") else None
        if k is not None and cname(k) in ("h5py.Group", "h5py.File", "h5py.Dataset"):
            if name in ("attrs", "file", "id", "name", "parent", "ref"):
                return True
            if name in ("dtype", "shape", "size", "ndim", "maxshape", "chunks", "compression", "nbytes"):
                return cname(k) == "h5py.Dataset"
            if name in ("keys", "values", "items", "get", "create_group", "create_dataset", "require_group", "visit"):
                return cname(k) != "h5py.Dataset"
        if is_c(b):
            return hasattr(cval(b), name)
        if b.k == "TUP":
            return hasattr((), name)
        return None

    def b_hasattr(self, args, kw, kws, st, ctx, n):
        if len(args) == 2 and is_c(args[1]):
            h = self.has(args[0], cval(args[1]), st)
            if h is not None:
                return [(C(h), st)]
        return [(CL(EXT("builtins.hasattr"), [self.freeze(a, st) for a in args]), st)]

    def b_setattr(self, args, kw, kws, st, ctx, n):
        if len(args) == 3 and is_c(args[1]) and isinstance(cval(args[1]), str):
            return [(NONE, s) for s in self.setattr_(args[0], cval(args[1]), args[2], st, ctx, n)]
        return None

    def b_len(self, args, kw, kws, st, ctx, n):
        if len(args) == 1:
            items, ok = self.seq_items(args[0], st)
            if ok and args[0].k != "SET":
                return [(C(len(items)), st)]
        return None

    def b_bool(self, args, kw, kws, st, ctx, n):
        if not args:
            return [(FALSE, st)]
        return [(C(b), s) for b, s in self.truth(args[0], st)]

    def b_str(self, args, kw, kws, st, ctx, n):
        if not args:
            return [(C(""), st)]
        v = args[0]
        if len(args) > 1 or kw:
            codec = args[1] if len(args) > 1 else kw.get("encoding")
            return self.method_call(AT(v, "decode"), [codec] if codec is not None else [], [], st, ctx, n)
        if is_c(v):
            return [(C(str(cval(v))), st)]
        if v.k == "EXT" and v.a[0].startswith("builtins.") and known_class(v.a[0]):
            return [(C("<class '%s'>" % v.a[0][9:]), st)]
        k = kind_of(v, st)
        if k is EXT("builtins.str"):
            return [(v, st)]
        return [(mk("STRF", self.freeze(v, st)), st)]

    def b_repr(self, args, kw, kws, st, ctx, n):
        v = args[0]
        if is_c(v):
            return [(C(repr(cval(v))), st)]
        return [(mk("REPR", self.freeze(v, st)), st)]

    b_ascii = b_repr

    def _num(self, f, name, args, kw, st):
        if not args:
            return [(C(f()), st)]
        if all(is_c(a) for a in args) and not kw:
            try:
                return [(C(f(*[cval(a) for a in args])), st)]
            except Exception:
                self.throw(mk("EXC", EXT("builtins.ValueError"), (), NONE), st)
                return []
        return None

    def b_int(self, args, kw, kws, st, ctx, n):
        return self._num(int, "int", args, kw, st)

    def b_float(self, args, kw, kws, st, ctx, n):
        return self._num(float, "float", args, kw, st)

    def b_complex(self, args, kw, kws, st, ctx, n):
        return self._num(complex, "complex", args, kw, st)

    def b_bytes(self, args, kw, kws, st, ctx, n):
        if not args:
            return [(C(b""), st)]
        if len(args) == 2:
            return self.method_call(AT(args[0], "encode"), [args[1]], [], st, ctx, n)
        v = args[0]
        if strkind(v, st) == "bytes":
            return [(v, st)]
        return None

    def b_list(self, args, kw, kws, st, ctx, n):
        site = self.site(n, ctx, "list()")
        if not args:
            return [st.alloc(site, HO("list", None, (), ()))]
        v = args[0]
        res = []
        for data, s in self.collect(v, st, ctx, n):
            res.append(s.alloc(site, HO("list", None, (), tuple(data))))
        return res

    def collect(self, v, st, ctx, n):
        """[(items, state)] of exhausting an iterable"""
        items, ok = self.elements(v, st)
        if ok:
            return [(tuple(items), st)]
        if v.k == "OBJ" and st.obj(v) is not None and st.obj(v).kind == "gen":
            acc, s0 = st.alloc(self.site(n, ctx, "collect"), HO("list", None, (), ()))

            def hook(x, s):
                o = s.obj(acc)
                return [("N", NONE, s.setobj(acc, o._replace(data=o.data + (mk("STAR", mk("GEN", self.freeze(x, s), v, ()), frozenset()),))))]
            res = []
            for o in self.run_gen(v, s0, ctx, hook, n):
                if o[0] in ("N", "R"):
                    res.append((o[2].obj(acc).data, o[2]))
                elif o[0] == "X":
                    self.throw(o[1], o[2])
            return res
        if v.k == "OBJ" and st.obj(v) is not None and st.obj(v).kind in ("list", "set"):
            return [(st.obj(v).data, st)]
        if v.k in ("LST", "SET", "TUP"):
            return [(v.a, st)]
        for s in self.opaque_may_raise(AT(self.freeze(v, st), "__iter__"), (), (), st, ctx, n):
            return [((mk("STAR", self.freeze(v, s), frozenset()),), s)]

    def b_tuple(self, args, kw, kws, st, ctx, n):
        if not args:
            return [(T(), st)]
        v = args[0]
        if v.k == "TUP":
            return [(v, st)]
        res = []
        for data, s in self.collect(v, st, ctx, n):
            if len(data) == 1 and data[0].k == "STAR":
                x = data[0].a[0]
                res.append((CL(EXT("builtins.tuple"), (x,)), s))
            else:
                res.append((T(*data), s))
        return res

    def b_set(self, args, kw, kws, st, ctx, n):
        site = self.site(n, ctx, "set()")
        if not args:
            return [st.alloc(site, HO("set", None, (), ()))]
        return [s.alloc(site, HO("set", None, (), tuple(dict.fromkeys(d)))) for d, s in self.collect(args[0], st, ctx, n)]

    def b_frozenset(self, args, kw, kws, st, ctx, n):
        if not args:
            return [(mk("SET"), st)]
        res = []
        for d, s in self.collect(args[0], st, ctx, n):
            if len(d) == 1 and d[0].k == "STAR":
                res.append((CL(EXT("builtins.frozenset"), (d[0].a[0],)), s))
            else:
                res.append((mk("SET", *d), s))
        return res

    def b_dict(self, args, kw, kws, st, ctx, n):
        o, st = st.alloc(self.site(n, ctx, "dict()"), HO("dict", None, (), ((), ())))
        return [(o, self.dict_init(o, args, kws, st))]

    def b_iter(self, args, kw, kws, st, ctx, n):
        if len(args) == 1 and args[0].k == "OBJ" and st.obj(args[0]) is not None and st.obj(args[0]).kind == "gen":
            return [(args[0], st)]
        return None

    def b_next(self, args, kw, kws, st, ctx, n):
        g = args[0]
        if g.k == "OBJ" and st.obj(g) is not None and st.obj(g).kind == "gen":
            res = []

            def hook(v, s):
                return [("ESCN", v, s)]
            for o in self.run_gen(g, st, ctx, hook, n):
                if o[0] == "ESCN":
                    res.append((o[1], o[2]))
                elif o[0] == "X":
                    self.throw(o[1], o[2])
                elif len(args) > 1:
                    res.append((args[1], o[2]))
                else:
                    self.throw(mk("EXC", EXT("builtins.StopIteration"), (), NONE), o[2])
            return res
        inner = g.a[1][0] if g.k == "CL" and g.a[0] is EXT("builtins.iter") and g.a[1] else g
        items, ok = self.elements(inner, st)
        if ok:
            if items:
                return [(items[0], st)]
            if len(args) > 1:
                return [(args[1], st)]
            self.throw(mk("EXC", EXT("builtins.StopIteration"), (), NONE), st)
            return []
        src, el, pre = self.generic_elem(g, st)
        if len(args) > 1:
            return [(CL(EXT("builtins.next"), (self.freeze(g, st), self.freeze(args[1], st))), st)]
        return [(el, s) for s in self.opaque_may_raise(EXT("builtins.next"), (g,), (), st, ctx, n)]

    def b_map(self, args, kw, kws, st, ctx, n):
        if len(args) == 2:
            items, ok = self.elements(args[1], st)
            if ok:
                live = [((), st)]
                for x in items:
                    live = [(vs + (v,), s2) for vs, s in live for v, s2 in self.call(args[0], [x], [], s, ctx, n)]
                return [s.alloc(self.site(n, ctx, "map"), HO("list", None, (), vs)) for vs, s in live]
            if args[0].k in ("FN", "BM"):
                src, el, pre = self.generic_elem(args[1], st)
                return [(mk("GEN", self.freeze(v, s), src, tuple(pre)), s) for v, s in self.call(args[0], [el], [], st, ctx, n)]
        return None

    def _anyall(self, args, st, ctx, n, isall):
        if len(args) != 1:
            return None
        items, ok = self.elements(args[0], st)
        if not ok:
            if args[0].k == "GEN":
                return [(CL(EXT("builtins.all" if isall else "builtins.any"), (args[0],)), st)]
            if args[0].k == "OBJ":
                return [(CL(EXT("builtins.all" if isall else "builtins.any"), (self.freeze(args[0], st),)), st)]
            return None
        res, live = [], [st]
        for x in items:
            nxt = []
            for s in live:
                for b, s2 in self.truth(x, s):
                    if b == isall:
                        nxt.append(s2)
                    else:
                        res.append((C(b), s2))
            live = nxt
        return res + [(C(isall), s) for s in live]

    def b_all(self, args, kw, kws, st, ctx, n):
        return self._anyall(args, st, ctx, n, True)

    def b_any(self, args, kw, kws, st, ctx, n):
        return self._anyall(args, st, ctx, n, False)

    def const_tuple(self, v, st):
        """(value,) of a constant or of a tuple of constants"""
        if is_c(v):
            return (cval(v),)
        if v.k != "TUP":
            return None
        it = v.a
        r = [self.const_tuple(x, st) for x in it]
        return None if None in r else (tuple(x[0] for x in r),)

    def b_sorted(self, args, kw, kws, st, ctx, n):
        if len(args) == 1 and not kws:
            items, ok = self.elements(args[0], st)
            if ok and all(is_c(x) for x in items):
                try:
                    return [st.alloc(self.site(n, ctx, "sorted"), HO("list", None, (), tuple(C(v) for v in sorted(cval(x) for x in items))))]
                except TypeError:
                    pass
        elif len(args) == 1 and set(kw) <= {"key", "reverse"} and len(kw) == len(kws) and is_c(kw.get("reverse", FALSE)):
            items, ok = self.elements(args[0], st)
            if ok and items and all(is_c(x) for x in items):
                pos, s2 = [], st
                for x in items:
                    r = self.call(kw["key"], [x], [], s2, ctx, n) if kw.get("key", NONE) is not NONE else [(x, s2)]
                    y = self.const_tuple(r[0][0], r[0][1]) if len(r) == 1 else None
                    if y is None:
                        break
                    pos.append(y)
                    s2 = r[0][1]
                else:
                    try:
                        order = sorted(range(len(items)), key=lambda j: pos[j][0], reverse=bool(cval(kw.get("reverse", FALSE))))
                        return [s2.alloc(self.site(n, ctx, "sorted"), HO("list", None, (), tuple(items[j] for j in order)))]
                    except TypeError:
                        pass
        return [(CL(EXT("builtins.sorted"), [self.freeze(a, st) for a in args], [(k, self.freeze(v, st)) for k, v in kws]), st)]

    def b_callable(self, args, kw, kws, st, ctx, n):
        if args[0].k in ("FN", "BM", "CLS"):
            return [(TRUE, st)]
        if args[0].k in ("C", "TUP"):
            return [(FALSE, st)]
        return None

    def b_format(self, args, kw, kws, st, ctx, n):
        return [(self.fmt_value(args[0], None, cval(args[1]) if len(args) > 1 and is_c(args[1]) else "", st), st)]

    def b_print(self, args, kw, kws, st, ctx, n):
        return [(NONE, st)]

    def b_range(self, args, kw, kws, st, ctx, n):
        return [(CL(EXT("builtins.range"), [self.freeze(a, st) for a in args]), st)]

    def b_min(self, args, kw, kws, st, ctx, n):
        if len(args) > 1 and all(is_c(a) for a in args):
            try:
                return [(C(min(cval(a) for a in args)), st)]
            except TypeError:
                pass
        return None

    def b_max(self, args, kw, kws, st, ctx, n):
        if len(args) > 1 and all(is_c(a) for a in args):
            try:
                return [(C(max(cval(a) for a in args)), st)]
            except TypeError:
                pass
        return None

    # methods ---------------------------------------------------------------------------
    def method_call(self, f, args, kws, st, ctx, n):
        b, m = f.a
        if b.k == "SUPER":
            return self.super_call(b, m, args, kws, st, ctx, n)
        if b.k == "OBJ" and st.obj(b) is not None:
            h = getattr(self, "m_" + st.obj(b).kind + "_" + m, None)
            if h is not None:
                r = h(b, args, kws, st, ctx, n)
                if r is not None:
                    return r
        if b.k == "DCT" or (b.k == "OBJ" and st.obj(b) is not None and st.obj(b).kind == "dict"):
            if m in ("items", "keys", "values") and not args:
                return [(CL(f), st)]
        if m in STR_METHODS or m in ("encode", "decode"):
            r = self.str_method(b, m, args, kws, st, ctx, n)
            if r is not None:
                return r
        if m in SET_METHODS and len(args) == 1 and not kws and self.setish(b, st):
            r = set_algebra(m, self.set_items(b, st), self.set_items(args[0], st))
            if r is not None:
                return [(r, st)]
        if m == "__getitem__" and len(args) == 1:
            return self.getitem(b, args[0], st, ctx, n)
        if m == "__setitem__" and len(args) == 2:
            return [(NONE, s) for s in self.setitem(b, args[0], args[1], st, ctx, n)]
        if m == "mro" and b.k in ("CLS",) and not args:
            return self.b_type_mro([b], {}, [], st, ctx, n)
        if m == "__enter__" and b.k in ("CL",):
            return [(b, st)]
        if m in ("items", "keys", "values") and not args and not kws:
            return [(CL(AT(self.freeze(b, st), m)), st)]
        if b.k == "CL" and b.a[0] is EXT("re.compile") and m in ("match", "search", "sub", "fullmatch", "split", "findall"):
            r = self.re_method(b, m, args, st)
            if r is not None:
                return [(r, st)]
            return [(CL(f, [self.freeze(a, st) for a in args]), st)]
        if b.k == "MATCH" and m in ("group", "groups", "start", "end", "span") and all(is_c(a) for a in args):
            import re
            try:
                r = getattr(getattr(re.compile(cval(b.a[0])), cval(b.a[1]))(cval(b.a[2])), m)(*[cval(a) for a in args])
                return [(T(*[C(x) for x in r]) if isinstance(r, tuple) else C(r), st)]
            except Exception:
                pass
        if b.k == "GEN" and m == "__iter__":
            return [(b, st)]
        return self.opaque(f, args, kws, st, ctx, n)

    def re_method(self, b, m, args, st):
        if m in ("match", "search", "fullmatch") and args and is_c(args[0]) and is_c(b.a[1][0]):
            import re
            try:
                r = getattr(re.compile(cval(b.a[1][0])), m)(cval(args[0]))
            except Exception:
                return None
            if r is None:
                return NONE
            return mk("MATCH", b.a[1][0], C(m), args[0])
        if m == "sub" and len(args) == 2 and is_c(args[0]) and is_c(args[1]) and is_c(b.a[1][0]):
            import re
            try:
                return C(re.compile(cval(b.a[1][0])).sub(cval(args[0]), cval(args[1])))
            except Exception:
                return None
        return None

    def str_method(self, b, m, args, kws, st, ctx, n):
        kw = {k: v for k, v in kws if k}
        if m == "encode":
            codec = _codec(args[0] if args else kw.get("encoding"))
            if b.k == "DEC" and b.a[1] == codec:
                return [(b.a[0], st)]
            if is_c(b) and isinstance(cval(b), str) and codec != "?":
                try:
                    return [(C(cval(b).encode(codec)), st)]
                except Exception:
                    return None
            if b.k == "CAT":
                return [(cat("bytes", [mk("ENC", p, codec) if not is_c(p) else C(cval(p).encode(codec)) for p in b.a[1]])
                         if codec != "?" else mk("ENC", b, codec), st)]
            kd = kind_of(b, st)
            if kd is not None and cname(kd) != "builtins.str":
                return None
            r = mk("ENC", b, codec)
            return [(r, s) for s in self.opaque_may_raise(AT(b, m), tuple(args), tuple(kws), st, ctx, n)]
        if m == "decode":
            codec = _codec(args[0] if args else kw.get("encoding"))
            if b.k == "ENC" and (b.a[1] == codec or {b.a[1], codec} <= {"utf8", "ascii"}):
                return [(b.a[0], st)]
            if is_c(b) and isinstance(cval(b), bytes) and codec != "?":
                try:
                    return [(C(cval(b).decode(codec)), st)]
                except Exception:
                    return None
            if b.k == "CAT" and b.a[0] == "bytes":
                parts = []
                for p in b.a[1]:
                    for v, _ in self.str_method(p, "decode", args, kws, st, ctx, n) or [(mk("DEC", p, codec), st)]:
                        parts.append(v)
                        break
                return [(cat("str", parts), st)]
            kd = kind_of(b, st)
            if kd is not None and cname(kd) != "builtins.bytes":
                return None
            r = mk("DEC", b, codec)
            return [(r, s) for s in self.opaque_may_raise(AT(b, m), tuple(args), tuple(kws), st, ctx, n)]
        if is_c(b) and isinstance(cval(b), (str, bytes)):
            fz = [self.freeze(a, st) for a in args]
            if m == "format" and isinstance(cval(b), str):
                r = self.format_term(cval(b), fz, {k: self.freeze(v, st) for k, v in kw.items()}, st)
                if r is not None:
                    return [(r, st)]
                return [(mk("STRF", CL(AT(b, "format"), fz)), st)]
            if m == "join" and fz:
                items, ok = self.elements(args[0], st)
                if ok:
                    parts = []
                    for i, x in enumerate(items):
                        if i:
                            parts.append(b)
                        parts.append(x)
                    return [(cat("str" if isinstance(cval(b), str) else "bytes", parts), st)]
                return [(CL(AT(b, "join"), fz), st)]
            if m in STR_METHODS:
                vals = []
                for a in fz:
                    if is_c(a):
                        vals.append(cval(a))
                    elif a.k == "TUP" and all(is_c(x) for x in a.a):
                        vals.append(tuple(cval(x) for x in a.a))
                    else:
                        return [(CL(AT(b, m), fz), st)]
                try:
                    r = getattr(cval(b), m)(*vals)
                except Exception:
                    return None
                if isinstance(r, list):
                    return [st.alloc(self.site(n, ctx, "strlist"), HO("list", None, (), tuple(C(x) for x in r)))]
                if isinstance(r, tuple):
                    return [(T(*[C(x) for x in r]), st)]
                return [(C(r), st)]
            return None
        if b.k == "CAT" and m in ("startswith", "endswith") and args:
            opts = [args[0]] if is_c(args[0]) else (list(args[0].a) if args[0].k == "TUP" and all(is_c(x) for x in args[0].a) else None)
            if opts is not None:
                p = b.a[1][0 if m == "startswith" else -1]
                if is_c(p):
                    verd = []
                    for o in opts:
                        pv, ov = cval(p), cval(o)
                        if len(pv) >= len(ov):
                            verd.append(getattr(pv, m)(ov))
                        else:
                            verd.append(None if (ov.startswith(pv) if m == "startswith" else ov.endswith(pv)) else False)
                    if any(v is True for v in verd):
                        return [(TRUE, st)]
                    if all(v is False for v in verd):
                        return [(FALSE, st)]
        kd = strkind(b, st)
        if kd is not None:
            return [(CL(AT(b, m), [self.freeze(a, st) for a in args], [(k, self.freeze(v, st)) for k, v in kws]), st)]
        return None

    def format_term(self, fmt, args, kw, st):
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(fmt):
                if lit:
                    parts.append(C(lit))
                if field is None:
                    continue
                if field == "":
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    return None
                if v.k == "STAR" or "{" in (spec or ""):
                    return None
                if spec == "d" and conv is None:
                    spec = ""
                if spec == "s" and conv == "r":
                    spec = ""
                parts.append(self.fmt_value(v, conv, spec or "", st))
        except (ValueError, IndexError):
            return None
        return cat("str", parts)

    def super_call(self, b, m, args, kws, st, ctx, n):
        cls, s0 = b.a
        extb = [c for c in cls.a[0].mro() if c.k == "EXT" and c is not EXT("builtins.object")]
        if m == "__new__":
            c = args[0] if args else cls
            if c.k == "CLS":
                if issub(c, EXT("builtins.type")):
                    return [(TOP("class"), st)]
                if issub(c, EXT("builtins.dict")):
                    return [st.alloc(self.site(n, ctx, "new"), HO("dict", c, (), ((), ())))]
                if not [x for x in c.a[0].mro() if x.k == "EXT" and x is not EXT("builtins.object")]:
                    return [st.alloc(self.site(n, ctx, "new"), HO("inst", c, (), None))]
            return self.opaque(EXT((extb[0].a[0] if extb else "builtins.object") + ".__new__"), args, kws, st, ctx, n)
        if s0.k == "OBJ" and st.obj(s0) is not None:
            o = st.obj(s0)
            if m == "__init__":
                if o.kind == "dict":
                    return [(NONE, self.dict_init(s0, args, kws, st))]
                if extb and (args or kws):
                    st = self.emit(st, Ev("superinit", s0, None, extb[0], tuple(self.freeze(x, st) for x in args), tuple((k, self.freeze(x, st)) for k, x in kws), ctx.fn.loc(n)))
                return [(NONE, st)]
            if m == "__setitem__" and len(args) == 2:
                st = self.emit(st, Ev("setitem", s0, self.freeze(args[0], st), self.freeze(args[1], st), (), (), ctx.fn.loc(n)))
                return [(NONE, self.raw_setitem(s0, args[0], args[1], st))]
            if m == "__setattr__" and len(args) == 2 and is_c(args[0]):
                st = self.emit(st, Ev("setattr", s0, cval(args[0]), self.freeze(args[1], st), (), (), ctx.fn.loc(n)))
                return [(NONE, self.raw_setattr(s0, cval(args[0]), args[1], st))]
            if m == "__getattribute__" and len(args) == 1 and is_c(args[0]):
                return self.inst_attr(s0, cval(args[0]), st, ctx, n)
            if m == "__getitem__" and len(args) == 1 and o.kind == "dict":
                return self.dict_get(s0, args[0], None, st, ctx, n)
            h = getattr(self, "m_" + o.kind + "_" + m, None)
            if h is not None:
                r = h(s0, args, kws, st, ctx, n)
                if r is not None:
                    return r
        if m in ("__init__", "__enter__", "__init_subclass__"):
            return [(NONE, st)]
        return self.opaque(AT(b, m), args, kws, st, ctx, n)

    # container methods -------------------------------------------------------------------
    def mut(self, st, b, m, args, ctx, n):
        return self.emit(st, Ev("hmut", b, m, NONE, tuple(self.freeze(a, st) for a in args), (), ctx.fn.loc(n)))

    def m_list_append(self, b, args, kws, st, ctx, n):
        st = self.mut(st, b, "append", args, ctx, n)
        o = st.obj(b)
        if len(o.data) > 400:
            return [(NONE, st)]
        return [(NONE, st.setobj(b, o._replace(data=o.data + (args[0],))))]

    def m_list_extend(self, b, args, kws, st, ctx, n):
        res = []
        for d, s in self.collect(args[0], st, ctx, n):
            s = self.mut(s, b, "extend", args, ctx, n)
            o = s.obj(b)
            res.append((NONE, s.setobj(b, o._replace(data=o.data + tuple(d)))))
        return res

    def m_list_insert(self, b, args, kws, st, ctx, n):
        st = self.mut(st, b, "insert", args, ctx, n)
        o = st.obj(b)
        if is_c(args[0]) and isinstance(cval(args[0]), int):
            l = list(o.data)
            l.insert(cval(args[0]), args[1])
        else:
            l = list(o.data) + [mk("AT_POS", args[0], args[1])]
        return [(NONE, st.setobj(b, o._replace(data=tuple(l))))]

    def m_list_pop(self, b, args, kws, st, ctx, n):
        items, ok = self.seq_items(b, st)
        st = self.mut(st, b, "pop", args, ctx, n)
        o = st.obj(b)
        if ok and (not args or is_c(args[0])):
            l = list(items)
            try:
                v = l.pop(*[cval(a) for a in args])
            except IndexError:
                self.throw(mk("EXC", EXT("builtins.IndexError"), (), NONE), st)
                return []
            return [(v, st.setobj(b, o._replace(data=tuple(l))))]
        return [(mk("EL", self.freeze(b, st)), st)]

    def m_list_copy(self, b, args, kws, st, ctx, n):
        return [st.alloc(self.site(n, ctx, "copy"), HO("list", None, (), st.obj(b).data))]

    def m_list_clear(self, b, args, kws, st, ctx, n):
        st = self.mut(st, b, "clear", args, ctx, n)
        return [(NONE, st.setobj(b, st.obj(b)._replace(data=())))]

    def m_list_reverse(self, b, args, kws, st, ctx, n):
        st = self.mut(st, b, "reverse", args, ctx, n)
        o = st.obj(b)
        return [(NONE, st.setobj(b, o._replace(data=o.data[::-1])))]

    def m_list_sort(self, b, args, kws, st, ctx, n):
        res = []
        for v, s in self.b_sorted([b], dict(kws), kws, st, ctx, n):
            o = s.obj(b)
            d = s.obj(v).data if v.k == "OBJ" and s.obj(v) is not None else tuple(mk("EL", v) for _ in o.data)
            res.append((NONE, self.mut(s, b, "sort", args, ctx, n).setobj(b, o._replace(data=d))))
        return res

    def m_list_count(self, b, args, kws, st, ctx, n):
        items, ok = self.seq_items(b, st)
        if ok and len(args) == 1 and is_c(args[0]) and all(is_c(x) or x.k in ("MATCH", "TUP", "OBJ") for x in items):
            return [(C(sum(1 for x in items if is_c(x) and cval(x) == cval(args[0]))), st)]
        return None

    def m_list_remove(self, b, args, kws, st, ctx, n):
        st = self.mut(st, b, "remove", args, ctx, n)
        o = st.obj(b)
        l = list(o.data)
        if args[0] in l:
            l.remove(args[0])
        return [(NONE, st.setobj(b, o._replace(data=tuple(l))))]

    def m_set_add(self, b, args, kws, st, ctx, n):
        st = self.mut(st, b, "add", args, ctx, n)
        o = st.obj(b)
        if args[0] in o.data:
            return [(NONE, st)]
        return [(NONE, st.setobj(b, o._replace(data=o.data + (args[0],))))]

    def m_set_discard(self, b, args, kws, st, ctx, n):
        st = self.mut(st, b, "discard", args, ctx, n)
        o = st.obj(b)
        return [(NONE, st.setobj(b, o._replace(data=tuple(x for x in o.data if x is not args[0]))))]

    m_set_remove = m_set_discard

    def m_set_update(self, b, args, kws, st, ctx, n):
        st = self.mut(st, b, "update", args, ctx, n)
        live = [st]
        for a in args:
            nxt = []
            for s in live:
                for d, s2 in self.collect(a, s, ctx, n):
                    o = s2.obj(b)
                    nxt.append(s2.setobj(b, o._replace(data=tuple(dict.fromkeys(o.data + tuple(d))))))
            live = nxt
        return [(NONE, s) for s in live]

    def m_set_copy(self, b, args, kws, st, ctx, n):
        return [st.alloc(self.site(n, ctx, "copy"), HO("set", None, (), st.obj(b).data))]

    def m_dict_get(self, b, args, kws, st, ctx, n):
        if st.obj(b).cls is not None and st.obj(b).cls.k == "CLS":
            f, _ = self.class_lookup(st.obj(b).cls.a[0], "__missing__", st)
        return self.dict_get(b, args[0], args[1] if len(args) > 1 else NONE, st, ctx, n)

    def m_dict___getitem__(self, b, args, kws, st, ctx, n):
        return self.dict_get(b, args[0], None, st, ctx, n)

    def m_dict___contains__(self, b, args, kws, st, ctx, n):
        return [(self.cmp("in", args[0], b, st), st)]

    def _dict_del(self, b, key, st):
        o = st.obj(b)
        items = tuple(x for x in o.data[0] if x[0] is not key)
        stars = tuple(x if x.a[1] is None or not is_c(key) else mk("STAR", x.a[0], x.a[1] | {cval(key)}) for x in o.data[1])
        return st.setobj(b, o._replace(data=(items, stars)))

    def m_dict_pop(self, b, args, kws, st, ctx, n):
        st = self.mut(st, b, "pop", args, ctx, n)
        res = self.dict_get(b, args[0], args[1] if len(args) > 1 else None, st, ctx, n)
        return [(v, self._dict_del(b, args[0], s)) for v, s in res]

    def m_dict_setdefault(self, b, args, kws, st, ctx, n):
        d = args[1] if len(args) > 1 else NONE
        miss = mk("MISSING")
        res = []
        for v, s in self.dict_get(b, args[0], miss, st, ctx, n):
            if v is miss:
                s = self.emit(s, Ev("setitem", b, self.freeze(args[0], s), self.freeze(d, s), (), (), ctx.fn.loc(n)))
                res.append((d, self.raw_setitem(b, args[0], d, s)))
            elif contains(v, miss):
                # unknown mapping: either its value or the default
                s = self.emit(s, Ev("setitem", b, self.freeze(args[0], s), self.freeze(d, s), (), (), ctx.fn.loc(n)))
                res.append((d, self.raw_setitem(b, args[0], d, s)))
            else:
                res.append((v, s))
        return res

    def m_dict_update(self, b, args, kws, st, ctx, n):
        st = self.mut(st, b, "update", args, ctx, n)
        for a in args:
            st = self.dict_update(b, a, st)
        return [(NONE, self.dict_init(b, (), kws, st))]

    def m_dict_copy(self, b, args, kws, st, ctx, n):
        o = st.obj(b)
        return [st.alloc(self.site(n, ctx, "copy"), HO("dict", None, (), o.data))]

    def m_dict_clear(self, b, args, kws, st, ctx, n):
        st = self.mut(st, b, "clear", args, ctx, n)
        return [(NONE, st.setobj(b, st.obj(b)._replace(data=((), ()))))]

    def m_chainmap_get(self, b, args, kws, st, ctx, n):
        return self.chain_get(b, args[0], args[1] if len(args) > 1 else NONE, st, ctx, n)

    def m_chainmap_new_child(self, b, args, kws, st, ctx, n):
        if args:
            first = args[0]
        else:
            first, st = st.alloc(self.site(n, ctx, "nc"), HO("dict", None, (), ((), ())))
        maps = st.obj(st.obj(b).data).data
        lst, st = st.alloc(self.site(n, ctx, "cmaps"), HO("list", None, (), (first,) + tuple(maps)))
        return [st.alloc(self.site(n, ctx, "chainmap"), HO("chainmap", None, (), lst))]

    def m_exitstack_callback(self, b, args, kws, st, ctx, n):
        o = st.obj(b)
        return [(args[0], st.setobj(b, o._replace(data=o.data + (("call", args[0], tuple(args[1:]), tuple(kws)),))))]

    def m_exitstack_enter_context(self, b, args, kws, st, ctx, n):
        cm = args[0]
        o = st.obj(b)
        st = st.setobj(b, o._replace(data=o.data + (("cm", cm),)))
        if cm.k == "OBJ" and st.obj(cm) is not None and st.obj(cm).cls is not None and st.obj(cm).cls.k == "CLS":
            f, _ = self.class_lookup(st.obj(cm).cls.a[0], "__enter__", st)
            if f is not None and f.k == "FN":
                # registered only after a successful enter; enter first on the old state
                st0 = st.setobj(b, o)
                return [(v, s.setobj(b, s.obj(b)._replace(data=s.obj(b).data + (("cm", cm),)))) for v, s in self.call_fn(f, [cm], [], st0, ctx, n)]
        return [(cm, st)]

    def m_exitstack_pop_all(self, b, args, kws, st, ctx, n):
        o = st.obj(b)
        new, st = st.alloc(self.site(n, ctx, "popall"), HO("exitstack", None, (), o.data))
        return [(new, st.setobj(b, o._replace(data=())))]

    def m_exitstack_close(self, b, args, kws, st, ctx, n):
        res = []
        for o in self.unwind_stack(b, ("N", None, st), ctx, n):
            if o[0] == "X":
                self.throw(o[1], o[2])
            else:
                res.append((NONE, o[2]))
        return res


def strkind(v, st=None):
    k = kind_of(v, st)
    if k is None:
        return None
    return {"builtins.str": "str", "builtins.bytes": "bytes"}.get(cname(k))


def cat(kind, parts):
    from .evalx import cat as c
    return c(kind, parts)
