"""Calls, functions, classes, attributes."""
import ast
import string
from .terms import *
from .know import *
from .state import HO, Ev
from .repo import FuncInfo
from .builtin_calls import BuiltinMixin

OBJECT = EXT("builtins.object")
DICT = EXT("builtins.dict")


class CallMixin(BuiltinMixin):

    # functions -----------------------------------------------------------------
    def make_function(self, n, name, st, ctx):
        if not hasattr(self, "fi_by_node"):
            self.fi_by_node = {}
        fi = self.fi_by_node.get(n)
        if fi is None:
            cls = ctx.cls if ctx.fid[0] == "cls" else None
            if cls is not None:
                qual = cls.qual + "." + name
            elif ctx.fn.qual == "<module>":
                qual = name
            else:
                qual = ctx.fn.qual + "." + name
            fi = FuncInfo(n, name, qual, ctx.mod, cls, ctx.fn.relpath)
            if cls is None and ctx.fn.cls is not None:
                fi.outer_cls = ctx.fn.cls
            self.fi_by_node[n] = fi
        closure = ctx.fid
        while closure is not None and "$class" in (st.frame(closure) or {}):
            closure = st.frame(closure).get("$parent")
        a = n.args
        res = []
        kwn = [(k.arg, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for vals, s in self.ev_list(list(a.defaults) + [d for _, d in kwn], st, ctx):
            nd = len(a.defaults)
            fn = mk("FN", fi, closure, tuple(vals[:nd]), tuple((k, v) for (k, _), v in zip(kwn, vals[nd:])))
            live = [(fn, s)]
            for d in reversed(getattr(n, "decorator_list", [])):
                nxt = []
                for f, s1 in live:
                    for dv, s2 in self.ev(d, s1, ctx):
                        nxt += self.decorate(dv, f, fi, s2, ctx, d)
                live = nxt
            res += live
        return res

    def decorate(self, d, f, fi, st, ctx, n):
        nm = d.a[0] if d.k == "EXT" else None
        if f.k == "FN" and nm in ("builtins.classmethod", "builtins.staticmethod", "builtins.property",
                                  "contextlib.contextmanager", "functools.cached_property"):
            fi.deco.add(nm.rpartition(".")[2].replace("cached_", ""))
            return [(f, st)]
        if nm in ("functools.wraps", "functools.lru_cache", "functools.cache", "abc.abstractmethod"):
            return [(f, st)]
        if d.k == "CL" and d.a[0].k == "EXT" and d.a[0].a[0] in ("functools.wraps", "functools.lru_cache", "functools.cache"):
            return [(f, st)]
        if d.k == "AT" and d.a[1] in ("setter", "deleter", "getter"):
            return [(d.a[0] if d.a[0].k == "FN" else f, st)]
        if d.k in ("FN", "BM"):
            return self.call(d, [f], [], st, ctx, n)
        return [(f, st)]

    def bind(self, fn, args, kws, st, n, ctx):
        """({name: value}, state) or None with a TypeError thrown"""
        fi = fn.a[0]
        a = fi.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        rest = list(args)
        kw = {}
        stars = []
        for k, v in kws:
            if k == "":
                stars.append(v)
            else:
                kw[k] = v
        star_src = None
        i = 0
        while i < len(params) and rest:
            if rest[0].k == "STAR":
                star_src = rest[0].a[0]
                break
            out[params[i]] = rest.pop(0)
            i += 1
        if star_src is not None:
            base = i
            tail = rest[1:]
            for j, p in enumerate(params[base:]):
                if p not in kw and not (base + j >= len(params) - len(fn.a[2]) and len(tail)):
                    out[p] = IX(star_src, C(j))
            if a.vararg:
                out[a.vararg.arg] = T(*rest)
            rest = []
        if a.vararg and star_src is None:
            out[a.vararg.arg] = T(*rest)
            rest = []
        if rest and star_src is None:
            self.throw(mk("EXC", EXT("builtins.TypeError"), (C("too many arguments for " + fi.name),), NONE), st)
            return None
        defaults = dict(zip(params[len(params) - len(fn.a[2]):], fn.a[2]))
        names = params + [p.arg for p in a.kwonlyargs]
        kwdef = dict(fn.a[3])
        extra = []
        for k, v in kw.items():
            if k in names and k not in out:
                out[k] = v
            else:
                extra.append((k, v))
        for p in names:
            if p not in out:
                if p in defaults:
                    out[p] = defaults[p]
                elif p in kwdef:
                    out[p] = kwdef[p]
                elif stars:
                    out[p] = IX(stars[0].a[0], C(p))
                else:
                    self.throw(mk("EXC", EXT("builtins.TypeError"), (C("missing argument %s for %s" % (p, fi.name)),), NONE), st)
                    return None
        if a.kwarg:
            o, st = st.alloc(("kwargs", fi.fullname), HO("dict", None, (), (tuple((C(k), v) for k, v in extra), tuple(stars))))
            out[a.kwarg.arg] = o
        elif extra:
            self.throw(mk("EXC", EXT("builtins.TypeError"), (C("unexpected argument %s for %s" % (extra[0][0], fi.name)),), NONE), st)
            return None
        return out, st

    def call_fn(self, fn, args, kws, st, ctx, n):
        fi = fn.a[0]
        if "contextmanager" not in fi.deco and (ctx.stack.count(fi) >= self.max_rec or ctx.depth >= self.MAXDEPTH or not self.inline(fi, st, ctx)):
            return self.opaque(fn, args, kws, st, ctx, n)
        b = self.bind(fn, args, kws, st, n, ctx)
        if b is None:
            return []
        vars, st = b
        vars["$parent"] = fn.a[1]
        self.stats["functions"].add(fi.fullname)
        fid, st = st.newframe(("fn", fi.fullname), vars)
        selfv = None
        a = fi.node.args
        first = (a.posonlyargs + a.args)[:1]
        cls = fi.cls
        if fi.cls is not None and first:
            selfv = vars[first[0].arg]
        elif getattr(fi, "outer_cls", None) is not None:
            # nested function inside a method: zero-argument super() uses the method's self
            cls = fi.outer_cls
            selfv = ctx.selfv
        if fi.is_gen:
            info = (fn, fid, cls, selfv, ctx.stack + (fi,), ctx.depth + 1)
            o, st = st.alloc(("gen", fi.fullname), HO("gen", None, (), info))
            return [(o, st)]
        c = self.make_ctx(fid, fi, cls, selfv, None, ctx)
        if isinstance(fi.node, ast.Lambda):
            res = self.ev(fi.node.body, st, c)
            return self.dedupe_vals([(v, s if fi.nested else s.dropframe(fid)) for v, s in res])
        outs = self.exec_block(fi.node.body, st, c)
        res = []
        for o in outs:
            s = o[2] if fi.nested else o[2].dropframe(fid)
            s = self.prune(s, st)
            if o[0] == "R":
                res.append((o[1], s))
            elif o[0] == "N":
                res.append((NONE, s))
            elif o[0] == "X":
                self.throw(o[1], s)
            else:
                self.sink.append(((o[0], o[1]), s))
        return self.dedupe_vals(res)

    def prune(self, s, entry):
        """drop facts learnt inside a callee that the policy declares irrelevant"""
        if self.keep_fact is None or s.facts is entry.facts:
            return s
        f = {t: v for t, v in s.facts.items() if t in entry.facts or self.keep_fact(t)}
        return s if len(f) == len(s.facts) else s._with(facts=f)

    def make_ctx(self, fid, fi, cls, selfv, hook, ctx):
        from .interp import Ctx
        c = Ctx(fid, fi, fi.module, cls, selfv, hook, ctx.depth + 1, ctx.stack + (fi,))
        c.handlers = ctx.handlers
        c.cur_exc = ctx.cur_exc
        return c

    def run_gen(self, g, st, ctx, hook, n):
        fn, fid, cls, selfv, stack, depth = st.obj(g).data
        fi = fn.a[0]
        if st.frame(fid) is None:
            return [("N", None, st)]
        c = self.make_ctx(fid, fi, cls, selfv, hook, ctx)
        return self.dedupe(self.exec_block(fi.node.body, st, c))

    # classes -------------------------------------------------------------------
    def class_lookup(self, ci, name, st, after=None):
        """(value, owner) ; (None, EXT) if only an external base could define it"""
        seen = after is None
        for c in ci.mro():
            if not seen:
                if c.k == "CLS" and c.a[0] is after:
                    seen = True
                continue
            if c.k == "CLS":
                f = st.frame(c.a[0].ns) if c.a[0].ns else None
                if f and name in f and not name.startswith("$"):
                    return f[name], c.a[0]
            elif c is not OBJECT:
                return None, c
        return None, None

    def instantiate(self, cls, args, kws, st, ctx, n):
        ci = cls.a[0]
        if issub(cls, EXT("builtins.BaseException")):
            init, _ = self.class_lookup(ci, "__init__", st)
            return [(mk("EXC", cls, tuple(self.freeze(a, st) for a in args), NONE), st)]
        new, _ = self.class_lookup(ci, "__new__", st)
        if new is not None and new.k == "FN":
            res = []
            for v, s in self.call_fn(new, [cls] + list(args), kws, st, ctx, n):
                init, _ = self.class_lookup(ci, "__init__", s)
                if init is not None and init.k == "FN" and v.k == "OBJ":
                    res += [(v, s2) for _, s2 in self.call_fn(init, [v] + list(args), kws, s, ctx, n)]
                else:
                    res.append((v, s))
            return res
        init, owner = self.class_lookup(ci, "__init__", st)
        extb = [c for c in ci.mro() if c.k == "EXT" and c is not OBJECT]
        isdict, islist = issub(cls, DICT), issub(cls, EXT("builtins.list"))
        if extb and not isdict and (init is None or init.k != "FN"):
            return self.opaque(cls, args, kws, st, ctx, n)
        o, st = st.alloc(("inst", ci.fullname, getattr(n, "lineno", 0)),
                         HO("dict" if isdict else "list" if islist else "inst", cls, (), ((), ()) if isdict else () if islist else None))
        if init is not None and init.k == "FN":
            return [(o, s) for _, s in self.call_fn(init, [o] + list(args), kws, st, ctx, n)]
        if isdict:
            st = self.dict_init(o, args, kws, st)
        return [(o, st)]

    def dict_init(self, o, args, kws, st):
        for a in args:
            st = self.dict_update(o, a, st)
        for k, v in kws:
            ho = st.obj(o)
            if k == "":
                st = st.setobj(o, ho._replace(data=(ho.data[0], ho.data[1] + (v,))))
            else:
                st = self.raw_setitem(o, C(k), v, st)
        return st

    def dict_update(self, o, other, st):
        items, stars = self.mapping_parts(other, st)
        for k, v in items:
            st = self.raw_setitem(o, k, v, st)
        if stars:
            ho = st.obj(o)
            st = st.setobj(o, ho._replace(data=(ho.data[0], ho.data[1] + tuple(stars))))
        return st

    def mapping_parts(self, v, st):
        """(items, stars) of a mapping or an iterable of pairs"""
        if v.k == "GEN":
            items = []
            stars = self.gen_dict_stars(mk("GENX", v.a[0], v.a[1], v.a[2]), st, items)
            return items, stars
        if v.k == "OBJ" and st.obj(v) is not None and st.obj(v).kind == "list":
            items, stars = [], []
            for x in st.obj(v).data:
                if x.k == "TUP" and len(x.a) == 2:
                    items.append((x.a[0], x.a[1]))
                elif x.k == "STAR" and x.a[0].k == "GEN":
                    g = x.a[0]
                    stars += self.gen_dict_stars(mk("GENX", g.a[0], g.a[1], g.a[2]), st, items)
                else:
                    stars.append(mk("STAR", x, None))
            return items, stars
        if v.k in ("TUP", "LST") and all(x.k == "TUP" and len(x.a) == 2 for x in v.a):
            return [(x.a[0], x.a[1]) for x in v.a], []
        if v.k == "CL" and v.a[0].k == "AT" and v.a[0].a[1] == "items" and not v.a[1]:
            return self.dict_parts(v.a[0].a[0], st)
        if v.k == "CL" and v.a[0] is DICT and len(v.a[1]) == 1 and not v.a[2]:
            return self.mapping_parts(v.a[1][0], st)
        if v.k == "CL" and v.a[0] is EXT("builtins.zip"):
            xs, ok = self.elements(v, st)
            if ok and all(x.k == "TUP" and len(x.a) == 2 for x in xs):
                return [x.a for x in xs], []
        return self.dict_parts(v, st)

    # attributes ------------------------------------------------------------------
    def ext_attr(self, e, name):
        full = e.a[0] + "." + name
        full = ALIAS.get(full, full)
        if full in EXT_CONST:
            return EXT_CONST[full]
        if name in ("__name__", "__qualname__") and known_class(e.a[0]):
            return C(e.a[0].rpartition(".")[2])
        if name == "__module__" and known_class(e.a[0]):
            return C(e.a[0].rpartition(".")[0])
        return EXT(full)

    def bound(self, v, selfv, owner, st, ctx, n):
        """what obj.<name> yields when the class attribute is v"""
        if v.k == "FN":
            d = v.a[0].deco
            if "staticmethod" in d:
                return [(v, st)]
            if "property" in d:
                return self.call_fn(v, [selfv], [], st, ctx, n)
            if "classmethod" in d:
                c = selfv if selfv.k == "CLS" else (st.obj(selfv).cls if selfv.k == "OBJ" and st.obj(selfv) is not None and st.obj(selfv).cls is not None
                                                    else AT(selfv, "__class__"))
                return [(mk("BM", c, v), st)]
            return [(mk("BM", selfv, v), st)]
        return [(v, st)]

    def attr(self, b, name, st, ctx, n):
        if self.model_attr is not None:
            r = self.model_attr(b, name, st, ctx, n)
            if r is not None:
                return r
        k = b.k
        if k == "MOD":
            f = st.frame(("mod", b.a[0])) or {}
            if name in f:
                return [(f[name], st)]
            sub = b.a[0] + "." + name
            if sub in self.repo.trees:
                return [(mk("MOD", sub), self.load_module(sub, st))]
            return [(TOP("attribute %s.%s" % (b.a[0], name)), st)]
        if k == "EXT":
            return [(self.ext_attr(b, name), st)]
        if k == "CLS":
            if name in ("__name__",):
                return [(C(b.a[0].name), st)]
            if name == "__class__":
                return [(b.a[0].meta or EXT("builtins.type"), st)]
            v, owner = self.class_lookup(b.a[0], name, st)
            if v is None:
                return [(AT(b, name), st)]
            if v.k == "FN" and "classmethod" in v.a[0].deco:
                return [(mk("BM", b, v), st)]
            return [(v, st)]
        if k == "SUPER":
            c, s0 = b.a
            real = None
            if s0.k == "CLS":
                real = s0.a[0]
            elif s0.k == "OBJ" and st.obj(s0) is not None and st.obj(s0).cls is not None and st.obj(s0).cls.k == "CLS":
                real = st.obj(s0).cls.a[0]
            else:
                real = c.a[0]
            if c.a[0] not in [x.a[0] for x in real.mro() if x.k == "CLS"]:
                real = c.a[0]
            v, owner = self.class_lookup(real, name, st, after=c.a[0])
            if v is not None:
                return self.bound(v, s0, owner, st, ctx, n)
            return [(AT(b, name), st)]
        if k == "OBJ" and st.obj(b) is not None:
            o = st.obj(b)
            if o.cls is not None and o.cls.k == "CLS":
                if name == "__class__":
                    return [(o.cls, st)]
                ga, _ = self.class_lookup(o.cls.a[0], "__getattribute__", st)
                if ga is not None and ga.k == "FN" and ga.a[0] not in ctx.stack:
                    return self.call_fn(ga, [b, C(name)], [], st, ctx, n)
                return self.inst_attr(b, name, st, ctx, n)
            if name == "__class__":
                kd = kind_of(b, st)
                if kd is not None:
                    return [(kd, st)]
            for a, v in o.attrs:
                if a == name:
                    return [(v, st)]
            if o.kind == "chainmap" and name == "maps":
                return [(o.data, st)]
            if o.kind == "partial" and name == "func":
                return [(o.data[0], st)]
            return [(AT(b, name), st)]
        if k == "FN":
            if name in ("__name__",):
                return [(C(b.a[0].name), st)]
            return [(AT(b, name), st)]
        if k == "BM":
            if name == "__func__":
                return [(b.a[1], st)]
            if name == "__self__":
                return [(b.a[0], st)]
            return [(AT(b, name), st)]
        if k == "EXC":
            if name == "args":
                return [(T(*b.a[1]), st)]
            if name == "__class__":
                return [(b.a[0], st)]
            return [(AT(b, name), st)]
        if k in ("C", "TUP", "CAT", "LST", "DCT") and name == "__class__":
            return [(kind_of(b), st)]
        return self.sym_attr(b, name, st, ctx, n)

    def sym_attr(self, b, name, st, ctx, n):
        v = st.sym.get((b, name))
        if v is not None:
            return [(v, st)]
        if name == "file":
            return [(canon_file(b), st)]
        if b.k == "S" and b.a[0] == "self" and b.a[1] and not name.startswith("__"):
            # the method analysed calls another method of its class
            m, _, c = b.a[1].rpartition(".")
            cls = (st.frame(("mod", m)) or {}).get(c)
            if cls is not None and cls.k == "CLS":
                v, owner = self.class_lookup(cls.a[0], name, st)
                if v is not None and v.k == "FN":
                    return self.bound(v, b, owner, st, ctx, n)
        if any("builtins.AttributeError" in [cname(c) for c in hs] for hs in ctx.handlers) and b.k not in ("C", "CAT", "TUP") \
                and name != "__class__":
            self.throw(mk("EXC", EXT("builtins.AttributeError"), (C(name),), NONE), st)
        return [(AT(b, name), st)]

    def inst_attr(self, b, name, st, ctx, n):
        o = st.obj(b)
        for a, v in o.attrs:
            if a == name:
                return [(v, st)]
        if name == "__dict__":
            return [(AT(b, name), st)]
        v, owner = self.class_lookup(o.cls.a[0], name, st)
        if v is not None:
            return self.bound(v, b, owner, st, ctx, n)
        if owner is None and o.kind == "inst" and not name.startswith("__"):
            g, _ = self.class_lookup(o.cls.a[0], "__getattr__", st)
            if g is not None and g.k == "FN":
                return self.call_fn(g, [b, C(name)], [], st, ctx, n)
        return [(AT(b, name), st)]

    # calls -------------------------------------------------------------------------
    def e_Call(self, n, st, ctx):
        res = []
        for f, s in self.ev(n.func, st, ctx):
            if f is EXT("builtins.super") and not n.args:
                c = ctx.cls
                if c is None or ctx.selfv is None:
                    res.append((TOP("super"), s))
                else:
                    res.append((mk("SUPER", mk("CLS", c), ctx.selfv), s))
                continue
            for args, s1 in self.ev_elts(n.args, s, ctx):
                live = [([], s1)]
                for kw in n.keywords:
                    nxt = []
                    for ks, s2 in live:
                        for v, s3 in self.ev(kw.value, s2, ctx):
                            if kw.arg is not None:
                                nxt.append((ks + [(kw.arg, v)], s3))
                            else:
                                items, stars = self.mapping_parts(v, s3)
                                add = []
                                for k, x in items:
                                    if is_c(k) and isinstance(cval(k), str):
                                        add.append((cval(k), x))
                                    else:
                                        add.append(("", mk("STAR", mk("DCT", ((k, x),), ()), None)))
                                nxt.append((ks + add + [("", x) for x in stars], s3))
                    live = nxt
                for ks, s2 in live:
                    res += self.call(f, args, ks, s2, ctx, n)
        return self.dedupe_vals(res)

    def call(self, f, args, kws, st, ctx, n):
        if self.model_call is not None:
            r = self.model_call(f, args, kws, st, ctx, n)
            if r is not None:
                return r
        if hasattr(n, "lineno"):
            self.stats["call_sites"].add((ctx.fn.relpath, n.lineno, getattr(n, "col_offset", 0)))
        k = f.k
        if k == "FN":
            return self.call_fn(f, list(args), kws, st, ctx, n)
        if k == "BM":
            return self.call_fn(f.a[1], [f.a[0]] + list(args), kws, st, ctx, n)
        if k == "CLS":
            return self.instantiate(f, args, kws, st, ctx, n)
        if k == "EXT":
            return self.ext_call(f, args, kws, st, ctx, n)
        if k == "OBJ" and st.obj(f) is not None:
            o = st.obj(f)
            if o.kind == "partial":
                pf, pa, pk = o.data
                names = [x for x, _ in kws]
                return self.call(pf, list(pa) + list(args), [x for x in pk if x[0] not in names or x[0] == ""] + list(kws), st, ctx, n)
            if o.cls is not None and o.cls.k == "CLS":
                c, _ = self.class_lookup(o.cls.a[0], "__call__", st)
                if c is not None and c.k == "FN":
                    return self.call_fn(c, [f] + list(args), kws, st, ctx, n)
        if k == "AT":
            return self.method_call(f, args, kws, st, ctx, n)
        if k == "C" and cval(f) is None:
            self.throw(mk("EXC", EXT("builtins.TypeError"), (C("None is not callable"),), NONE), st)
            return []
        return self.opaque(f, args, kws, st, ctx, n)

    def opaque(self, f, args, kws, st, ctx, n):
        fargs = tuple(self.freeze(a, st) for a in args)
        fk = tuple(sorted(((k, self.freeze(v, st)) for k, v in kws), key=lambda x: (x[0], id(x[1]))))
        if f.k == "AT" and f.a[0].k in ("OBJ", "TUP") and not (f.a[0].k == "OBJ" and st.obj(f.a[0]) is not None and st.obj(f.a[0]).cls is not None):
            term = CL(AT(self.freeze(f.a[0], st), f.a[1]), fargs, fk)
        else:
            term = CL(f, fargs, fk)
        loc = ctx.fn.loc(n)
        key = f.a[1] if f.k == "AT" else None
        tgt = f.a[0] if f.k == "AT" else f
        ok = self.emit(st, Ev("call", tgt, key, term, fargs, fk, loc))
        bad = self.emit(st, Ev("callx", tgt, key, term, fargs, fk, loc))
        self.inject(f, fargs, fk, bad, ctx, n)
        return [(term, ok)]

    def opaque_may_raise(self, f, args, kws, st, ctx, n):
        self.inject(f, tuple(args), tuple(kws), st, ctx, n)
        return [st]

    def inject(self, f, args, kws, st, ctx, n):
        """exceptions an opaque operation may raise"""
        thrown = []
        for e in self.raises(self, f, args, kws, st, ctx):
            thrown.append(e)
        for hs in ctx.handlers:
            for c in hs:
                nm = cname(c)
                if nm in ("builtins.Exception", "builtins.BaseException", None):
                    continue
                if c.k == "CLS" and not self.unknown_callee(f):
                    continue
                if f.k == "AT" and nm == "builtins.AttributeError" and f.a[1] in ("__getitem__", "__setitem__", "__iter__"):
                    continue
                e = mk("EXC", c, (), NONE)
                if e not in thrown:
                    thrown.append(e)
        for e in thrown:
            if self.mark_inject and self.mark_inject(e):
                self.throw(e, st.emit(Ev("inject", f, None, e, tuple(args), tuple(kws), ctx.fn.loc(n))))
            else:
                self.throw(e, st)

    def unknown_callee(self, f):
        if f.k in ("EXT",):
            return False
        if f.k == "AT":
            r = root_of(f)
            if r.k == "EXT":
                return False
            kd = kind_of(f.a[0])
            return kd is None and f.a[1] not in ("__getitem__", "__setitem__", "__iter__", "get", "items", "create_dataset",
                                                 "create_group", "close", "flush")
        return True


def h5root(n):
    for _ in range(60):
        k, a = n.k, n.a
        if k == "CL" and a[0].k == "AT" and a[0].a[1] in H5_CHILD | {"items", "values", "keys"}:
            n = a[0].a[0]
        elif k in ("IX", "EL", "VAL", "KEY"):
            n = a[0]
        elif k == "AT" and a[1] in ("parent", "attrs"):
            n = a[0]
        else:
            return n
    return n


def canon_file(b):
    f = file_of(b)
    if f is not None:
        return f
    r = h5root(b)
    if r.k == "AT" and r.a[1] == "file":
        return r
    if r.k == "CL" and r.a[0] is EXT("h5py.File"):
        return r
    return AT(r, "file")
