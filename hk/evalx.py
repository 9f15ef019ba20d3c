"""Expression evaluation, conditions, strings, iteration."""
import ast
import re
from .terms import *
from .know import *
from .state import HO, Ev

CMPOPS = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=",
          "Is": "is", "IsNot": "is not", "In": "in", "NotIn": "not in"}
NEG = {"!=": "==", "is not": "is", "not in": "in"}
BINF = {
    "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b,
    "Div": lambda a, b: a / b, "Mod": lambda a, b: a % b, "FloorDiv": lambda a, b: a // b,
    "Pow": lambda a, b: a ** b if abs(b) < 200 else None, "BitOr": lambda a, b: a | b, "BitAnd": lambda a, b: a & b,
    "BitXor": lambda a, b: a ^ b, "LShift": lambda a, b: a << b if b < 2000 else None, "RShift": lambda a, b: a >> b,
}
CMPF = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
        ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


class EvalMixin:

    def ev_quiet(self, node, st, ctx):
        saved, self.sink = self.sink, []
        try:
            return self.ev(node, st, ctx)
        finally:
            self.sink = saved

    def ev(self, node, st, ctx):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            return [(TOP(type(node).__name__), st)]
        return m(node, st, ctx)

    def ev_list(self, nodes, st, ctx):
        """[([values], state)]"""
        live = [([], st)]
        for n in nodes:
            nxt = []
            for vs, s in live:
                for v, s2 in self.ev(n, s, ctx):
                    nxt.append((vs + [v], s2))
            live = nxt
        return live

    # atoms ---------------------------------------------------------------
    def e_Constant(self, n, st, ctx):
        try:
            return [(C(n.value), st)]
        except TypeError:
            return [(TOP("const"), st)]

    def lookup(self, name, st, ctx):
        f = ctx.fid
        first = True
        if ctx.fn.declared.get(name) == "g" and f[0] != "mod":
            f = ("mod", ctx.mod)
        while f is not None:
            fr = st.frame(f)
            if fr is None:
                break
            if name in fr and (first or "$class" not in fr):
                return fr[name]
            first = False
            f = fr.get("$parent")
        import builtins
        if hasattr(builtins, name):
            v = getattr(builtins, name)
            if v is True or v is False or v is None or v is Ellipsis:
                return C(v)
            return EXT("builtins." + getattr(v, "__name__", name))
        return None

    def e_Name(self, n, st, ctx):
        v = self.lookup(n.id, st, ctx)
        if v is None:
            if n.id in ("IOError", "EnvironmentError"):
                return [(EXT("builtins.OSError"), st)]
            if n.id in ("unicode", "long", "file", "basestring"):
                return [(EXT("py2." + n.id), st)]
            return [(TOP("unbound " + n.id), st)]
        return [(v, st)]

    def e_NamedExpr(self, n, st, ctx):
        return [(v, s2) for v, s in self.ev(n.value, st, ctx) for s2 in self.assign(n.target, v, s, ctx)]

    def e_Attribute(self, n, st, ctx):
        res = []
        for b, s in self.ev(n.value, st, ctx):
            res += self.attr(b, n.attr, s, ctx, n)
        return res

    def e_Subscript(self, n, st, ctx):
        res = []
        for (b, i), s in self.ev_list([n.value, n.slice], st, ctx):
            res += self.getitem(b, i, s, ctx, n)
        return res

    def e_Slice(self, n, st, ctx):
        parts = [x if x is not None else ast.Constant(None) for x in (n.lower, n.upper, n.step)]
        return [(mk("SLICE", *vs), s) for vs, s in self.ev_list(parts, st, ctx)]

    def e_Index(self, n, st, ctx):
        return self.ev(n.value, st, ctx)

    def e_Tuple(self, n, st, ctx):
        return [(T(*vs), s) for vs, s in self.ev_elts(n.elts, st, ctx)]

    def ev_elts(self, elts, st, ctx):
        live = [([], st)]
        for e in elts:
            nxt = []
            for vs, s in live:
                if isinstance(e, ast.Starred):
                    for v, s2 in self.ev(e.value, s, ctx):
                        items, ok = self.seq_items(v, s2)
                        nxt.append((vs + (list(items) if ok else [mk("STAR", self.freeze(v, s2), frozenset())]), s2))
                else:
                    for v, s2 in self.ev(e, s, ctx):
                        nxt.append((vs + [v], s2))
            live = nxt
        return live

    def site(self, n, ctx, tag=""):
        return (tag, ctx.fn.fullname, n.lineno, n.col_offset)

    def e_List(self, n, st, ctx):
        res = []
        for vs, s in self.ev_elts(n.elts, st, ctx):
            o, s2 = s.alloc(self.site(n, ctx, "list"), HO("list", None, (), tuple(vs)))
            res.append((o, s2))
        return res

    def e_Set(self, n, st, ctx):
        res = []
        for vs, s in self.ev_elts(n.elts, st, ctx):
            seen = []
            for v in vs:
                if v not in seen:
                    seen.append(v)
            o, s2 = s.alloc(self.site(n, ctx, "set"), HO("set", None, (), tuple(seen)))
            res.append((o, s2))
        return res

    def e_Dict(self, n, st, ctx):
        live = [([], (), st)]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for items, stars, s in live:
                if k is None:
                    for d, s2 in self.ev(v, s, ctx):
                        it2, st2 = self.dict_parts(d, s2)
                        nxt.append((_merge(items, it2), stars + tuple(st2), s2))
                else:
                    for (kk, vv), s2 in self.ev_list([k, v], s, ctx):
                        nxt.append((_merge(items, [(kk, vv)]), stars, s2))
            live = nxt
        res = []
        for items, stars, s in live:
            o, s2 = s.alloc(self.site(n, ctx, "dict"), HO("dict", None, (), (tuple(items), stars)))
            res.append((o, s2))
        return res

    def dict_parts(self, d, st):
        """(items, stars) of a mapping value"""
        if d.k == "OBJ" and st.obj(d) is not None:
            o = st.obj(d)
            if o.kind == "dict":
                return list(o.data[0]), list(o.data[1])
            if o.kind == "chainmap":
                pass
        if d.k == "DCT":
            return list(d.a[0]), list(d.a[1])
        if d is NONE:
            return [], []
        known = self.model_mapping(d, st) if getattr(self, "model_mapping", None) else None
        if known is not None:
            return list(known), []
        return [], [mk("STAR", d, frozenset())]

    def e_JoinedStr(self, n, st, ctx):
        live = [([], st)]
        for p in n.values:
            nxt = []
            for parts, s in live:
                if isinstance(p, ast.Constant):
                    nxt.append((parts + [C(p.value)], s))
                else:
                    for v, s2 in self.ev(p.value, s, ctx):
                        spec = None
                        if p.format_spec is not None:
                            if all(isinstance(x, ast.Constant) for x in p.format_spec.values):
                                spec = "".join(x.value for x in p.format_spec.values)
                            else:
                                spec = "?"
                        nxt.append((parts + [self.fmt_value(v, {-1: None, 115: "s", 114: "r", 97: "a"}[p.conversion], spec or "", s2)], s2))
            live = nxt
        return [(cat("str", parts), s) for parts, s in live]

    def e_FormattedValue(self, n, st, ctx):
        return self.e_JoinedStr(ast.JoinedStr(values=[n]), st, ctx)

    def e_Lambda(self, n, st, ctx):
        return self.make_function(n, "<lambda>", st, ctx)

    def e_Starred(self, n, st, ctx):
        return self.ev(n.value, st, ctx)

    def e_IfExp(self, n, st, ctx):
        res = []
        for v, s in self.ev(n.test, st, ctx):
            for b, s2 in self.truth(v, s):
                res += self.ev(n.body if b else n.orelse, s2, ctx)
        return res

    def e_BoolOp(self, n, st, ctx):
        isand = isinstance(n.op, ast.And)
        res = []
        live = [st]
        for i, x in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for s in live:
                for v, s2 in self.ev(x, s, ctx):
                    if last:
                        res.append((v, s2))
                        continue
                    for b, s3 in self.truth(v, s2):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            res.append((v, s3))
            live = nxt
        return res

    def e_UnaryOp(self, n, st, ctx):
        res = []
        op = type(n.op).__name__
        for v, s in self.ev(n.operand, st, ctx):
            if op == "Not":
                for b, s2 in self.truth(v, s):
                    res.append((C(not b), s2))
            elif is_c(v):
                try:
                    x = cval(v)
                    res.append((C(-x if op == "USub" else +x if op == "UAdd" else ~x), s))
                except Exception:
                    res.append((TOP("unary"), s))
            else:
                res.append((mk("UN", op, v), s))
        return res

    def e_BinOp(self, n, st, ctx):
        return [(self.binop(type(n.op).__name__, a, b, s, ctx, n), s)
                if not self._alloc_binop(type(n.op).__name__, a, b, s) else self.binop_alloc(type(n.op).__name__, a, b, s, ctx, n)
                for (a, b), s in self.ev_list([n.left, n.right], st, ctx)]

    def _alloc_binop(self, op, a, b, st):
        def knd(x):
            if x.k == "OBJ" and st.obj(x) is not None:
                return st.obj(x).kind
            return None
        ka, kb = knd(a), knd(b)
        return (op == "Add" and ka == "list" and kb == "list") or (op == "Mult" and (ka == "list" or kb == "list")) \
            or (op == "BitOr" and ka == "dict") or (ka == "set" and kb == "set")

    def binop_alloc(self, op, a, b, st, ctx, n):
        oa = st.obj(a) if a.k == "OBJ" else None
        ob = st.obj(b) if b.k == "OBJ" else None
        site = self.site(n, ctx, "binop")
        if op == "Add":
            return st.alloc(site, HO("list", None, (), oa.data + ob.data))
        if op == "Mult":
            lst, cnt = (oa, b) if oa is not None and oa.kind == "list" else (ob, a)
            if is_c(cnt) and isinstance(cval(cnt), int) and cval(cnt) < getattr(self, 'max_repeat', 1000):
                return st.alloc(site, HO("list", None, (), lst.data * cval(cnt)))
            return st.alloc(site, HO("list", None, (), (mk("REP", lst.data, cnt),)))
        if op == "BitOr" and oa.kind == "dict":
            it, stars = self.dict_parts(b, st)
            return st.alloc(site, HO("dict", None, (), (tuple(_merge(list(oa.data[0]), it)), oa.data[1] + tuple(stars))))
        xs, ys = oa.data, ob.data
        r = {"BitOr": tuple(dict.fromkeys(xs + ys)), "Sub": tuple(x for x in xs if x not in ys),
             "BitAnd": tuple(x for x in xs if x in ys)}.get(op)
        if r is None or (op != "BitOr" and not all(is_c(x) for x in xs + ys)):
            return mk("BIN", op, self.freeze(a, st), self.freeze(b, st)), st
        return st.alloc(site, HO("set", None, (), r))

    def binop(self, op, a, b, st, ctx, n):
        if is_c(a) and is_c(b):
            try:
                r = BINF[op](cval(a), cval(b))
                if r is not None:
                    return C(r)
            except Exception:
                pass
        if op in ("BitOr", "BitAnd", "Sub", "BitXor") and self.setish(a, st) and self.setish(b, st):
            r = set_algebra(op, self.set_items(a, st), self.set_items(b, st))
            if r is not None:
                return r
        if op == "Add":
            ta, tb = strkind(a, st), strkind(b, st)
            if (ta or tb) and (ta == tb or ta is None or tb is None) and (ta or tb) in ("str", "bytes"):
                return cat(ta or tb, [a, b])
            if a.k == "TUP" and b.k == "TUP":
                return T(*(a.a + b.a))
            if a.k == "IDX" and is_c(b) and isinstance(cval(b), int):
                return mk("IDX", a.a[0], a.a[1] + cval(b))
            if b.k == "IDX" and is_c(a) and isinstance(cval(a), int):
                return mk("IDX", b.a[0], b.a[1] + cval(a))
        if op == "Sub" and a.k == "IDX" and is_c(b) and isinstance(cval(b), int):
            return mk("IDX", a.a[0], a.a[1] - cval(b))
        if op == "Mod" and strkind(a, st) and is_c(a):
            r = self.percent(cval(a), b, st)
            if r is not None:
                return r
        return mk("BIN", op, self.freeze(a, st), self.freeze(b, st))

    def percent(self, fmt, arg, st):
        if isinstance(fmt, bytes):
            return None
        args = list(arg.a) if arg.k == "TUP" else [arg]
        parts = []
        pos = 0
        for m in re.finditer(r"%([#0\- +]*\d*(?:\.\d+)?)([a-zA-Z%])", fmt):
            parts.append(C(fmt[pos:m.start()]))
            pos = m.end()
            if m.group(2) == "%":
                parts.append(C("%"))
                continue
            if not args:
                return None
            v = args.pop(0)
            if is_c(v):
                try:
                    parts.append(C(("%" + m.group(1) + m.group(2)) % (cval(v),)))
                    continue
                except Exception:
                    return None
            if m.group(2) == "r":
                parts.append(mk("REPR", self.freeze(v, st)))
            elif m.group(2) == "s":
                parts.append(v if strkind(v, st) == "str" else mk("STRF", self.freeze(v, st)))
            else:
                parts.append(mk("STRF", self.freeze(v, st)))
        parts.append(C(fmt[pos:]))
        return cat("str", parts)

    def fmt_value(self, v, conv, spec, st):
        v = self.freeze(v, st)
        if is_c(v):
            try:
                x = cval(v)
                x = {"r": repr, "s": str, "a": ascii}.get(conv, lambda y: y)(x)
                return C(format(x, spec))
            except Exception:
                return TOP("format")
        if spec not in ("", "d", "s"):
            return mk("FMTS", v, conv, spec)
        if conv == "r":
            return mk("REPR", v)
        if conv is None or conv == "s":
            return v if strkind(v, st) == "str" else mk("STRF", v)
        return mk("FMTS", v, conv, spec)

    # comparisons ---------------------------------------------------------
    def e_Compare(self, n, st, ctx):
        res = []
        for vals, s in self.ev_list([n.left] + n.comparators, st, ctx):
            ops = [CMPOPS[type(o).__name__] for o in n.ops]
            if len(ops) == 1:
                r = self.cmp_custom(ops[0], vals[0], vals[1], s, ctx, n)
                res += r
                continue
            live = [s]
            for i, o in enumerate(ops):
                nxt = []
                for x in live:
                    for b, s2 in self.truth(self.cmp(o, vals[i], vals[i + 1], x), x):
                        if not b:
                            res.append((FALSE, s2))
                        elif i == len(ops) - 1:
                            res.append((TRUE, s2))
                        else:
                            nxt.append(s2)
                live = nxt
        return res

    def cmp_custom(self, op, a, b, st, ctx, n):
        if op in ("in", "not in") and getattr(self, "model_contains", None):
            r = self.model_contains(a, b, st, ctx, n)
            if r is not None:
                return [(v if op == "in" else NOT(v), s) for v, s in r]
        return [(self.cmp(op, a, b, st), st)]

    def cmp(self, op, a, b, st):
        if op in NEG:
            return NOT(self.cmp(NEG[op], a, b, st))
        if a.k == "DTYPE" and b.k == "DTYPE" and op in ("is", "=="):
            return C(a is b)
        if op == "is":
            if a is b:
                if a.k in ("OBJ", "S", "EXT", "CLS", "FN", "MOD", "C", "AT") or a.k == "TUP" and not a.a:
                    return TRUE
            if is_c(a) and is_c(b):
                return C(cval(a) is cval(b) or (type(cval(a)) is type(cval(b)) and cval(a) == cval(b)))
            ids = ("OBJ", "EXT", "CLS", "FN", "MOD", "C", "TUP", "CAT", "BM", "LST", "EXC", "LC")
            if a.k in ids and b.k in ids and a is not b:
                return FALSE
            if a is NONE or b is NONE:
                o = b if a is NONE else a
                if kind_of(o, st) is not None or o.k in ("KEYT",):
                    return FALSE
            a, b = self.freeze(a, st), self.freeze(b, st)
            if (is_c(a) or a.k == "EXT") and not (is_c(b) or b.k == "EXT"):
                a, b = b, a
            return mk("CMP", "is", a, b)
        if op == "in":
            if b.k == "CL" and b.a[0].k == "AT" and b.a[0].a[1] == "keys" and not b.a[1] and b.a[0].a[0].k == "OBJ" and st.obj(b.a[0].a[0]) is not None and st.obj(b.a[0].a[0]).kind == "dict":
                return self.cmp(op, a, b.a[0].a[0], st)
            items, ok = self.seq_items(b, st)
            if ok and b.k != "C":
                r = []
                for x in items:
                    c = self.cmp("==", a, x, st)
                    if c is TRUE:
                        return TRUE
                    if c is not FALSE:
                        r.append(c)
                if not r:
                    return FALSE
                if len(r) == 1:
                    return r[0]
                return mk("OR", tuple(r))
            if is_c(a) and is_c(b):
                try:
                    return C(cval(a) in cval(b))
                except Exception:
                    return TOP("in")
            if b.k == "OBJ" and st.obj(b) is not None and st.obj(b).kind == "dict" and is_c(a):
                items, stars = st.obj(b).data
                if any(k is a for k, _ in items):
                    return TRUE
                if all(s.a[1] is not None and cval(a) in s.a[1] for s in stars):
                    return FALSE
            if b.k == "OBJ" and st.obj(b) is not None and st.obj(b).kind == "dict" and a.k in ("EXT", "CLS", "FN"):
                items, stars = st.obj(b).data
                if any(k is a for k, _ in items):
                    return TRUE
                if not stars and all(is_c(k) or k.k in ("EXT", "CLS", "FN") for k, _ in items):
                    return FALSE
            if b.k == "OBJ" and st.obj(b) is not None and st.obj(b).kind == "chainmap" and (is_c(a) or a.k in ("EXT", "CLS", "FN")):
                maps, ok = self.seq_items(st.obj(b).data, st)
                rs = [self.cmp("in", a, m, st) for m in maps] if ok else [None]
                if TRUE in rs:
                    return TRUE
                if all(r is FALSE for r in rs):
                    return FALSE
            fb = self.freeze(b, st)
            if fb.k == "CL" and fb.a[0].k == "AT" and fb.a[0].a[1] == "keys" and not fb.a[1]:
                fb = fb.a[0].a[0]
            if fb.k == "CAT" and is_c(a):
                if any(is_c(p) and cval(a) in cval(p) for p in fb.a[1]):
                    return TRUE
            return mk("CMP", "in", self.freeze(a, st), fb)
        if is_c(a) and is_c(b):
            try:
                return C(bool(CMPF[op](cval(a), cval(b))))
            except Exception:
                return FALSE
        if op == "==":
            if a is b and a.k not in ("TOP",):
                return TRUE
            a, b = self.freeze(a, st), self.freeze(b, st)
            if a.k in ("EXT", "CLS", "FN") and b.k in ("EXT", "CLS", "FN"):
                return C(a is b)
            ka, kb = kind_of(a, st), kind_of(b, st)
            if ka is not None and kb is not None and ka is not kb and disjoint(ka, kb) and \
                    {cname(ka), cname(kb)} & {"builtins.str", "builtins.bytes", "builtins.tuple", "builtins.NoneType", "builtins.list"} \
                    and not {cname(ka), cname(kb)} & {"numpy.ndarray", "numpy.dtype"}:
                return FALSE
            if a.k in ("TUP", "LST") and b.k == a.k:
                if len(a.a) != len(b.a):
                    return FALSE
                cs = [self.cmp("==", x, y, st) for x, y in zip(a.a, b.a)]
                if any(c is FALSE for c in cs):
                    return FALSE
                if all(c is TRUE for c in cs):
                    return TRUE
            if a.k == "CAT" and is_c(b):
                r = cat_eq(a, cval(b))
                if r is not None:
                    return C(r)
            if b.k == "CAT" and is_c(a):
                r = cat_eq(b, cval(a))
                if r is not None:
                    return C(r)
            if is_c(a) or (a.k == "EXT" and not is_c(b)):
                a, b = b, a
            # encoded text compared with constants
            if a.k == "ENC" and is_c(b) and isinstance(cval(b), bytes):
                try:
                    return self.cmp("==", a.a[0], C(cval(b).decode(a.a[1] or "utf8")), st)
                except Exception:
                    pass
            if a.k == "AT" and a.a[1] == "__name__" and is_c(b):
                # class names: compare the class where it is known
                c = a.a[0]
                if c.k in ("EXT", "CLS"):
                    return C(cname(c).rpartition(".")[2] == cval(b))
            return mk("CMP", "==", a, b)
        # ordering
        a, b = self.freeze(a, st), self.freeze(b, st)
        if op == ">":
            return mk("CMP", "<", b, a)
        if op == ">=":
            return NOT(mk("CMP", "<", a, b))
        if op == "<=":
            return NOT(mk("CMP", "<", b, a))
        if op == "<" and b.k == "CL" and b.a[0] is EXT("builtins.len") and is_c(a) and cval(a) == 0:
            return mk("NONEMPTY", b.a[1][0])
        return mk("CMP", op, a, b)

    # truth -----------------------------------------------------------------
    def truth(self, v, st):
        """[(bool, state)] - splits the state when undetermined"""
        if v.k == "NOT":
            return [(not b, s) for b, s in self.truth(v.a[0], st)]
        if v.k == "OR":
            res, live = [], [st]
            for c in v.a[0]:
                nxt = []
                for s in live:
                    for b, s2 in self.truth(c, s):
                        (res if b else nxt).append((True, s2) if b else s2)
                live = nxt
            return res + [(False, s) for s in live]
        d = self.decide(v, st)
        if d is not None:
            return [(d, st)]
        if v.k == "OBJ" and st.obj(v) is not None and st.obj(v).cls is not None and st.obj(v).cls.k == "CLS":
            return [(True, st)]
        t = self.canon_cond(v, st)
        if t.k == "NOT":
            return [(not b, s) for b, s in self.truth(t.a[0], st)]
        if t is not v:
            d = self.decide(t, st)
            if d is not None:
                return [(d, st)]
        if self.fork_hook is not None:
            r = self.fork_hook(t, st)
            if r is not None:
                return [(r, st.fact(t, r))]
        self.stats["forks"] += 1
        out = []
        for b in (True, False):
            s = self.assume(t, b, st)
            if s is not None:
                out.append((b, s))
        return out

    def canon_cond(self, v, st):
        v = self.freeze(v, st)
        if v.k == "CL" and v.a[0] is EXT("builtins.bool") and len(v.a[1]) == 1:
            return self.canon_cond(v.a[1][0], st)
        if v.k == "CL" and v.a[0] is EXT("builtins.len") and len(v.a[1]) == 1:
            return self.canon_cond(mk("NONEMPTY", v.a[1][0]), st)
        if v.k == "CMP" and v.a[0] == "==" and v.a[2] is C(0) and v.a[1].k == "CL" and v.a[1].a[0] is EXT("builtins.len"):
            return NOT(self.canon_cond(mk("NONEMPTY", v.a[1].a[1][0]), st))
        if v.k == "CMP" and v.a[0] == "<" and v.a[2] is C(1) and v.a[1].k == "CL" and v.a[1].a[0] is EXT("builtins.len"):
            return NOT(self.canon_cond(mk("NONEMPTY", v.a[1].a[1][0]), st))
        if v.k == "CMP" and v.a[0] == "<" and v.a[1] is C(0) and v.a[2].k == "CL" and v.a[2].a[0] is EXT("builtins.len"):
            return self.canon_cond(mk("NONEMPTY", v.a[2].a[1][0]), st)
        if v.k == "CMP" and v.a[0] == "<" and v.a[2] is C(0) and v.a[1].k == "CL" and v.a[1].a[0] is EXT("builtins.len"):
            return FALSE
        if v.k == "NONEMPTY" or (v.k == "CL" and v.a[0].k == "AT" and v.a[0].a[1] in ("items", "keys", "values") and not v.a[1]):
            x = v.a[0] if v.k == "NONEMPTY" else v
            while True:
                if x.k == "CL" and x.a[0].k == "AT" and x.a[0].a[1] in ("items", "keys", "values", "copy") and not x.a[1]:
                    x = x.a[0].a[0]
                elif x.k == "CL" and x.a[0].k == "EXT" and x.a[0].a[0] in (
                        "builtins.list", "builtins.tuple", "builtins.set", "builtins.iter", "builtins.sorted", "builtins.len") and len(x.a[1]) == 1:
                    x = x.a[1][0]
                else:
                    break
            return mk("NONEMPTY", x)
        return v

    def decide(self, v, st):
        k = v.k
        f = st.facts.get(v)
        if f is not None:
            return f
        if k == "C":
            return bool(cval(v))
        if k in ("TUP", "LST", "SET"):
            return bool(v.a) if not any(x.k == "STAR" for x in v.a) else None
        if k in ("FN", "BM", "CLS", "EXT", "MOD", "MATCH"):
            return True
        if k == "CAT":
            if any(is_c(p) and cval(p) for p in v.a[1]):
                return True
        if k == "DCT":
            if v.a[0]:
                return True
            return None if v.a[1] else False
        if k == "OBJ":
            o = st.obj(v)
            if o is None:
                return None
            if o.kind in ("list", "set") and o.cls is None:
                if not o.data:
                    return False
                return None if any(x.k in ("STAR", "REP") for x in o.data) and not any(x.k not in ("STAR", "REP") for x in o.data) else True
            if o.kind == "dict" and o.cls is None:
                if o.data[0]:
                    return True
                return None if o.data[1] else False
            return True
        if k == "EXC" or k == "XANY":
            return True
        if k == "ISI":
            return self.decide_isi(v.a[0], v.a[1], st)
        if k == "CMP":
            op, a, b = v.a
            if op == "is":
                if b is NONE:
                    tr = st.facts.get(a)
                    if tr is True:
                        return False
                    for t, val in st.facts.items():
                        if val and t.k == "ISI" and t.a[0] is a and cname(t.a[1]) not in ("builtins.NoneType", "builtins.object"):
                            return False
                        if val and t.k == "CMP" and t.a[0] in ("is", "==") and t.a[1] is a and t.a[2] is not NONE and (is_c(t.a[2]) or kind_of(t.a[2], st)):
                            return False
                if a.k == "AT" and a.a[1] == "__class__" and b.k in ("EXT", "CLS"):
                    x = a.a[0]
                    r = self.decide_isi(x, b, st)
                    if r is False:
                        return False
                    for t, val in st.facts.items():
                        if val and t.k == "CMP" and t.a[0] == "is" and t.a[1] is a and t.a[2] is not b and t.a[2].k in ("EXT", "CLS"):
                            return False
                if b.k in ("EXT", "CLS", "C"):
                    for t, val in st.facts.items():
                        if val and t.k == "CMP" and t.a[0] == "is" and t.a[1] is a and t.a[2] is not b and t.a[2].k in ("EXT", "CLS", "C"):
                            return False
            if op == "==" and is_c(b):
                for t, val in st.facts.items():
                    if val and t.k == "CMP" and t.a[0] == "==" and t.a[1] is a and is_c(t.a[2]) and t.a[2] is not b:
                        try:
                            if cval(t.a[2]) != cval(b):
                                return False
                        except Exception:
                            pass
                kx = self.fact_kind(a, st)
                if kx is not None and kind_of(b) is not None and disjoint(kx, kind_of(b)) and cname(kx) in ("builtins.str", "builtins.bytes"):
                    return False
            if op == "==" and a.k == "AT" and a.a[1] == "__class__":
                return self.decide(mk("CMP", "is", a, b), st)
            return None
        if k == "NONEMPTY":
            x = v.a[0]
            if x.k in ("TUP", "LST", "SET", "C", "DCT", "OBJ"):
                return self.decide(x, st)
            return st.facts.get(x)
        if k in ("S", "AT", "CL", "IX", "EL", "VAL"):
            if st.facts.get(mk("CMP", "is", v, NONE)) is True:
                return False
            if k != "S":
                kd = kind_of(v, st)
                if kd is not None and cname(kd) in ("h5py.File", "h5py.Group", "h5py.Dataset"):
                    return True
                fk = self.fact_kind(v, st)
                if fk is not None and cname(fk) in ("h5py.File", "h5py.Group", "h5py.Dataset"):
                    return True
            ne = st.facts.get(mk("NONEMPTY", v))
            if ne is not None:
                return ne
            for t, val in st.facts.items():
                if val and t.k == "CMP" and t.a[0] == "==" and t.a[1] is v and is_c(t.a[2]):
                    return bool(cval(t.a[2]))
        return None

    def fact_kind(self, x, st):
        k = kind_of(x, st)
        if k is not None:
            return k
        for t, val in st.facts.items():
            if val and t.k == "ISI" and t.a[0] is x:
                return t.a[1]
            if val and t.k == "CMP" and t.a[0] == "is" and t.a[1].k == "AT" and t.a[1].a[1] == "__class__" \
                    and t.a[1].a[0] is x and t.a[2].k in ("EXT", "CLS"):
                return t.a[2]
        return None

    def decide_isi(self, x, c, st):
        if c.k == "TUP":
            rs = [self.decide_isi(x, y, st) for y in c.a]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        f = st.facts.get(mk("ISI", x, c))
        if f is not None:
            return f
        if cname(c) == "builtins.object":
            return True
        if cname(c) and cname(c).startswith("py2."):
            return False
        if st.facts.get(mk("CMP", "is", x, NONE)) and cname(c) != "builtins.NoneType":
            return False
        if x.k == "CLS" and c.k == "CLS" and not any(cname(b) == "builtins.type" for b in c.a[0].bases if isinstance(b, Node)):
            return False            # classes are instances of metaclasses only
        pos = []
        k = kind_of(x, st)
        if k is not None:
            pos.append(k)
        neg = []
        for t, val in st.facts.items():
            if t.k == "ISI" and t.a[0] is x:
                (pos if val else neg).append(t.a[1])
            elif t.k == "CMP" and t.a[0] == "is" and t.a[1].k == "AT" and t.a[1].a[1] == "__class__" and t.a[1].a[0] is x and val:
                if t.a[2].k in ("EXT", "CLS"):
                    pos.append(t.a[2])
        for p in pos:
            if p.k == "TUP":
                continue
            if issub(p, c):
                return True
            if disjoint(p, c):
                return False
        # exactly known kinds (constants, literals, analysed classes)
        if k is not None and x.k in ("C", "TUP", "OBJ", "LST", "DCT", "SET", "FN", "BM", "EXC") and issub(k, c) is False:
            return False
        for m in neg:
            if m.k != "TUP" and issub(c, m):
                return False
        return None

    def assume(self, t, b, st):
        """state with the fact added, None if contradictory"""
        if t.k == "ISI" and t.a[1].k == "TUP":
            if not b:
                for c in t.a[1].a:
                    st = self.assume(mk("ISI", t.a[0], c), False, st)
                    if st is None:
                        return None
            return st.fact(t, b)
        return st.fact(t, b)

    # subscripts -------------------------------------------------------------
    def set_items(self, v, st):
        """known constant members of a set or of the keys of a dict; None otherwise"""
        if v.k == "CL" and v.a[0].k == "AT" and v.a[0].a[1] == "keys" and not v.a[1]:
            v = v.a[0].a[0]
            if v.k != "DCT" and not (v.k == "OBJ" and st.obj(v) is not None and st.obj(v).kind == "dict"):
                return None
        if v.k == "C" and not isinstance(cval(v), (tuple, frozenset)):
            return None
        items, ok = self.seq_items(v, st)
        return items if ok and all(is_c(x) for x in items) else None

    def setish(self, v, st):
        return v.k == "SET" or v.k == "OBJ" and st.obj(v) is not None and st.obj(v).kind == "set" or v.k == "CL" and v.a[0].k == "AT" and v.a[0].a[1] == "keys" and not v.a[1] \
            or is_c(v) and isinstance(cval(v), frozenset)

    def seq_items(self, v, st):
        """(items, True) when v is a sequence with completely known items"""
        if v.k in ("TUP", "LST", "SET"):
            if any(x.k in ("STAR",) for x in v.a):
                return (), False
            return v.a, True
        if v.k == "C":
            x = cval(v)
            if isinstance(x, str):
                return tuple(C(c) for c in x), True
            if isinstance(x, bytes):
                return tuple(C(c) for c in x), True
            if isinstance(x, (tuple, frozenset)):
                try:
                    return tuple(C(c) for c in x), True
                except TypeError:
                    return (), False
            return (), False
        if v.k == "OBJ" and st.obj(v) is not None:
            o = st.obj(v)
            if o.kind in ("list", "set"):
                if any(x.k in ("STAR", "REP", "AT_POS") for x in o.data):
                    return (), False
                return o.data, True
            if o.kind == "dict" and not o.data[1]:
                return tuple(k for k, _ in o.data[0]), True
        if v.k == "DCT" and not v.a[1]:
            return tuple(k for k, _ in v.a[0]), True
        if v.k == "CL" and v.a[0].k == "EXT" and v.a[0].a[0] == "builtins.range" and all(is_c(x) for x in v.a[1]):
            try:
                r = range(*[cval(x) for x in v.a[1]])
                if len(r) <= 2000:
                    return tuple(C(i) for i in r), True
            except Exception:
                pass
        return (), False

    def index_term(self, b, i, st):
        """pure subscript"""
        if is_c(i) and isinstance(cval(i), int):
            items, ok = self.seq_items(b, st)
            if ok and b.k != "SET":
                try:
                    return items[cval(i)]
                except IndexError:
                    return None
            if b.k == "OBJ" and st.obj(b) is not None and st.obj(b).kind == "list":
                d = st.obj(b).data
                for x in reversed(d):
                    if x.k == "AT_POS" and x.a[0] is i:
                        return x.a[1]
                j = cval(i)
                if 0 <= j < len(d) and all(x.k not in ("STAR", "REP", "AT_POS") for x in d[:j + 1]):
                    return d[j]
        if i.k == "SLICE" and all(is_c(x) for x in i.a):
            sl = slice(*[cval(x) for x in i.a])
            if is_c(b):
                try:
                    return C(cval(b)[sl])
                except Exception:
                    return TOP("slice")
            items, ok = self.seq_items(b, st)
            if ok and b.k == "TUP":
                return T(*items[sl])
            if ok and b.k in ("LST",):
                return mk("LST", *items[sl])
            if b.k == "CAT":
                r = cat_slice(b, sl)
                if r is not None:
                    return r
        if b.k == "CAT" and is_c(i) and isinstance(cval(i), int):
            parts = b.a[1]
            j = cval(i)
            if j >= 0 and is_c(parts[0]) and len(cval(parts[0])) > j:
                return C(cval(parts[0])[j])
            if j < 0 and is_c(parts[-1]) and len(cval(parts[-1])) >= -j:
                return C(cval(parts[-1])[j])
        if is_c(b) and is_c(i):
            try:
                return C(cval(b)[cval(i)])
            except Exception:
                return None
        fb, fi = self.freeze(b, st), self.freeze(i, st)
        # np.stack((a, b), axis=-1)[..., i]  ->  a / b
        if fb.k == "CL" and fb.a[0].k == "EXT" and fb.a[0].a[0] == "numpy.stack" and fi.k == "TUP" and len(fi.a) == 2 \
                and fi.a[0] is C(Ellipsis) and is_c(fi.a[1]) and fb.a[1]:
            ax = dict((k, v) for k, v in fb.a[2]).get("axis", fb.a[1][1] if len(fb.a[1]) > 1 else C(0))
            src = fb.a[1][0]
            if ax is C(-1) and src.k in ("TUP", "LST") and isinstance(cval(fi.a[1]), int) and -len(src.a) <= cval(fi.a[1]) < len(src.a):
                return src.a[cval(fi.a[1])]
        return IX(fb, fi)

    def getitem(self, b, i, st, ctx, n):
        if self.model_item is not None:
            r = self.model_item(b, i, st, ctx, n)
            if r is not None:
                return r
        if b.k == "OBJ" and st.obj(b) is not None:
            o = st.obj(b)
            if o.cls is not None and o.cls.k == "CLS":
                f, _ = self.class_lookup(o.cls.a[0], "__getitem__", st)
                if f is not None and f.k == "FN":
                    return self.call_fn(f, [b, i], [], st, ctx, n)
            if o.kind == "dict":
                return self.dict_get(b, i, None, st, ctx, n)
            if o.kind == "list" and i.k == "SLICE" and all(is_c(x) for x in i.a):
                items, ok = self.seq_items(b, st)
                if ok:
                    sl = slice(*[cval(x) for x in i.a])
                    return [st.alloc(self.site(n, ctx, "slice"), HO("list", None, (), items[sl]))]
            if o.kind == "chainmap":
                return self.chain_get(b, i, None, st, ctx, n)
        if b.k == "DCT":
            return self.dict_get(b, i, None, st, ctx, n)
        r = self.index_term(b, i, st)
        if r is None:
            self.throw(mk("EXC", EXT("builtins.IndexError"), (), NONE), st)
            return []
        if r.k == "IX":
            st2 = self.emit(st, Ev("getitem", r.a[0], r.a[1], r, (), (), ctx.fn.loc(n)))
            return [(r, s) for s in self.opaque_may_raise(AT(r.a[0], "__getitem__"), (r.a[1],), (), st2, ctx, n)]
        return [(r, st)]

    def dict_get(self, b, key, default, st, ctx, n):
        """default None -> subscript semantics"""
        items, stars = self.dict_parts(b, st)
        key = self.freeze(key, st) if key.k == "OBJ" and st.obj(key) is not None and st.obj(key).kind != "inst" else key
        for k, v in items:
            if k is key or (is_c(k) and is_c(key) and type(cval(k)) in (int, bool, float) and type(cval(key)) in (int, bool, float) and cval(k) == cval(key)):
                return [(v, st)]
        res = []
        live = [st]
        if not (is_c(key) or key.k in ("EXT", "CLS", "FN")):
            for k, v in items:
                if not (is_c(k) or k.k in ("EXT", "CLS", "FN")):
                    continue
                nxt = []
                for s in live:
                    for t, s2 in self.truth(self.cmp("==", key, k, s), s):
                        (res.append((v, s2)) if t else nxt.append(s2))
                live = nxt
        if stars:
            live_stars = [x for x in stars if not (is_c(key) and x.a[1] is not None and cval(key) in x.a[1])]
            if live_stars:
                src = live_stars[0].a[0]
                for s in live:
                    if default is None:
                        res.append((IX(src, key), s))
                    else:
                        res.append((CL(AT(src, "get"), (key, self.freeze(default, s))), s))
                return res
        for s in live:
            if default is None:
                self.throw(mk("EXC", EXT("builtins.KeyError"), (key,), NONE), s)
            else:
                res.append((default, s))
        return res

    def chain_get(self, b, key, default, st, ctx, n):
        maps, ok = self.seq_items(st.obj(b).data, st)
        miss = mk("MISSING")
        live = [st]
        res = []
        for m in maps:
            nxt = []
            for s in live:
                if m.k == "OBJ" and s.obj(m) is not None and s.obj(m).kind in ("dict",):
                    for v, s2 in self.dict_get(m, key, miss, s, ctx, n):
                        (nxt.append(s2) if v is miss else res.append((v, s2)))
                elif m.k == "OBJ" and s.obj(m) is not None and s.obj(m).kind == "chainmap":
                    for v, s2 in self.chain_get(m, key, miss, s, ctx, n):
                        (nxt.append(s2) if v is miss else res.append((v, s2)))
                else:
                    fm = self.freeze(m, s)
                    if default is None:
                        res += [(IX(fm, key), x) for x in self.opaque_may_raise(AT(fm, "__getitem__"), (key,), (), s, ctx, n)]
                    else:
                        res.append((CL(AT(fm, "get"), (key, self.freeze(default, s))), s))
            live = nxt
        for s in live:
            if default is None:
                self.throw(mk("EXC", EXT("builtins.KeyError"), (key,), NONE), s)
            else:
                res.append((default, s))
        return res

    # freezing -----------------------------------------------------------------
    def freeze(self, v, st, depth=8):
        """snapshot of heap values as terms"""
        if v.k in ("C", "S", "EXT", "FN", "CLS", "MOD", "AT", "IX", "CL", "EL", "TOP", "STAR"):
            return v
        if depth <= 0:
            return v
        if v.k == "TUP":
            its = tuple(self.freeze(x, st, depth - 1) for x in v.a)
            return v if its == v.a else T(*its)
        if v.k == "OBJ":
            o = st.obj(v)
            if o is None or o.cls is not None and o.kind not in ("dict",):
                return v
            if o.kind == "list":
                if len(o.data) == 1 and o.data[0].k == "STAR" and o.data[0].a[0].k != "GEN":
                    return CL(EXT("builtins.list"), (o.data[0].a[0],))
                return mk("LST", *[self.freeze(x, st, depth - 1) for x in o.data])
            if o.kind == "set":
                return mk("SET", *[self.freeze(x, st, depth - 1) for x in o.data])
            if o.kind == "dict" and (o.cls is None or not o.attrs):
                if o.cls is not None and not o.data[0] and not o.data[1]:
                    return v
                return mk("DCT", tuple((self.freeze(k, st, depth - 1), self.freeze(x, st, depth - 1)) for k, x in o.data[0]), tuple(o.data[1]))
        return v

    # comprehensions --------------------------------------------------------------
    def e_ListComp(self, n, st, ctx):
        return self.comp(n, [n.elt], st, ctx, "list")

    def e_SetComp(self, n, st, ctx):
        return self.comp(n, [n.elt], st, ctx, "set")

    def e_GeneratorExp(self, n, st, ctx):
        return self.comp(n, [n.elt], st, ctx, "gen")

    def e_DictComp(self, n, st, ctx):
        return self.comp(n, [n.key, n.value], st, ctx, "dict")

    def comp(self, n, elts, st, ctx, kind):
        fid, s0 = st.newframe(("comp", ctx.fn.fullname, n.lineno, n.col_offset), {"$parent": ctx.fid})
        cctx = ctx.but(fid=fid)
        # (collected values, generic info, state)
        runs = self.comp_gens(n.generators, 0, elts, [((), s0)], cctx, ctx, n)
        res = []
        for vals, s in runs:
            s = s.dropframe(fid)
            concrete = all(v.k != "GENX" for v in vals)
            if kind == "dict":
                items, stars = [], []
                for v in vals:
                    if v.k == "GENX":
                        stars += self.gen_dict_stars(v, s, items)
                    else:
                        items = _merge(items, [(v.a[0], v.a[1])])
                res.append(s.alloc(self.site(n, ctx, "dictcomp"), HO("dict", None, (), (tuple(items), tuple(stars)))))
                continue
            data = []
            for v in vals:
                if v.k == "GENX":
                    data.append(mk("STAR", mk("GEN", v.a[0], v.a[1], v.a[2]), frozenset()))
                else:
                    data.append(v.a[0] if v.k == "ONE" else v)
            if kind == "gen" and len(data) == 1 and data[0].k == "STAR":
                res.append((data[0].a[0], s))
                continue
            if kind == "list" and len(data) == 1 and data[0].k == "STAR":
                g = data[0].a[0]
                res.append(s.alloc(self.site(n, ctx, "lc"), HO("list", None, (), tuple(data))))
                continue
            k2 = "list" if kind == "gen" else kind
            if kind == "set":
                data = list(dict.fromkeys(data))
            res.append(s.alloc(self.site(n, ctx, "comp"), HO(k2, None, (), tuple(data))))
        return res

    def gen_dict_stars(self, v, st, items):
        """dict built from a generic pair: recognise filtered copies of mappings"""
        elt, it, conds = v.a
        out = []
        src = None
        if it.k == "CL" and it.a[0].k == "AT" and it.a[0].a[1] == "items" and not it.a[1]:
            src = it.a[0].a[0]
        if src is not None and elt.k == "TUP" and len(elt.a) == 2 and elt.a[0] is mk("KEY", src) and elt.a[1] is mk("VAL", src):
            ex = set()
            ok = True
            for c in conds:
                e = self.excluded_keys(c, src)
                if e is None:
                    ok = False
                else:
                    ex |= e
            if src.k == "DCT":
                for k, x in src.a[0]:
                    if is_c(k) and cval(k) in ex:
                        continue
                    items.append((k, x))
                for s in src.a[1]:
                    out.append(mk("STAR", s.a[0], (s.a[1] | frozenset(ex)) if ok and s.a[1] is not None else None))
            else:
                out.append(mk("STAR", src, frozenset(ex) if ok else None))
            return out
        return [mk("STAR", mk("GEN", elt, it, conds), frozenset())]

    def excluded_keys(self, c, src):
        """constants excluded by the condition 'key not in {...}'"""
        key = mk("KEY", src)
        if c.k == "NOT":
            c = c.a[0]
            if c.k == "OR":
                s = set()
                for x in c.a[0]:
                    e = self.excluded_keys(NOT(x), src)
                    if e is None:
                        return None
                    s |= e
                return s
            if c.k == "CMP" and c.a[0] == "==" and c.a[1] is key and is_c(c.a[2]):
                return {cval(c.a[2])}
        return None

    def comp_gens(self, gens, gi, elts, runs, cctx, ctx, n):
        """evaluate generators gi.. ; runs = [(values, state)]"""
        if gi == len(gens):
            out = []
            for vals, s in runs:
                for ev, s2 in self.ev_list(elts, s, cctx):
                    if len(ev) == 2:
                        out.append((vals + (mk("PAIR", ev[0], ev[1]),), s2))
                    else:
                        out.append((vals + (mk("ONE", ev[0]),), s2))
            return out
        g = gens[gi]
        out = []
        for vals, s in runs:
            for it, s1 in self.ev(g.iter, s, cctx):
                elems, concrete = self.elements(it, s1)
                if concrete:
                    live = [(vals, s1)]
                    for e in elems:
                        nxt = []
                        for vv, s2 in live:
                            for s3 in self.assign(g.target, e, s2, cctx):
                                conds = [(True, s3)]
                                for c in g.ifs:
                                    conds = [(b2, s5) for b, s4 in conds for cv, s5a in (self.ev(c, s4, cctx) if b else [(FALSE, s4)])
                                             for b2, s5 in self.truth(cv, s5a)]
                                for b, s4 in conds:
                                    if b:
                                        nxt += self.comp_gens(gens, gi + 1, elts, [(vv, s4)], cctx, ctx, n)
                                    else:
                                        nxt.append((vv, s4))
                        live = nxt
                    out += live
                    continue
                # generic element
                src, elem, pre = self.generic_elem(it, s1)
                for s3 in self.assign(g.target, elem, s1, cctx):
                    live = [(list(pre), s3)]
                    for c in g.ifs:
                        nxt = []
                        for cs, s4 in live:
                            for cv, s5 in self.ev(c, s4, cctx):
                                # short-circuit operators fork; keep facts out of the outer state
                                if cv is TRUE:
                                    nxt.append((cs, s5))
                                elif cv is FALSE:
                                    continue
                                else:
                                    nxt.append((cs + [self.freeze(cv, s5)], s5))
                        live = nxt
                    for cs, s4 in live:
                        if gi + 1 == len(gens):
                            for evs, s5 in self.ev_list(elts, s4, cctx):
                                fz = [self.freeze(x, s5) for x in evs]
                                x = T(*fz) if len(fz) == 2 else fz[0]
                                s6 = s5._with(facts=s1.facts)
                                out.append((vals + (mk("GENX", x, src, tuple(cs)),), s6))
                        else:
                            for vv, s5 in self.comp_gens(gens, gi + 1, elts, [((), s4)], cctx, ctx, n):
                                for v in vv:
                                    if v.k == "GENX":
                                        out.append((vals + (mk("GENX", v.a[0], mk("NEST", src, v.a[1]), tuple(cs) + v.a[2]),), s5._with(facts=s1.facts)))
                                    else:
                                        x = v.a[0] if v.k == "ONE" else T(*v.a)
                                        out.append((vals + (mk("GENX", x, src, tuple(cs)),), s5._with(facts=s1.facts)))
                    if not live:
                        out.append((vals, s1))
        return self.dedupe_vals(out)

    def elements(self, it, st):
        """([elements], True) when iteration is fully known"""
        if self.model_iter is not None:
            r = self.model_iter(it, st)
            if r is not None:
                return list(r), True
        items, ok = self.seq_items(it, st)
        if ok:
            return list(items), True
        if it.k == "CL" and it.a[0].k == "EXT":
            nm = it.a[0].a[0]
            if nm == "builtins.enumerate" and it.a[1]:
                xs, ok = self.elements(it.a[1][0], st)
                start = it.a[1][1] if len(it.a[1]) > 1 else dict(it.a[2]).get("start", C(0))
                if ok and is_c(start):
                    return [T(C(cval(start) + i), x) for i, x in enumerate(xs)], True
            if nm in ("builtins.iter", "builtins.list", "builtins.tuple") and len(it.a[1]) == 1:
                return self.elements(it.a[1][0], st)
            if nm == "builtins.reversed" and len(it.a[1]) == 1:
                xs, ok = self.elements(it.a[1][0], st)
                if ok:
                    return xs[::-1], True
            if nm == "builtins.zip":
                cols = [self.elements(x, st) for x in it.a[1]]
                known = [len(c) for c, ok in cols if ok]
                for j, x in enumerate(it.a[1]):
                    if known and not cols[j][1] and x.k == "CL" and x.a[0] is EXT("itertools.count") and not x.a[2] and all(is_c(y) for y in x.a[1]) and len(x.a[1]) < 3:
                        lo, by = ([cval(y) for y in x.a[1]] + [0, 1])[:2] if len(x.a[1]) != 1 else (cval(x.a[1][0]), 1)
                        cols[j] = [C(lo + k * by) for k in range(min(known))], True
                if cols and all(ok for _, ok in cols):
                    return [T(*r) for r in zip(*[c for c, _ in cols])], True
        if it.k == "CL" and it.a[0].k == "AT" and it.a[0].a[1] in ("items", "keys", "values") and not it.a[1]:
            src = it.a[0].a[0]
            if (src.k == "OBJ" and st.obj(src) is not None and st.obj(src).kind == "dict" and not st.obj(src).data[1]) or \
                    (src.k == "DCT" and not src.a[1]):
                items, _ = self.dict_parts(src, st)
                m = it.a[0].a[1]
                return [T(k, v) if m == "items" else k if m == "keys" else v for k, v in items], True
        return [], False

    def generic_elem(self, it, st):
        """(source term, generic element, preconditions)"""
        if it.k == "GEN":
            return it.a[1], it.a[0], it.a[2]
        if it.k == "OBJ" and st.obj(it) is not None and st.obj(it).kind in ("list", "set") and len(st.obj(it).data) == 1 \
                and st.obj(it).data[0].k == "STAR" and st.obj(it).data[0].a[0].k == "GEN":
            g = st.obj(it).data[0].a[0]
            return g.a[1], g.a[0], g.a[2]
        f = self.freeze(it, st)
        if f.k == "CL" and f.a[0].k == "EXT":
            nm = f.a[0].a[0]
            if nm == "builtins.enumerate" and f.a[1]:
                start = f.a[1][1] if len(f.a[1]) > 1 else dict(f.a[2]).get("start", C(0))
                src, el, pre = self.generic_elem(f.a[1][0], st)
                idx = mk("IDX", src_of(f.a[1][0]), cval(start)) if is_c(start) and isinstance(cval(start), int) else mk("IDXS", src, start)
                return f, T(idx, el), pre
            if nm in ("builtins.iter", "builtins.list", "builtins.tuple", "builtins.sorted") and len(f.a[1]) >= 1:
                return self.generic_elem(f.a[1][0], st)
            if nm == "builtins.zip":
                els = [self.generic_elem(x, st)[1] for x in f.a[1]]
                return f, T(*els), ()
            if nm == "builtins.range" and len(f.a[1]) == 1:
                a = f.a[1][0]
                if a.k == "CL" and a.a[0] is EXT("builtins.len") and len(a.a[1]) == 1:
                    return f, mk("IDX", src_of(a.a[1][0]), 0), ()
            if nm == "builtins.map" and len(f.a[1]) == 2:
                src, el, pre = self.generic_elem(f.a[1][1], st)
                return f, CL(f.a[1][0], (el,)), pre
        if f.k == "CL" and f.a[0].k == "AT" and not f.a[1]:
            src = self.freeze(f.a[0].a[0], st)
            m = f.a[0].a[1]
            if m == "items":
                return f, T(mk("KEY", src), mk("VAL", src)), ()
            if m == "keys":
                return f, mk("KEY", src), ()
            if m == "values":
                return f, mk("VAL", src), ()
        if f.k == "DCT":
            return f, mk("KEY", f), ()
        return f, mk("EL", f), ()

    # iteration in statements --------------------------------------------------------
    def iterate(self, it, st, ctx, body, n):
        """outcomes of running body(elem, state) over it; 'N' = exhausted"""
        elems, ok = self.elements(it, st)
        if ok:
            live = [st]
            outs = []
            for e in elems:
                nxt = []
                for s in live:
                    for o in body(e, s):
                        if o[0] in ("N", "C"):
                            nxt.append(("N", None, o[2]))
                        else:
                            outs.append(o)
                live = [o[2] for o in self.dedupe(nxt)]
            return outs + [("N", None, s) for s in live]
        # enumerate / iter over generators
        inner, wrap = it, None
        if it.k == "CL" and it.a[0].k == "EXT" and it.a[0].a[0] in ("builtins.enumerate", "builtins.iter") and it.a[1]:
            inner = it.a[1][0]
            if it.a[0].a[0] == "builtins.enumerate":
                def wrap(e):
                    return T(mk("IDX", src_of(inner), 0), e)
        if inner.k == "OBJ" and st.obj(inner) is not None and st.obj(inner).kind == "gen":
            def hook(v, s):
                res = []
                for o in body(wrap(v) if wrap else v, s):
                    if o[0] in ("N", "C"):
                        res.append(("N", NONE, o[2]))
                    else:
                        res.append(("ESCN", o, o[2]))
                return res
            outs = []
            for o in self.run_gen(inner, st, ctx, hook, n):
                if o[0] in ("N", "R"):
                    outs.append(("N", None, o[2]))
                elif o[0] == "ESCN":
                    p = o[1]
                    outs.append((p[0], p[1], o[2]))
                else:
                    outs.append(o)
            return outs
        # partially known lists: known elements first
        self.approx = True
        outs = [("N", None, st)]
        st1s = self.opaque_may_raise(AT(self.freeze(it, st), "__iter__"), (), (), st, ctx, n)
        for s in st1s:
            src, elem, pre = self.generic_elem(it, s)
            live = [s]
            for c in pre:
                live = [s2 for x in live for b, s2 in self.truth(c, x) if b]
            for x in live:
                rounds = 2 if self.loop_twice else 1
                cur = [x]
                for r in range(rounds):
                    nxt = []
                    for y in cur:
                        for o in body(elem, y):
                            if o[0] in ("N", "C"):
                                nxt.append(("N", None, o[2]))
                            else:
                                outs.append(o)
                    nxt = self.dedupe(nxt)
                    outs += nxt
                    cur = [o[2] for o in nxt]
        return self.dedupe(outs)

    def e_Yield(self, n, st, ctx):
        vals = [(NONE, st)] if n.value is None else self.ev(n.value, st, ctx)
        res = []
        for v, s in vals:
            res += self.do_yield(v, s, ctx)
        return res

    def do_yield(self, v, st, ctx):
        if ctx.hook is None:
            return [(NONE, st)]
        res = []
        for o in ctx.hook(v, st):
            if o[0] == "N":
                res.append((o[1] or NONE, o[2]))
            elif o[0] == "X":
                self.throw(o[1], o[2])
            else:
                self.sink.append(((o[0], o[1]), o[2]))
        return res

    def e_YieldFrom(self, n, st, ctx):
        res = []
        for it, s in self.ev(n.value, st, ctx):
            def body(e, s1):
                saved, self.sink = self.sink, []
                try:
                    vs = self.do_yield(e, s1, ctx)
                    exc = self.sink
                finally:
                    self.sink = saved
                return [("N", None, s2) for _, s2 in vs] + [("X", e2, s2) if not isinstance(e2, tuple) else (e2[0], e2[1], s2) for e2, s2 in exc]
            for o in self.iterate(it, s, ctx, body, n):
                if o[0] in ("N", "B"):
                    res.append((NONE, o[2]))
                elif o[0] == "X":
                    self.throw(o[1], o[2])
                else:
                    self.sink.append(((o[0], o[1]), o[2]))
        return res

    def e_Await(self, n, st, ctx):
        return self.ev(n.value, st, ctx)


def src_of(x):
    while x.k == "CL" and x.a[0].k == "EXT" and x.a[0].a[0] in ("builtins.iter", "builtins.list", "builtins.tuple") and len(x.a[1]) == 1:
        x = x.a[1][0]
    if x.k == "CL" and x.a[0].k == "AT" and x.a[0].a[1] in ("items", "keys", "values") and not x.a[1]:
        x = x.a[0].a[0]
    return x


def _merge(items, more):
    items = list(items)
    for k, v in more:
        for j, (k2, _) in enumerate(items):
            if k2 is k:
                items[j] = (k, v)
                break
        else:
            items.append((k, v))
    return items


def strkind(v, st=None):
    k = kind_of(v, st)
    if k is None:
        return None
    n = cname(k)
    return {"builtins.str": "str", "builtins.bytes": "bytes"}.get(n)


def cat(kind, parts):
    out = []
    for p in parts:
        if p.k == "CAT" and p.a[0] == kind:
            sub = p.a[1]
        else:
            sub = (p,)
        for q in sub:
            if is_c(q) and not cval(q) and isinstance(cval(q), (str, bytes)):
                continue
            if out and is_c(out[-1]) and is_c(q) and type(cval(out[-1])) is type(cval(q)):
                out[-1] = C(cval(out[-1]) + cval(q))
            else:
                out.append(q)
    if not out:
        return C("" if kind == "str" else b"")
    if len(out) == 1 and (is_c(out[0]) or out[0].k in ("REPR", "STRF", "DEC", "ENC") or strkind(out[0]) == kind):
        return out[0]
    return mk("CAT", kind, tuple(out))


def cat_slice(c, sl):
    if sl.step not in (None, 1):
        return None
    parts = list(c.a[1])
    a, b = sl.start or 0, sl.stop
    if a < 0:
        return None
    while a > 0:
        if not parts or not is_c(parts[0]):
            return None
        x = cval(parts[0])
        if len(x) <= a:
            a -= len(x)
            parts.pop(0)
        else:
            parts[0] = C(x[a:])
            a = 0
    if b is not None:
        if b < 0:
            while b < 0:
                if not parts or not is_c(parts[-1]):
                    return None
                x = cval(parts[-1])
                if len(x) <= -b:
                    b += len(x)
                    parts.pop()
                else:
                    parts[-1] = C(x[:b])
                    b = 0
        else:
            # positive stop, measured from the original start
            n = b - (sl.start or 0)
            out = []
            for p in parts:
                if n <= 0:
                    break
                if not is_c(p):
                    return None
                out.append(C(cval(p)[:n]))
                n -= len(cval(p))
            parts = out
    return cat(c.a[0], parts)


def cat_eq(c, s):
    """can the template equal the constant?  False if certainly not"""
    if not isinstance(s, str if c.a[0] == "str" else bytes):
        return False
    p = c.a[1]
    if is_c(p[0]) and not s.startswith(cval(p[0])):
        return False
    if is_c(p[-1]) and not s.endswith(cval(p[-1])):
        return False
    return None
