"""Interprocedural, path-sensitive abstract interpreter over provenance terms.

Nothing of the analysed program is executed and no solver is involved: every
expression is mapped to a hash-consed term saying where its value comes from;
branches are split on canonical conditions and correlated by syntactic identity
of those conditions; loops over unknown collections are analysed for one
generic element; calls are resolved through imports, class hierarchies, bound
methods and closures, and inlined.
"""
import ast
import re
from .terms import *
from .know import *
from .state import State, Base, HO, Ev
from .repo import Repo, FuncInfo, ClassInfo
from .evalx import EvalMixin
from .calls import CallMixin


class Budget(Exception):
    pass


class Broken(Exception):
    """an anchor the check needs does not exist any more"""


class Ctx:
    """static context of one function activation"""
    __slots__ = ("fid", "fn", "hook", "cur_exc", "handlers", "mod", "cls", "selfv", "depth", "stack")

    def __init__(self, fid, fn, mod, cls=None, selfv=None, hook=None, depth=0, stack=()):
        self.fid = fid
        self.fn = fn
        self.mod = mod
        self.cls = cls
        self.selfv = selfv
        self.hook = hook
        self.cur_exc = None
        self.handlers = ()
        self.depth = depth
        self.stack = stack

    def but(self, **kw):
        c = Ctx(self.fid, self.fn, self.mod, self.cls, self.selfv, self.hook, self.depth, self.stack)
        c.cur_exc = self.cur_exc
        c.handlers = self.handlers
        for k, v in kw.items():
            setattr(c, k, v)
        return c


def default_raises(interp, callee, args, kws, st, ctx):
    return ()


class Interp(EvalMixin, CallMixin):
    MAXSTATES = 60000
    MAXDEPTH = 40

    def __init__(self, repo):
        self.repo = repo
        self.base = Base()
        self.modstate = {}
        self.stats = {"statements": 0, "functions": set(), "call_sites": set(), "forks": 0, "states": 0}
        self.sink = []
        self.reset_policy()
        self.loading = []
        st = State(self.base)
        # interpret all modules
        self.import_errors = []
        self.building = True
        for m in sorted(repo.trees):
            st = self.load_module(m, st)
        self.building = False
        # freeze as base
        self.base.frames.update(st.frames)
        self.base.heap.update(st.heap)
        self.module_hist = st.events()

    # policy --------------------------------------------------------------
    def reset_policy(self):
        self.inline = lambda fn, st, ctx: True
        self.keep_event = lambda ev: True
        self.raises = default_raises
        self.loop_twice = False
        self.model_attr = None
        self.model_call = None
        self.mark_inject = None
        self.model_item = None
        self.model_iter = None
        self.fork_hook = None
        self.keep_fact = None
        self.max_outcomes = 4000
        self.max_rec = 1
        self.approx = False   # set when a loop was followed for some of its rounds only

    # modules ---------------------------------------------------------------
    def load_module(self, name, st):
        fid = ("mod", name)
        if st.frame(fid) is not None:
            return st
        parent = name.rpartition(".")[0]
        if parent and parent in self.repo.trees:
            st = self.load_module(parent, st)
            if st.frame(fid) is not None:
                return st
        fr = dict(st.frames)
        fr[fid] = {"$parent": None, "__name__": C(name), "__file__": C(self.repo.files[name])}
        st = st._with(frames=fr)
        tree = self.repo.trees[name]
        fi = FuncInfo.__new__(FuncInfo)
        fi.node = tree
        fi.name = "<module>"
        fi.qual = "<module>"
        fi.module = name
        fi.cls = None
        fi.relpath = self.repo.rel(name)
        fi.lineno = 1
        fi.is_gen = False
        fi.nested = True
        fi.deco = set()
        fi.declared = {}
        ctx = Ctx(fid, fi, name)
        outs = self.exec_block(tree.body, st, ctx)
        norm = [o for o in outs if o[0] == "N"]
        if not norm:
            if outs:
                self.import_errors.append((name, outs[0][0], pp(outs[0][1]) if isinstance(outs[0][1], Node) else ""))
                return outs[0][2]
            return st
        st = norm[0][2]
        if parent and st.frame(("mod", parent)) is not None:
            st = st.setvar(("mod", parent), name.rpartition(".")[2], mk("MOD", name))
        return st

    def resolve_from(self, ctx, level, module):
        if level == 0:
            return module
        cur = ctx.mod.split(".")
        if ctx.mod not in self.repo.is_pkg:
            cur = cur[:-1]
        cur = cur[: len(cur) - (level - 1)]
        return ".".join(cur + ([module] if module else []))

    # helpers -----------------------------------------------------------------
    def dedupe(self, outs):
        if len(outs) < 2:
            return outs
        seen = set()
        res = []
        for o in outs:
            k = (o[0], o[1], o[2].key())
            if k in seen:
                continue
            seen.add(k)
            res.append(o)
        if len(res) > self.max_outcomes:
            raise Budget("more than %d abstract states" % self.max_outcomes)
        return res

    def dedupe_vals(self, vals):
        if len(vals) < 2:
            return vals
        seen = set()
        res = []
        for v, s in vals:
            k = (v, s.key())
            if k in seen:
                continue
            seen.add(k)
            res.append((v, s))
        if len(res) > self.max_outcomes:
            raise Budget("more than %d abstract states" % self.max_outcomes)
        return res

    def emit(self, st, ev):
        return st.emit(ev) if self.keep_event(ev) else st

    def throw(self, exc, st):
        self.sink.append((exc, st))

    # statements ----------------------------------------------------------------
    def exec_block(self, stmts, st, ctx):
        live = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in live:
                for o in self.exec_stmt(s, x, ctx):
                    if o[0] == "N":
                        nxt.append(o)
                    else:
                        done.append(o)
            nxt = self.dedupe(nxt)
            live = [o[2] for o in nxt]
            if not live:
                break
        return self.dedupe(done) + [("N", None, x) for x in live]

    def exec_stmt(self, node, st, ctx):
        self.stats["statements"] += 1
        if self.stats["statements"] > 4_000_000:
            raise Budget("statement budget")
        m = getattr(self, "s_" + type(node).__name__, None)
        if m is None:
            return [("N", None, st)]
        saved, self.sink = self.sink, []
        try:
            outs = m(node, st, ctx)
            exc = self.sink
        finally:
            self.sink = saved
        if exc:
            outs = list(outs) + [("X", e, s) if not isinstance(e, tuple) else (e[0], e[1], s) for e, s in exc]
        return self.dedupe(outs)

    def s_Expr(self, n, st, ctx):
        if isinstance(n.value, ast.Constant):
            return [("N", None, st)]
        return [("N", None, s) for v, s in self.ev(n.value, st, ctx)]

    def s_Pass(self, n, st, ctx):
        return [("N", None, st)]

    def s_Global(self, n, st, ctx):
        return [("N", None, st)]

    s_Nonlocal = s_Global

    def s_Assign(self, n, st, ctx):
        outs = []
        for v, s in self.ev(n.value, st, ctx):
            live = [s]
            for t in n.targets:
                live = [y for x in live for y in self.assign(t, v, x, ctx)]
            outs += [("N", None, x) for x in live]
        return outs

    def s_AnnAssign(self, n, st, ctx):
        if n.value is None:
            return [("N", None, st)]
        outs = []
        for v, s in self.ev(n.value, st, ctx):
            outs += [("N", None, x) for x in self.assign(n.target, v, s, ctx)]
        return outs

    def s_AugAssign(self, n, st, ctx):
        t = n.target
        load = ast.copy_location(_as_load(t), t)
        outs = []
        for a, s in self.ev(load, st, ctx):
            for b, s2 in self.ev(n.value, s, ctx):
                op = type(n.op).__name__
                s3 = s2
                if a.k not in ("C", "CAT", "TUP", "IDX", "BIN") and not (a.k == "OBJ"):
                    s3 = self.emit(s3, Ev("aug", a, op, b, (), (), ctx.fn.loc(n)))
                if a.k == "OBJ":
                    o = s3.obj(a)
                    if o is not None and o.kind == "list" and op == "Add":
                        items, ok = self.seq_items(b, s3)
                        new = o.data + (tuple(items) if ok else (mk("STAR", b, frozenset()),))
                        s3 = s3.setobj(a, o._replace(data=new))
                        outs += [("N", None, x) for x in self.assign(t, a, s3, ctx)]
                        continue
                    if o is not None and o.kind in ("set", "dict"):
                        s3 = self.emit(s3, Ev("aug", a, op, b, (), (), ctx.fn.loc(n)))
                        if o.kind == "dict" and op == "BitOr":
                            s3 = self.dict_update(a, b, s3)
                        outs += [("N", None, x) for x in self.assign(t, a, s3, ctx)]
                        continue
                v = self.binop(op, a, b, s3, ctx, n)
                outs += [("N", None, x) for x in self.assign(t, v, s3, ctx)]
        return outs

    def s_Delete(self, n, st, ctx):
        live = [st]
        for t in n.targets:
            nxt = []
            for s in live:
                if isinstance(t, ast.Name):
                    nxt.append(s.delvar(ctx.fid, t.id))
                elif isinstance(t, ast.Attribute):
                    for b, s2 in self.ev(t.value, s, ctx):
                        s2 = self.emit(s2, Ev("delattr", b, t.attr, NONE, (), (), ctx.fn.loc(n)))
                        if b.k == "OBJ" and s2.obj(b) is not None:
                            o = s2.obj(b)
                            s2 = s2.setobj(b, o._replace(attrs=tuple(x for x in o.attrs if x[0] != t.attr)))
                        nxt.append(s2)
                elif isinstance(t, ast.Subscript):
                    for (b, i), s2 in self.ev_list([t.value, t.slice], s, ctx):
                        s2 = self.emit(s2, Ev("delitem", b, i, NONE, (), (), ctx.fn.loc(n)))
                        if b.k == "OBJ" and s2.obj(b) is not None and s2.obj(b).kind == "dict":
                            o = s2.obj(b)
                            items = tuple(x for x in o.data[0] if x[0] is not i)
                            stars = tuple(_star_excl(x, i) for x in o.data[1])
                            s2 = s2.setobj(b, o._replace(data=(items, stars)))
                        elif b.k == "OBJ" and s2.obj(b) is not None and s2.obj(b).kind == "list" and is_c(i):
                            o = s2.obj(b)
                            try:
                                l = list(o.data)
                                del l[cval(i)]
                                s2 = s2.setobj(b, o._replace(data=tuple(l)))
                            except Exception:
                                pass
                        nxt.extend(self.opaque_may_raise(AT(b, "__delitem__"), (i,), (), s2, ctx, n))
                else:
                    nxt.append(s)
            live = nxt
        return [("N", None, s) for s in live]

    def s_Return(self, n, st, ctx):
        if n.value is None:
            return [("R", NONE, st)]
        return [("R", v, s) for v, s in self.ev(n.value, st, ctx)]

    def s_Break(self, n, st, ctx):
        return [("B", None, st)]

    def s_Continue(self, n, st, ctx):
        return [("C", None, st)]

    def s_Assert(self, n, st, ctx):
        outs = []
        for v, s in self.ev(n.test, st, ctx):
            for b, s2 in self.truth(v, s):
                if b:
                    outs.append(("N", None, s2))
                else:
                    outs.append(("X", mk("EXC", EXT("builtins.AssertionError"), (), NONE), s2))
        return outs

    def s_If(self, n, st, ctx):
        outs = []
        for v, s in self.ev(n.test, st, ctx):
            for b, s2 in self.truth(v, s):
                outs += self.exec_block(n.body if b else n.orelse, s2, ctx)
        return outs

    def s_Match(self, n, st, ctx):
        # treat as if/elif chain over value / class patterns
        outs = []
        for v, s in self.ev(n.subject, st, ctx):
            live = [s]
            for case in n.cases:
                nxt = []
                for x in live:
                    for b, s2 in self.match_pat(case.pattern, v, x, ctx):
                        if b and case.guard is not None:
                            for g, s3 in self.ev(case.guard, s2, ctx):
                                for gb, s4 in self.truth(g, s3):
                                    if gb:
                                        outs += self.exec_block(case.body, s4, ctx)
                                    else:
                                        nxt.append(s4)
                        elif b:
                            outs += self.exec_block(case.body, s2, ctx)
                        else:
                            nxt.append(s2)
                live = nxt
            outs += [("N", None, x) for x in live]
        return outs

    def match_pat(self, p, v, st, ctx):
        if isinstance(p, ast.MatchValue):
            res = []
            for c, s in self.ev(p.value, st, ctx):
                res += self.truth(self.cmp("==", v, c, s), s)
            return res
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.cmp("is", v, C(p.value), st), st)
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    st = st.setvar(ctx.fid, p.name, v)
                return [(True, st)]
            res = []
            for b, s in self.match_pat(p.pattern, v, st, ctx):
                if b and p.name:
                    s = s.setvar(ctx.fid, p.name, v)
                res.append((b, s))
            return res
        if isinstance(p, ast.MatchOr):
            live, res = [st], []
            for q in p.patterns:
                nxt = []
                for s in live:
                    for b, s2 in self.match_pat(q, v, s, ctx):
                        (res.append((True, s2)) if b else nxt.append(s2))
                live = nxt
            return res + [(False, s) for s in live]
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            res = []
            for c, s in self.ev(p.cls, st, ctx):
                res += self.truth(mk("ISI", v, c), s)
            return res
        t = mk("MATCH", ast.dump(p), v)
        return self.truth(t, st)

    def s_While(self, n, st, ctx):
        outs = []
        live = [st]
        limit, total = 3, 12000
        while limit and total:
            nxt = []
            free = True
            before = len(outs)
            for s in live:
                for v, s2 in self.ev(n.test, s, ctx):
                    ts = self.truth(v, s2)
                    if len(ts) > 1:
                        free = False
                    for b, s3 in ts:
                        if not b:
                            outs += self.exec_block(n.orelse, s3, ctx)
                            continue
                        for o in self.exec_block(n.body, s3, ctx):
                            if o[0] in ("N", "C"):
                                nxt.append(("N", None, o[2]))
                            elif o[0] == "B":
                                outs.append(("N", None, o[2]))
                            else:
                                outs.append(o)
            live = [o[2] for o in self.dedupe(nxt)]
            if not live:
                break
            # rounds that end in one known way only are unrolled, of others a few are followed
            if not free or len(outs) > before or len(live) > 1:
                limit -= 1
            total -= 1
        if live and not total:
            raise Budget("loop not followed to its end")
        if live:
            self.approx = True
        outs += [("N", None, s) for s in live]
        return outs

    def s_For(self, n, st, ctx):
        outs = []
        for it, s in self.ev(n.iter, st, ctx):
            def body(elem, s1):
                res = []
                for s2 in self.assign(n.target, elem, s1, ctx):
                    res += self.exec_block(n.body, s2, ctx)
                return res
            for o in self.iterate(it, s, ctx, body, n):
                if o[0] == "N":
                    outs += self.exec_block(n.orelse, o[2], ctx)
                elif o[0] == "B":
                    outs.append(("N", None, o[2]))
                else:
                    outs.append(o)
        return outs

    def s_Raise(self, n, st, ctx):
        if n.exc is None:
            return [("X", ctx.cur_exc or mk("XANY", "E", None), st)]
        outs = []
        for v, s in self.ev(n.exc, st, ctx):
            cause = [(NONE, s)]
            if n.cause is not None:
                cause = self.ev(n.cause, s, ctx)
            for c, s2 in cause:
                outs.append(("X", self.as_exc(v, c), s2))
        return outs

    def as_exc(self, v, cause=NONE):
        if v.k in ("EXT", "CLS"):
            return mk("EXC", v, (), cause)
        if v.k == "EXC":
            if cause is not NONE:
                return mk("EXC", v.a[0], v.a[1], cause)
            return v
        if v.k == "CL" and v.a[0].k in ("EXT", "CLS"):
            return mk("EXC", v.a[0], v.a[1], cause)
        if v.k == "XANY":
            return v
        return mk("XANY", "E", v)

    def s_FunctionDef(self, n, st, ctx):
        outs = []
        for fn, s in self.make_function(n, n.name, st, ctx):
            outs.append(("N", None, self.bind_name(n.name, fn, s, ctx)))
        return outs

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st, ctx):
        qual = n.name if ctx.fn.qual == "<module>" else ctx.fn.qual + "." + n.name
        ci = self.classes_by_node.get(n) if hasattr(self, "classes_by_node") else None
        if not hasattr(self, "classes_by_node"):
            self.classes_by_node = {}
        if ci is None:
            ci = ClassInfo(n, n.name, qual, ctx.mod, ctx.fn.relpath)
            self.classes_by_node[n] = ci
        outs = []
        for bases, s in self.ev_list(n.bases, st, ctx):
            ci.bases = tuple(b if b.k in ("CLS", "EXT") else EXT("builtins.object") for b in bases)
            ci._mro = None
            metas = [k.value for k in n.keywords if k.arg == "metaclass"]
            meta = None
            if metas:
                ms = self.ev(metas[0], s, ctx)
                meta, s = ms[0]
            else:
                for b in ci.bases:
                    if b.k == "CLS" and getattr(b.a[0], "meta", None) is not None:
                        meta = b.a[0].meta
            ci.meta = meta
            fid = ("cls", ctx.mod, qual)
            fr = dict(s.frames)
            fr[fid] = {"$parent": ctx.fid, "$class": ci, "__module__": C(ctx.mod), "__qualname__": C(qual)}
            s = s._with(frames=fr)
            ci.ns = fid
            cctx = ctx.but(fid=fid, cls=ci)
            for o in self.exec_block(n.body, s, cctx):
                if o[0] != "N":
                    outs.append(o)
                    continue
                s2 = o[2]
                if meta is not None and meta.k == "CLS":
                    s2 = self.apply_meta(meta, ci, s2, ctx, n)
                v = mk("CLS", ci)
                live = [(v, s2)]
                for d in reversed(n.decorator_list):
                    live = [(v, s3) for v0, s3 in live for _, s3 in self.ev(d, s3, ctx)]
                for v, s3 in live:
                    outs.append(("N", None, self.bind_name(n.name, v, s3, ctx)))
        return outs

    def apply_meta(self, meta, ci, st, ctx, n):
        """run a metaclass __new__ that edits the class namespace"""
        new, owner = self.class_lookup(meta.a[0], "__new__", st)
        if new is None or new.k != "FN":
            return st
        frame = st.frame(ci.ns)
        items = tuple((C(k), v) for k, v in frame.items() if not k.startswith("$"))
        ns, st2 = st.alloc(("meta", ci.fullname), HO("dict", None, (), (items, ())))
        saved, self.sink = self.sink, []
        try:
            res = self.call_fn(new, [meta, C(ci.name), T(*ci.bases), ns], [], st2, ctx, n)
        finally:
            self.sink = saved
        if not res:
            return st
        st3 = res[0][1]
        o = st3.obj(ns)
        if o is None or o.data[1]:
            return st
        newframe = {k: v for k, v in frame.items() if k.startswith("$")}
        for k, v in o.data[0]:
            if is_c(k):
                newframe[cval(k)] = v
        fr = dict(st3.frames)
        fr[ci.ns] = newframe
        return st3._with(frames=fr)

    def s_Import(self, n, st, ctx):
        for a in n.names:
            top = a.name.split(".")[0]
            if a.name in self.repo.trees:
                if a.name not in self.loading:
                    self.loading.append(a.name)
                    st = self.load_module(a.name, st)
                    self.loading.pop()
                v = mk("MOD", a.name if a.asname else top)
            else:
                v = EXT(a.name if a.asname else top)
            st = self.bind_name(a.asname or top, v, st, ctx)
        return [("N", None, st)]

    def s_ImportFrom(self, n, st, ctx):
        mod = self.resolve_from(ctx, n.level, n.module)
        if mod in self.repo.trees:
            st = self.load_module(mod, st)
        if mod.split(".")[0] == self.repo.PKG and mod not in self.repo.trees:
            # e.g. modules that do not exist (python 2 only)
            self.throw(mk("EXC", EXT("builtins.ImportError"), (), NONE), st)
            return []
        for a in n.names:
            if a.name == "*":
                if mod in self.repo.trees:
                    f = st.frame(("mod", mod))
                    names = [k for k in f if not k.startswith("_") and not k.startswith("$")]
                    if "__all__" in f:
                        items, ok = self.seq_items(f["__all__"], st)
                        if ok:
                            names = [cval(x) for x in items if is_c(x)]
                    for k in names:
                        if k in f:
                            st = self.bind_name(k, f[k], st, ctx)
                continue
            if mod in self.repo.trees:
                f = st.frame(("mod", mod))
                if a.name in f:
                    v = f[a.name]
                elif mod + "." + a.name in self.repo.trees:
                    st = self.load_module(mod + "." + a.name, st)
                    v = mk("MOD", mod + "." + a.name)
                else:
                    v = TOP("import %s.%s" % (mod, a.name))
            else:
                v = self.ext_attr(EXT(mod), a.name)
            st = self.bind_name(a.asname or a.name, v, st, ctx)
        return [("N", None, st)]

    # with ----------------------------------------------------------------------
    def s_With(self, n, st, ctx):
        return self.with_items(n.items, n, st, ctx)

    s_AsyncWith = s_With

    def with_items(self, items, n, st, ctx):
        if not items:
            return self.exec_block(n.body, st, ctx)
        it = items[0]
        outs = []
        saved, self.sink = self.sink, []
        try:
            cms = self.ev(it.context_expr, st, ctx)
            exc = self.sink
        finally:
            self.sink = saved
        outs += [("X", e, s) for e, s in exc if not isinstance(e, tuple)]
        self.sink += [(e, s) for e, s in exc if isinstance(e, tuple)]
        for cm, s in cms:
            bctx = ctx
            if cm.k == "CL" and cm.a[0].k == "EXT" and cm.a[0].a[0] == "contextlib.suppress":
                bctx = ctx.but(handlers=ctx.handlers + (tuple(cm.a[1]),))

            def body(val, s1, ctx=bctx):
                res = []
                if it.optional_vars is not None:
                    for s2 in self.assign(it.optional_vars, val, s1, ctx):
                        res += self.with_items(items[1:], n, s2, ctx)
                else:
                    res += self.with_items(items[1:], n, s1, ctx)
                return res
            outs += self.run_cm(cm, s, ctx, body, n)
        return outs

    def run_cm(self, cm, st, ctx, body, n):
        """enter cm, run body(value, state), leave cm on every outcome"""
        outs = []
        # generator based context manager of the package
        if cm.k == "OBJ" and st.obj(cm) is not None and st.obj(cm).kind == "gen":
            return self.run_gen_cm(cm, st, ctx, body, n)
        if cm.k == "CL" and cm.a[0].k == "EXT" and cm.a[0].a[0] == "contextlib.closing":
            h = cm.a[1][0] if cm.a[1] else NONE
            for o in body(h, st):
                for _, s in self.call(self.attr(h, "close", o[2], ctx, n)[0][0], [], [], o[2], ctx, n):
                    outs.append((o[0], o[1], s))
            return outs
        if cm.k == "CL" and cm.a[0].k == "EXT" and cm.a[0].a[0] == "contextlib.suppress":
            for o in body(NONE, st):
                if o[0] == "X":
                    rest = [o[1]]
                    m = self.match_exc(o[1], T(*cm.a[1]), o[2])
                    for b, s in m:
                        outs.append(("N", None, s) if b else (o[0], o[1], s))
                else:
                    outs.append(o)
            return outs
        if cm.k == "CL" and cm.a[0].k == "EXT" and cm.a[0].a[0] == "contextlib.nullcontext":
            return body(cm.a[1][0] if cm.a[1] else NONE, st)
        if cm.k == "OBJ" and st.obj(cm) is not None and st.obj(cm).kind == "exitstack":
            for o in body(cm, st):
                outs += self.unwind_stack(cm, o, ctx, n)
            return outs
        has_enter = None
        if cm.k == "OBJ" and st.obj(cm) is not None and st.obj(cm).cls is not None and st.obj(cm).cls.k == "CLS":
            has_enter, _ = self.class_lookup(st.obj(cm).cls.a[0], "__enter__", st)
        if has_enter is not None and has_enter.k == "FN":
            saved, self.sink = self.sink, []
            try:
                ent = self.call_fn(has_enter, [cm], [], st, ctx, n)
                exc = self.sink
            finally:
                self.sink = saved
            outs += [("X", e, s) for e, s in exc if not isinstance(e, tuple)]
            for v, s in ent:
                for o in body(v, s):
                    outs += self.leave_inst(cm, o, ctx, n)
            return outs
        # unknown / external context manager: entering yields itself for files
        is_file = cm.k == "CL" and cm.a[0].k == "EXT" and cm.a[0].a[0] in ("h5py.File", "builtins.open")
        knd = kind_of(cm, st)
        isf = is_file or (knd is not None and cname(knd) in ("h5py.File",)) or \
            any(t.k == "ISI" and t.a[0] is cm and cname(t.a[1]) in ("h5py.File",) and v for t, v in st.facts.items())
        val = cm if isf else CL(AT(cm, "__enter__"))
        st = self.emit(st, Ev("enter", cm, None, NONE, (), (), ctx.fn.loc(n)))
        for o in body(val, st):
            if isf:
                for _, s in self.call(AT(cm, "close"), [], [], o[2], ctx, n):
                    outs.append((o[0], o[1], s))
            else:
                s = self.emit(o[2], Ev("exit", cm, None, NONE, (), (), ctx.fn.loc(n)))
                outs.append((o[0], o[1], s))
        return outs

    def leave_inst(self, cm, o, ctx, n):
        st = o[2]
        ex, _ = self.class_lookup(st.obj(cm).cls.a[0], "__exit__", st)
        args = [NONE, NONE, NONE]
        if o[0] == "X":
            e = o[1]
            args = [e.a[0] if e.k == "EXC" else mk("XCLS", e), e, mk("TB", e)]
        if ex is None or ex.k != "FN":
            return [o]
        saved, self.sink = self.sink, []
        try:
            res = self.call_fn(ex, [cm] + args, [], st, ctx, n)
            exc = self.sink
        finally:
            self.sink = saved
        outs = [("X", e, s) for e, s in exc if not isinstance(e, tuple)]
        for v, s in res:
            if o[0] == "X":
                for b, s2 in self.truth(v, s):
                    outs.append(("N", None, s2) if b else (o[0], o[1], s2))
            else:
                outs.append((o[0], o[1], s))
        return outs

    def run_gen_cm(self, cm, st, ctx, body, n):
        state = {"yielded": False}

        def hook(val, s1):
            res = []
            for o in body(val, s1):
                if o[0] == "N":
                    res.append(("N", NONE, o[2]))
                elif o[0] == "X":
                    res.append(o)       # raised at the yield point
                else:
                    res.append(("ESCN", o, o[2]))
            return res
        outs = []
        for o in self.run_gen(cm, st, ctx, hook, n):
            if o[0] in ("N", "R"):
                outs.append(("N", None, o[2]))
            elif o[0] == "ESCN":
                p = o[1]
                outs.append((p[0], p[1], o[2]))
            else:
                outs.append(o)
        return outs

    def unwind_stack(self, cm, o, ctx, n):
        live = [o]
        while True:
            nxt = []
            prog = False
            for p in live:
                ho = p[2].obj(cm)
                if not ho.data:
                    nxt.append(p)
                    continue
                prog = True
                cb = ho.data[-1]
                s = p[2].setobj(cm, ho._replace(data=ho.data[:-1]))
                saved, self.sink = self.sink, []
                try:
                    if cb[0] == "call":
                        res = [(NONE, x) for _, x in self.call(cb[1], list(cb[2]), list(cb[3]), s, ctx, n)]
                    elif cb[0] == "cm":
                        q = self.leave_inst(cb[1], (p[0], p[1], s), ctx, n) if (
                            cb[1].k == "OBJ" and s.obj(cb[1]) is not None and s.obj(cb[1]).cls is not None) else None
                        if q is None:
                            res = [(NONE, x) for _, x in self.call(AT(cb[1], "close"), [], [], s, ctx, n)]
                        else:
                            nxt += q
                            res = []
                    else:
                        res = [(NONE, s)]
                    exc = self.sink
                finally:
                    self.sink = saved
                nxt += [("X", e, x) for e, x in exc if not isinstance(e, tuple)]
                nxt += [(p[0], p[1], x) for _, x in res]
            live = self.dedupe(nxt)
            if not prog:
                return live

    # try -------------------------------------------------------------------------
    def s_Try(self, n, st, ctx):
        htypes = []
        for h in n.handlers:
            if h.type is not None:
                for v, _ in self.ev_quiet(h.type, st, ctx):
                    for c in (v.a if v.k == "TUP" else (v,)):
                        htypes.append(c)
        bctx = ctx.but(handlers=ctx.handlers + (tuple(htypes),))
        body = self.exec_block(n.body, st, bctx)
        outs = []
        for o in body:
            if o[0] == "N":
                outs += self.exec_block(n.orelse, o[2], ctx)
            elif o[0] == "X":
                outs += self.handle(n.handlers, o[1], o[2], ctx)
            else:
                outs.append(o)
        outs = self.dedupe(outs)
        if n.finalbody:
            res = []
            for o in outs:
                fctx = ctx.but(cur_exc=o[1]) if o[0] == "X" else ctx
                for f in self.exec_block(n.finalbody, o[2], fctx):
                    if f[0] == "N":
                        res.append((o[0], o[1], f[2]))
                    else:
                        res.append(f)
            outs = self.dedupe(res)
        return outs

    s_TryStar = s_Try

    def handle(self, handlers, exc, st, ctx):
        outs = []
        live = [st]
        for h in handlers:
            nxt = []
            for s in live:
                if h.type is None:
                    ms = [(True, s)]
                else:
                    ms = []
                    for t, s2 in self.ev(h.type, s, ctx):
                        ms += self.match_exc(exc, t, s2)
                for b, s2 in ms:
                    if not b:
                        nxt.append(s2)
                        continue
                    e2 = exc
                    if h.name:
                        s2 = s2.setvar(ctx.fid, h.name, e2)
                    if self.keep_event(Ev("caught", e2, None, NONE, (), (), None)):
                        broad = h.type is None or any(
                            cname(c) in ("builtins.Exception", "builtins.BaseException")
                            for t, _ in self.ev_quiet(h.type, s2, ctx) for c in (t.a if t.k == "TUP" else (t,)))
                        s2 = self.emit(s2, Ev("caught", e2, None, C(broad), (), (), ctx.fn.loc(h)))
                    outs += self.exec_block(h.body, s2, ctx.but(cur_exc=e2))
            live = nxt
        outs += [("X", exc, s) for s in live]
        return outs

    def match_exc(self, exc, t, st):
        """[(matches, state)]"""
        cls = t.a if t.k == "TUP" else (t,)
        if exc.k == "XANY":
            fam = exc.a[0]
            for c in cls:
                nm = cname(c)
                if nm == "builtins.BaseException":
                    return [(True, st)]
                if nm == "builtins.Exception" and fam == "E":
                    return [(True, st)]
            return [(False, st)]
        if exc.k == "EXC":
            maybe = False
            for c in cls:
                r = issub(exc.a[0], c)
                if r:
                    return [(True, st)]
                if r is None:
                    maybe = True
            if maybe:
                return [(True, st), (False, st)]
            return [(False, st)]
        return [(True, st), (False, st)]

    # assignment -----------------------------------------------------------------
    def bind_name(self, name, v, st, ctx):
        d = ctx.fn.declared.get(name) if ctx.fid[0] not in ("cls", "mod") else None
        if d == "g":
            return st.setvar(("mod", ctx.mod), name, v)
        if d == "n":
            f = st.frame(ctx.fid).get("$parent")
            while f is not None:
                fr = st.frame(f)
                if name in fr:
                    return st.setvar(f, name, v)
                f = fr.get("$parent")
        return st.setvar(ctx.fid, name, v)

    def assign(self, t, v, st, ctx):
        if isinstance(t, ast.Name):
            return [self.bind_name(t.id, v, st, ctx)]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, ctx)
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t.elts, v, st, ctx)
        if isinstance(t, ast.Attribute):
            res = []
            for b, s in self.ev(t.value, st, ctx):
                res += self.setattr_(b, t.attr, v, s, ctx, t)
            return res
        if isinstance(t, ast.Subscript):
            res = []
            for (b, i), s in self.ev_list([t.value, t.slice], st, ctx):
                res += self.setitem(b, i, v, s, ctx, t)
            return res
        return [st]

    def unpack(self, elts, v, st, ctx):
        items, ok = self.seq_items(v, st)
        stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        live = [st]
        if ok:
            if stars:
                k = stars[0]
                tail = len(elts) - k - 1
                if len(items) >= len(elts) - 1:
                    mid = items[k:len(items) - tail]
                    seq = list(items[:k]) + [None] + list(items[len(items) - tail:] if tail else [])
                    for i, e in enumerate(elts):
                        if i == k:
                            nxt = []
                            for s in live:
                                o, s2 = s.alloc(("unpack", ctx.fn.fullname, e.lineno, e.col_offset), HO("list", None, (), tuple(mid)))
                                nxt += self.assign(e.value, o, s2, ctx)
                            live = nxt
                        else:
                            live = [y for s in live for y in self.assign(e, seq[i], s, ctx)]
                    return live
            elif len(items) == len(elts):
                for e, x in zip(elts, items):
                    live = [y for s in live for y in self.assign(e, x, s, ctx)]
                return live
            else:
                for s in live:
                    self.throw(mk("EXC", EXT("builtins.ValueError"), (C("unpack"),), NONE), s)
                return []
        for i, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                x = IX(v, mk("SLICE", C(i), NONE, NONE))
                e = e.value
            else:
                x = self.index_term(v, C(i), st)
            live = [y for s in live for y in self.assign(e, x, s, ctx)]
        return live

    def setattr_(self, b, name, v, st, ctx, n):
        if b.k == "OBJ" and st.obj(b) is not None:
            o = st.obj(b)
            if o.cls is not None and o.cls.k == "CLS":
                f, _ = self.class_lookup(o.cls.a[0], "__setattr__", st)
                if f is not None and f.k == "FN":
                    return [s for _, s in self.call_fn(f, [b, C(name), v], [], st, ctx, n)]
            st = self.emit(st, Ev("setattr", b, name, self.freeze(v, st), (), (), ctx.fn.loc(n)))
            return [self.raw_setattr(b, name, v, st)]
        if b.k == "CLS":
            st = self.emit(st, Ev("setattr", b, name, self.freeze(v, st), (), (), ctx.fn.loc(n)))
            return [st.setvar(b.a[0].ns, name, v)]
        if b.k == "MOD":
            st = self.emit(st, Ev("setattr", b, name, self.freeze(v, st), (), (), ctx.fn.loc(n)))
            return [st.setvar(("mod", b.a[0]), name, v)]
        st = self.emit(st, Ev("setattr", b, name, self.freeze(v, st), (), (), ctx.fn.loc(n)))
        st = st.setsym(b, name, v)
        return [st]

    def raw_setattr(self, b, name, v, st):
        o = st.obj(b)
        attrs = tuple(x for x in o.attrs if x[0] != name) + ((name, v),)
        return st.setobj(b, o._replace(attrs=attrs))

    def setitem(self, b, i, v, st, ctx, n):
        if b.k == "OBJ" and st.obj(b) is not None:
            o = st.obj(b)
            if o.cls is not None and o.cls.k == "CLS":
                f, _ = self.class_lookup(o.cls.a[0], "__setitem__", st)
                if f is not None and f.k == "FN":
                    return [s for _, s in self.call_fn(f, [b, i, v], [], st, ctx, n)]
            st = self.emit(st, Ev("setitem", b, self.freeze(i, st), self.freeze(v, st), (), (), ctx.fn.loc(n)))
            return [self.raw_setitem(b, i, v, st)]
        st = self.emit(st, Ev("setitem", b, self.freeze(i, st), self.freeze(v, st), (), (), ctx.fn.loc(n)))
        return self.opaque_may_raise(AT(b, "__setitem__"), (i, v), (), st, ctx, n)

    def raw_setitem(self, b, i, v, st):
        o = st.obj(b)
        if o.kind == "dict":
            items = list(o.data[0])
            for j, (k, _) in enumerate(items):
                if k is i:
                    items[j] = (i, v)
                    break
            else:
                items.append((i, v))
            stars = o.data[1]
            return st.setobj(b, o._replace(data=(tuple(items), stars)))
        if o.kind == "list":
            l = list(o.data)
            if is_c(i) and isinstance(cval(i), int) and not any(x.k in ("STAR", "REP") for x in l):
                j = cval(i)
                if -len(l) <= j < len(l):
                    l[j] = v
                    return st.setobj(b, o._replace(data=tuple(l)))
            if i.k == "SLICE":
                src = v.a if v.k in ("TUP", "LST") else st.obj(v).data if v.k == "OBJ" and st.obj(v) is not None and st.obj(v).kind in ("list", "tuple") else None
                if all(x is NONE for x in i.a):
                    return st.setobj(b, o._replace(data=tuple(src) if src is not None else (mk("STAR", v, frozenset()),)))
                return st.setobj(b, o._replace(data=(mk("STAR", TOP("list after slice assignment"), frozenset()),)))
            l.append(mk("AT_POS", i, v))
            return st.setobj(b, o._replace(data=tuple(l)))
        if o.kind == "chainmap":
            maps = st.obj(o.data)
            if maps is not None and maps.data and maps.data[0].k == "OBJ" and st.obj(maps.data[0]) is not None:
                return self.raw_setitem(maps.data[0], i, v, st)
        return st


def _star_excl(x, i):
    ex = x.a[1]
    if ex is None or not is_c(i):
        return x
    return mk("STAR", x.a[0], ex | {cval(i)})


def _as_load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t
