"""Guard analysis of the registration functions: every protected tag and every protected class is registered and
excluded abstractly, under every option, on the tables that hold after import; each path has to end in the
documented exception with the tables untouched."""
from ..registry import *
from ..core import fn_loc

USER = EXT("user.Object")
D, L, K = S("dump_fn", "types.FunctionType"), S("load_fn", "types.FunctionType"), S("container", "builtins.type")
MODULES = {}


def snapshot(i, st):
    c = find(i, "hickle.lookup", "LoaderManager")
    out = []
    for n in TABLES:
        v, _ = i.class_lookup(c.a[0], n, st)
        out.append(i.freeze(v, st))
    return out


def content(i, st):
    """{(table, option): {key: value}} so that order does not matter"""
    t = Tables(i, st)
    return {(n, o): dict(d) for n, x in (("types", t.types), ("load", t.load), ("cont", t.cont)) for o, d in x.items()}


def policy(i, classes=()):
    i.inline = lambda fi, st, ctx: fi.module == "hickle.lookup"
    i.keep_fact = None
    i.keep_event = lambda e: False
    plain = plain_class_model(*classes)

    def call(f, args, kws, st, ctx, n):
        if f.k == "EXT" and f.a[0] == "builtins.getattr" and len(args) > 1 and args[1] is C("__module__"):
            if args[0] in MODULES:
                return [(C(MODULES[args[0]]), st)]
            if args[0] is NONE:
                return [(args[2], st)] if len(args) > 2 else None
        if f.k == "EXT" and f.a[0] in ("builtins.isinstance", "builtins.issubclass") and len(args) == 2 and args[0] in KIND:
            cs = seq_items(args[1], st) or [args[1]]
            names = {cname(c) for c in cs if isinstance(c, Node)}
            kind = KIND[args[0]]
            if f.a[0] == "builtins.isinstance":
                mine = {"class": {"builtins.type", "builtins.object"}, "function": {"types.FunctionType", "types.LambdaType", "builtins.object"}, "builtin": {"types.BuiltinFunctionType", "types.BuiltinMethodType", "builtins.object"},
                        "method": {"types.MethodType", "builtins.object"}, "meta": {"builtins.type", "builtins.object"}}[kind]
                return [(C(bool(names & mine)), st)]
            if kind in ("function", "builtin", "method"):
                return None
            if kind == "meta":
                return [(C(bool(names & {"builtins.type", "builtins.object"})), st)]
        return plain(f, args, kws, st, ctx, n)

    def attr(b, name, st, ctx, n):
        if name == "__module__" and b in MODULES:
            return [(C(MODULES[b]), st)]
    i.model_call, i.model_attr = call, attr


META, FUN, BFUN, METH = S("meta_class"), S("function"), S("builtin_function"), S("bound_method")
KIND = {META: "meta", FUN: "function", BFUN: "builtin", METH: "method"}


def exc_is(x, name, i):
    """True / False / None"""
    if x is None or not isinstance(x, Node):
        return None
    c = x.a[0] if x.k == "EXC" else None
    if not isinstance(c, Node):
        return None
    n = cname(c) or ""
    return n.split(".")[-1] == name


def attempt(rep, rule, what, i, st, before, name, args, want, loc):
    outs = register(i, st, name, args)
    rep.paths += len(outs)
    res = True
    for k, v, s in outs:
        if k == "R":
            after = content(i, s)
            if after == before:
                rep.bad(rule, "%s: %s" % (loc[2], what), "the call is accepted silently instead of raising %s" % want, loc)
            else:
                ch = sorted("%s[%s]" % (n, o) for (n, o), d in after.items() if d != before.get((n, o)))
                rep.bad(rule, "%s: %s" % (loc[2], what), "the call is accepted and changes %s" % ", ".join(ch), loc)
            return False
        ok = exc_is(v, want, i)
        if ok is None:
            res = None
            continue
        if not ok:
            rep.bad(rule, "%s: %s" % (loc[2], what), "the call raises %s instead of %s" % (pp(v, 2), want), loc)
            return False
        if content(i, s) != before:
            rep.bad(rule, "%s: %s" % (loc[2], what), "the tables are changed before %s is raised" % want, loc)
            return False
    return res if outs else None


def check(rep, tier):
    rep.rule("C15.shadow", "register_class raises ValueError for a protected tag, under every option, before any table is changed")
    rep.rule("C15.exclude", "register_class_exclude raises ValueError for a protected tag, under every option, before any table is changed")
    rep.rule("C15.core", "register_class raises TypeError for object, functions, methods and metaclasses unless all functions come from hickle core")
    i = interp()
    T_ = tables(i)
    LM = find(i, "hickle.lookup", "LoaderManager")
    loc_r, loc_x = fn_loc(method(i, LM, "register_class")), fn_loc(method(i, LM, "register_class_exclude"))
    st = T_.st
    opts = [C(o) if o is not None else NONE for o in T_.types]
    glob = {k for d in (T_.load, T_.cont) for k in d[None] if isinstance(k, bytes)}
    tags = sorted({b"pickle", b"!node-reference!", b"!recover!"} | {t for t in glob if len(t) > 1 and t[:1] == t[-1:] == b"!"})
    policy(i, [USER])
    before = content(i, st)
    forms = lambda t: [C(t), C(t.decode("ascii"))]
    for tag in tags:
        with rep.guard("C15.shadow", repr(tag)):
            r = True
            for tt in forms(tag):
                for o in opts:
                    for fs in ((D, L, K), (NONE, L, NONE), (D, NONE, NONE), (NONE, NONE, K)):
                        x = attempt(rep, "C15.shadow", repr(tag), i, st, before, "register_class", [USER, tt, *fs, TRUE, o], "ValueError", loc_r)
                        r = x if r is True else r
            if r:
                rep.ok("C15.shadow", "%r under %d options" % (tag, len(opts)))
            elif r is None:
                rep.unknown("C15.shadow", repr(tag), "outcome not understood")
    for tag in sorted(set(tags) | {b"dict_item", b"!any!"}):
        with rep.guard("C15.exclude", repr(tag)):
            r = True
            for tt in forms(tag):
                for o in opts:
                    x = attempt(rep, "C15.exclude", repr(tag), i, st, before, "register_class_exclude", [tt, o], "ValueError", loc_x)
                    r = x if r is True else r
            if r:
                rep.ok("C15.exclude", "%r under %d options" % (tag, len(opts)))
            elif r is None:
                rep.unknown("C15.exclude", repr(tag), "outcome not understood")
    # the shipped exclusions and registrations themselves
    # classes reserved for the core
    for c, what in ((EXT("builtins.object"), "object"), (EXT("builtins.type"), "type"), (META, "metaclass"), (FUN, "function"), (BFUN, "builtin function"), (METH, "method")):
        for mod, mw in (("user.module", "user module"), ("hickle.loaders.load_user", "loader module"), ("hickle_loaders", "other package")):
            MODULES.clear()
            MODULES.update({D: mod, L: mod, K: mod})
            with rep.guard("C15.core", "%s from %s" % (what, mw)):
                r = True
                for fs in ((D, L, K), (NONE, L, NONE), (D, NONE, NONE), (NONE, NONE, K)):
                    for o in opts:
                        x = attempt(rep, "C15.core", "%s from a %s" % (what, mw), i, st, before, "register_class", [c, C(b"user_tag"), *fs, TRUE, o], "TypeError", loc_r)
                        r = x if r is True else r
                for only in (D, L, K):      # the others are from hickle core
                    MODULES.update({f: mod if f is only else "hickle.lookup" for f in (D, L, K)})
                    for o in opts:
                        x = attempt(rep, "C15.core", "%s partly from a %s" % (what, mw), i, st, before, "register_class", [c, C(b"user_tag"), D, L, K, TRUE, o], "TypeError", loc_r)
                        r = x if r is True else r
                if r:
                    rep.ok("C15.core", "%s from %s" % (what, mw))
                elif r is None:
                    rep.unknown("C15.core", "%s from %s" % (what, mw), "outcome not understood")
    MODULES.clear()
    rep.use(i)
