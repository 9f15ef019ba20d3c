"""Composition of writing and reading the option records: the loader manager is created abstractly for dump with
every combination of known, disabled and unknown options, and then for load from exactly the attributes that were
written; the loader sets both ended up with, and the tables of the class, are compared."""
from ..registry import *
from ..core import *
from ..places import Places, ROOT
from . import c02
from itertools import product

GROUP = S("h_root_group", "h5py.Group")
ATTRS = AT(GROUP, "attrs")
FIELDS3 = ("types_dict", "hkl_types_dict", "hkl_container_dict")
VERSION = [(C("HICKLE_VERSION"), S("version", "builtins.str")), (C("HICKLE_PYTHON_VERSION"), S("pyversion", "builtins.str"))]


def policy(i, recorded=None):
    i.inline = lambda fi, st, ctx: fi.module in ("hickle.lookup", "hickle.helpers")
    i.keep_fact = None
    i.mark_inject = lambda e: True
    c02.models(i)
    call0, attr0 = i.model_call, i.model_attr
    items = None if recorded is None else [T(k, v) for k, v in recorded]

    def lookup(key, default, st):
        for k, v in recorded:
            if k is key:
                return [(v, st)]
        return [(default, st)] if default is not None and is_c(key) else None

    def call(f, args, kws, st, ctx, n):
        if items is not None and f.k == "AT" and f.a[0] is ATTRS:
            if f.a[1] == "items":
                return [(T(*items), st)]
            if f.a[1] == "keys":
                return [(T(*[k for k, v in recorded]), st)]
            if f.a[1] == "values":
                return [(T(*[v for k, v in recorded]), st)]
            if f.a[1] == "get" and args:
                return lookup(args[0], args[1] if len(args) > 1 else NONE, st)
        if items is not None and f.k == "EXT" and f.a[0] in ("builtins.list", "builtins.tuple", "builtins.iter", "builtins.sorted", "builtins.set") and args and args[0] is ATTRS:
            return [(T(*[k for k, v in recorded]), st)]
        if items is not None and f is EXT("builtins.dict") and args and args[0] is ATTRS:
            return [st.alloc(("attrs-copy", ctx.fn.loc(n)), HO("dict", None, (), (tuple(recorded), ())))]
        return call0(f, args, kws, st, ctx, n)

    def item(b, idx, st, ctx, n):
        if items is not None and b is ATTRS:
            return lookup(idx, None, st)
        return item0(b, idx, st, ctx, n) if item0 else None

    def it(b, st):
        return None
    item0 = i.model_item
    fork0 = i.fork_hook

    def fork(t, st):
        x, neg = t, False
        while x.k == "NOT":
            x, neg = x.a[0], not neg
        if items is not None and x.k == "CMP" and x.a[0] in ("in", "not in") and x.a[2] is ATTRS and is_c(x.a[1]):
            return ((any(k is x.a[1] for k, v in recorded)) == (x.a[0] == "in")) != neg
        return fork0(t, st)
    i.model_call, i.model_item, i.fork_hook = call, item, fork


def create(i, st, args, kws=()):
    LM = find(i, "hickle.lookup", "LoaderManager")
    f = i.attr(LM, "create_manager", st, top_ctx(i), NOWHERE)[0][0]
    return [o for o in run(i, f, args, list(kws), st) if not any(e.op == "inject" for e in o[2].events())]


def maps_of(i, mgr, st):
    """for each of the three dictionaries the list of map objects, or None"""
    out = []
    for f in FIELDS3:
        vs = i.attr(mgr, f, st, top_ctx(i), NOWHERE)
        if len(vs) != 1:
            return None
        v = vs[0][0]
        o = st.obj(v) if v.k == "OBJ" else None
        if o is not None and o.kind == "chainmap":
            l = st.obj(o.data)
            out.append(list(l.data) if l is not None else None)
        elif o is not None and o.kind == "dict":
            out.append([v])
        else:
            out.append(None)
    return out


def class_tables(i, st):
    """three times {option: table object}"""
    c = find(i, "hickle.lookup", "LoaderManager")
    out = []
    for n in TABLES:
        v, _ = i.class_lookup(c.a[0], n, st)
        o = st.obj(v)
        out.append({cval(k): x for k, x in o.data[0]})
    return out


def contents(i, st):
    return [{k: i.freeze(v, st) for k, v in d.items()} for d in class_tables(i, st)]


def enabled(i, mgr, st):
    """set of options enabled in all three dictionaries, or a text telling what is wrong, or None"""
    m = maps_of(i, mgr, st)
    if m is None or any(x is None for x in m):
        return None
    ct = class_tables(i, st)
    sets = []
    for name, maps, d in zip(FIELDS3, m, ct):
        rev = {v: k for k, v in d.items()}
        known = [rev.get(x, x) for x in maps]
        if any(isinstance(x, Node) for x in known):
            return None
        if None not in known:
            return "%s lacks the common loaders" % name
        if known[-1] is not None:
            return "%s: the common loaders take precedence over those of the option" % name
        sets.append(frozenset(known) - {None})
    if len(set(sets)) != 1:
        return "; ".join("%s: %s" % (n, sorted(s)) for n, s in zip(FIELDS3, sets))
    return sets[0]


def opt_dict(i, st, d):
    return st.alloc(("in", "options"), HO("dict", None, (), (tuple(d.items()), ())))


def recorded(i, s):
    w = attrs_written(s, GROUP)
    if "*" in w:
        return None
    return [((C(k) if isinstance(k, (str, bytes)) else k), v) for k, (v, e) in w.items()]


def check_manager(rep):
    i = interp()
    st0 = tables(i).st
    LM = find(i, "hickle.lookup", "LoaderManager")
    loc = fn_loc(method(i, LM, "__init__"))
    known = [o for o in class_tables(i, st0)[0] if o is not None and o != "hickle-4.x"]
    ON, OFF = (TRUE, C(1)), (FALSE, C(0), NONE)
    cases = []
    for o in known:
        cases += [({C(o): v}, {o}) for v in ON] + [({C(o): v}, set()) for v in OFF]
        cases.append(({C(o): TRUE, C("unheard-of"): FALSE}, {o}))
    if len(known) > 1:
        cases.append(({C(o): TRUE for o in known}, set(known)))
        cases += [({C(o): C(o == k) for o in known}, {k}) for k in known]
    cases.append(({}, set()))

    def name(d):
        return "options={%s}" % ", ".join("%s: %s" % (pp(k), pp(v)) for k, v in d.items())
    for d, want in cases:
        with rep.guard("C16.record", name(d)):
            i = interp()
            policy(i)
            before = contents(i, st0)
            od, st = opt_dict(i, st0, d)
            outs = create(i, st, [GROUP, FALSE, od])
            rep.use(i)
            rep.paths += len(outs)
            good = True

            def bad(rule, c, m, s):
                nonlocal good
                good = False
                rep.bad(rule, c, "%s: %s" % (name(d), m), loc, trace(s))
            for k, v, s in outs:
                if k != "R":
                    bad("C16.record", "dump with options: raises", "creating the loader manager raises %s" % pp(v, 3), s)
                    continue
                en = enabled(i, v, s)
                rec = recorded(i, s)
                if en is None or rec is None:
                    rep.unknown("C16.record", name(d), "loader sets or attributes written not understood")
                    good = None
                    continue
                if isinstance(en, str):
                    bad("C16.record", "dump with options: loader sets", en, s)
                    continue
                if en != want:
                    bad("C16.record", "dump with options: enabled sets", "the loader sets %s are enabled instead of %s" % (sorted(en), sorted(want)), s)
                    continue
                if not want and rec:
                    bad("C16.record", "dump with options: records a disabled option", "attribute %s is written" % pp(rec[0][0]), s)
                    continue
                if contents(i, s) != before or i.freeze(od, s) is not i.freeze(od, st):
                    bad("C16.local", "dump with options: tables", "enabling the options changes the tables of all files or the options of the caller", s)
                    continue
                # load from what was written, with the attributes in any order; an option switched off is not enabled
                for order, exp in [(VERSION + rec, want), (rec + VERSION, want)] + [(VERSION + [(a, FALSE) for a, _ in rec], set())] if rec else [(VERSION, want)]:
                    i2 = interp()
                    policy(i2, order)
                    s2 = drop(i2, v, s)
                    for k2, v2, s3 in create(i2, s2, [GROUP, FALSE]):
                        rep.paths += 1
                        if k2 != "R":
                            bad("C16.reload", "load: raises", "loading the file raises %s" % pp(v2, 3), s3)
                            continue
                        en2 = enabled(i2, v2, s3)
                        if en2 is None:
                            rep.unknown("C16.reload", name(d), "loader sets not understood")
                            good = None
                        elif isinstance(en2, str):
                            bad("C16.reload", "load: loader sets", en2, s3)
                        elif en2 != exp:
                            bad("C16.reload", "load: enabled sets", "load enables %s instead of %s (attributes written: %s)" % (sorted(en2), sorted(exp), ", ".join(pp(a) for a, _ in rec)), s3)
                        elif contents(i2, s3) != before:
                            bad("C16.local", "load: tables", "enabling the options changes the tables of all files", s3)
                    # a further file without options is not affected
                    i3 = interp()
                    policy(i3, VERSION)
                    for oargs in ([GROUP, FALSE], [GROUP, FALSE, opt_dict(i3, s2, {})[0]]):
                        s4 = opt_dict(i3, s2, {})[1]
                        for k3, v3, s5 in create(i3, s4, oargs):
                            if k3 != "R":
                                continue
                            en3 = enabled(i3, v3, s5)
                            if isinstance(en3, str) or en3 not in (None, frozenset()):
                                bad("C16.local", "options of another file", "a manager created afterwards without options uses %s" % (en3 if isinstance(en3, str) else sorted(en3)), s5)
            if good:
                rep.ok("C16.record", name(d))
                rep.ok("C16.reload", name(d))
                rep.ok("C16.local", name(d))
    # unknown options
    for d in [{C("unheard-of"): TRUE}] + [{C(o): TRUE, C("unheard-of"): TRUE} for o in known] + [{C("unheard-of"): TRUE, C(o): TRUE} for o in known]:
        with rep.guard("C16.unknown", name(d)):
            i = interp()
            policy(i)
            od, st = opt_dict(i, st0, d)
            outs = create(i, st, [GROUP, FALSE, od])
            rep.paths += len(outs)
            good = bool(outs)
            for k, v, s in outs:
                if k == "R":
                    good = False
                    rep.bad("C16.unknown", "dump with options: unknown option", "%s: the unknown option is accepted" % name(d), loc, trace(s))
                elif contents(i, s) != contents(i, st0):
                    good = False
                    rep.bad("C16.unknown", "dump with options: unknown option", "%s: the tables are changed" % name(d), loc, trace(s))
            if good:
                rep.ok("C16.unknown", name(d))


def drop(i, mgr, s):
    """the manager left again"""
    f = i.attr(mgr, "__exit__", s, top_ctx(i), NOWHERE)[0][0]
    outs = [o for o in run(i, f, [NONE, NONE, NONE], [], s) if o[0] == "R"]
    live = [o for o in outs if not any(c02.content(o[2], t) for t in {e.target for e in o[2].events() if e.target is not None and e.target.k == "MTAB"})]
    if not live:
        raise Broken("the manager is not dropped")
    return live[0][2]


def check_entry(rep):
    """dump hands its options to the manager of the group it writes to, load none"""
    for which in ("dump", "load"):
        i = interp()
        i.inline = core_inline
        i.keep_fact = None
        fo, args, kws = entry_args(which, "h5py.File", path=C("a"))
        places = Places({fo: (ROOT,), AT(fo, "file"): (ROOT,)})
        given = {C("custom"): TRUE, C("other"): C(1), C("off"): FALSE}
        od, st = opt_dict(i, state(i), given)
        kws = [(k, od if k == "options" else v) for k, v in kws]
        outs = run(i, find(i, "hickle.hickle", which), args, kws, st)
        rep.use(i)
        rep.paths += len(outs)
        good, n = True, 0
        for k, v, s in outs:
            if k != "R":
                continue
            for e in s.events():
                if e.op != "call" or not isinstance(e.val, Node) or e.key not in (None, "create_manager") or manager(e.val) != "loader" or e.val.k != "CL" or e.val.a[0].k == "AT" and e.val.a[0].a[1] != "create_manager":
                    continue
                args = list(e.args)
                if args and args[0].k in ("CLS", "EXT"):
                    args = args[1:]
                kw = kwmap(e)
                opt = kw.get("options", args[2] if len(args) > 2 else NONE)
                grp = kw.get("h_node", args[0] if args else None)
                n += 1
                if which == "dump":
                    opt = i.freeze(opt, s) if opt is not od else i.freeze(od, st)
                    if opt.k != "DCT" or opt.a[1]:
                        if opt.k in ("C", "DCT", "S") and not (opt.k == "DCT" and opt.a[1]):
                            good = False
                            rep.bad("C16.entry", "dump: options", "dump hands %s to the loader manager instead of the options it was given" % pp(opt, 3), e.loc, trace(s))
                        else:
                            rep.unknown("C16.entry", which, "options not understood")
                            good = False
                    elif {k: v for k, v in opt.a[0] if v is not FALSE} != {k: v for k, v in given.items() if v is not FALSE}:
                        good = False
                        rep.bad("C16.entry", "dump: options", "dump given %s hands %s to the loader manager" % (pp(i.freeze(od, st), 3), pp(opt, 3)), e.loc, trace(s))
                    w = attrs_written(s, grp) if grp is not None else {}
                    if grp is not None and "HICKLE_VERSION" not in w and any("HICKLE_VERSION" in attrs_written(s, x.target.a[0]) for x in s.events() if x.op == "setitem" and x.target is not None and x.target.k == "AT"):
                        good = False
                        rep.bad("C16.entry", "dump: group", "the options are recorded on %s, which is not the target group" % pp(grp, 3), e.loc, trace(s))
                elif grp is not None and places.at(grp) not in (None, (ROOT, "a")):
                    good = False
                    rep.bad("C16.entry", "load: group", "the options are read from %s instead of the group the object is loaded from" % pp(grp, 3), e.loc, trace(s))
                elif opt is not NONE:
                    good = False
                    rep.bad("C16.entry", "load: options", "load hands %s to the loader manager instead of the options recorded in the file" % pp(opt, 3), e.loc, trace(s))
        if good and n:
            rep.ok("C16.entry", "%s: %d calls" % (which, n))
        elif good:
            rep.unknown("C16.entry", which, "creation of the loader manager not found")


def check(rep, tier):
    rep.rule("C16.record", "dump enables exactly the loader sets switched on in its options, above the common loaders, and records exactly those on the group")
    rep.rule("C16.reload", "load enables exactly the loader sets dump recorded")
    rep.rule("C16.local", "enabling options changes neither the tables of the class, nor later managers, nor the options of the caller")
    rep.rule("C16.unknown", "an unknown option is an error")
    rep.rule("C16.entry", "dump hands its options to the manager of the target group; load relies on the recorded ones")
    with rep.guard("C16.record", "loader manager"):
        check_manager(rep)
    with rep.guard("C16.entry", "dump and load"):
        check_entry(rep)
