"""Dataflow analysis of the dataset options: every writer is interpreted abstractly with a
distinct symbol for each HDF5 filter option; at every create_dataset the options that arrive
are compared with the dimensionality of the data, and the options handed on with each item
(and through dump and its recursion) must be the very ones received."""
from ..handlers import *
from ..core import *

FILTERS = ("compression", "compression_opts", "chunks", "shuffle", "fletcher32", "scaleoffset")
OPTS = {k: S("opt_" + k) for k in FILTERS + ("track_times",)}
KWS = [(k, v) for k, v in OPTS.items()]
SCALAR = {"builtins.int", "builtins.float", "builtins.complex", "builtins.bool", "builtins.NoneType", "numpy.generic", "numpy.number"}
MUST = {"builtins.list", "builtins.tuple", "builtins.set", "builtins.str", "builtins.bytes", "user.Object",
        "astropy.coordinates.SkyCoord", "astropy.table.Table", "numpy.ndarray", "numpy.matrix"}
SAME_DIM = ("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.copy", "numpy.ascontiguousarray")


def same_dims(x):
    """all terms with the dimensionality of x"""
    out = [x]
    while True:
        if x.k == "CL" and x.a[0].k == "EXT" and x.a[0].a[0] in SAME_DIM and x.a[1]:
            x = x.a[1][0]
        elif x.k == "CL" and x.a[0].k == "AT" and x.a[0].a[1] in ("astype", "copy", "view", "newbyteorder"):
            x = x.a[0].a[0]
        elif x.k == "AT" and x.a[1] in ("value", "T"):
            x = x.a[0]
        else:
            return out
        out.append(x)


def ndim_known(st, x):
    """0: known to be 0-dimensional, 1: known to have dimensions, None"""
    terms = set(same_dims(x))

    def about(t):
        if t.k == "AT" and t.a[1] in ("ndim", "shape", "isscalar") and any(same_dims(t.a[0])[-1] is y or t.a[0] is y for y in terms | {same_dims(x)[-1]}):
            return t.a[1]
        if t.k == "CL" and t.a[0].k == "EXT" and t.a[0].a[0] in ("numpy.ndim", "numpy.shape", "numpy.isscalar") and t.a[1] and t.a[1][0] in terms:
            return t.a[0].a[0][6:]
        if t.k == "CL" and t.a[0] is EXT("builtins.len") and t.a[1]:
            r = about(t.a[1][0])
            return "ndim" if r == "shape" else None
        return None
    for t, v in st.facts.items():
        w = about(t)
        if w == "isscalar":
            return 0 if v else 1
        if w in ("ndim", "shape"):
            return 1 if v else 0
        if t.k == "NONEMPTY" and about(t.a[0]) == "shape":
            return 1 if v else 0
        if t.k == "CMP":
            op, a, b = t.a
            w = about(a)
            if w == "ndim" and is_c(b):
                n = cval(b)
                if op == "==" and n == 0 or op == "<" and n == 1:
                    return 0 if v else 1
                if op == "==" and n > 0 and v:
                    return 1
            if w == "shape" and op == "==" and b.k == "TUP" and not b.a:
                return 0 if v else 1
            w = about(b)
            if w == "ndim" and op == "<" and is_c(a) and cval(a) == 0:
                return 1 if v else 0
    return None


def dims(e, cls, st):
    """'none' dimensionless / without content, 'some', 'maybe'"""
    kw = kwmap(e)
    shape = kw.get("shape")
    if shape is None and len(e.args) > 1:
        shape = e.args[1]
    data = kw.get("data")
    if data is None and len(e.args) > 3:
        data = e.args[3]
    if shape is not None:
        if shape is NONE:
            return "none"
        if shape.k == "TUP":
            return "some" if shape.a else "none"
    if data is None:
        return "none" if shape is None else "maybe"
    if data.k == "S" and data.a[0] == PY:
        if cls in SCALAR:
            return "none"
        if cls == "numpy.matrix":
            return "some" if ndim_known(st, data) != 0 else "impossible"
    if data.k == "CL" and data.a[0].k == "EXT" and data.a[0].a[0] in ("builtins.bytearray", "builtins.memoryview", "numpy.frombuffer", "numpy.stack",
                                                                     "numpy.column_stack", "numpy.atleast_1d", "numpy.concatenate"):
        return "some"
    if data.k == "CL" and data.a[0].k == "AT" and data.a[0].a[1] in ("as_array",):
        return "some"
    k = ndim_known(st, data)
    return {0: "none", 1: "some", None: "maybe"}[k]


def bytes_array(st):
    for t, v in st.facts.items():
        if v and any(is_c(x) and cval(x) in ("bytes", "S", "|S", b"S") for x in subterms(t)) and any(x.k == "AT" and x.a[1] in ("dtype", "kind") for x in subterms(t)):
            return True
    return False


def opts_in(d):
    return {k for k in OPTS if d.get(k) is OPTS[k]}


def check_writer(rep, i, create, cls, label):
    py = S(PY, cls)
    outs = run(i, create, [py, GRP, NAME], KWS)
    rep.paths += len(outs)
    fname = create.a[0].fullname if create.k == "FN" else pp(create)
    n = 0
    for k, v, s in outs:
        if k == "X":
            continue
        items = seq_items(v, s)
        subs = []
        if items and len(items) == 2:
            for kk, els, s2, x in run_gen_collect(i, items[1], s):
                subs.append((els, s2))
        for els, s2 in subs or [((), s)]:
            for e in created(s2):
                if e.key not in ("create_dataset", "require_dataset"):
                    continue
                n += 1
                got = opts_in(kwmap(e))
                d = dims(e, cls, s2)
                where = "%s: dataset for %s" % (e.loc[2], label)
                if d in ("none", "maybe"):
                    extra = [f for f in FILTERS if f in kwmap(e)]
                    if extra:
                        rep.bad("C08.scalar", where + " without dimensions" if d == "none" else where + " that may have no dimensions",
                                "filter options %s are passed to create_dataset although the data has no dimensions or content%s" % (
                                    ", ".join(extra), "" if d == "none" else " for scalar values"), e.loc)
                elif d == "some" and cls in MUST and not (cls in ("numpy.ndarray", "numpy.matrix") and bytes_array(s2)):
                    missing = [f for f in OPTS if f not in got]
                    if missing:
                        rep.bad("C08.payload", where, "options %s given to dump do not reach create_dataset" % ", ".join(missing), e.loc)
            for el in els:
                fl = sub_fields(el, s2)
                if fl is None:
                    continue
                n += 1
                dd = dict_of(fl[3], s2)
                if dd is None:
                    rep.unknown("C08.items", "%s: items of %s" % (fname, label), "options are not a plain dict")
                elif opts_in(dd) != set(OPTS):
                    rep.bad("C08.items", "%s: items of %s" % (fname, label), "items are handed on with options %s instead of the ones given" % sorted(map(str, dd)),
                            (create.a[0].relpath, create.a[0].lineno, create.a[0].qual) if create.k == "FN" else None)
    return n


def check_core(rep):
    i = interp()
    fo, outs = run_core(i, "dump", mode=C("w"), kws=KWS)
    rep.use(i)
    rep.paths += len(outs)
    seen = {"writer": 0, "item": 0}
    for k, v, s in outs:
        for e in s.events():
            if e.op not in ("call", "callx"):
                continue
            kw = kwmap(e)
            pickled = e.target is not None and e.target.k == "FN" and "pickled" in e.target.a[0].name
            writer_call = pickled or (e.key is None and e.target.k == "IX" and any(
                x.k == "AT" and x.a[1] == "load_loader" for x in subterms(e.target)))
            if is_recursion(e):
                b = bound(e)
                st_ = [v for k2, v in e.kws if not k2]
                ok = len(st_) == 1 and (st_[0].k == "IX" or (st_[0].k == "STAR" and not st_[0].a[1])) and (st_[0].a[0] if st_[0].k == "STAR" else st_[0]).k == "IX"
                direct = set(OPTS) <= set(k for k in kw if kw[k] is OPTS.get(k))
                seen["item"] += 1
                if not ok and not direct:
                    rep.bad("C08.core", "%s: recursion for items" % e.loc[2], "the options returned with an item are not handed on (%s)" % [pp(x, 3) for x in st_], e.loc)
            elif writer_call:
                seen["writer"] += 1
                got = opts_in(kw)
                if got != set(OPTS):
                    rep.bad("C08.core", "%s: call of %s" % (e.loc[2], "create_pickled_dataset" if pickled else "the writer"),
                            "options %s given to dump do not reach the writer" % sorted(set(OPTS) - got), e.loc)
    for k, n in seen.items():
        if n:
            rep.ok("C08.core", "options on the way from dump to %s" % k)
        else:
            rep.unknown("C08.core", "options on the way from dump to %s" % k, "no such call found")


def check(rep, tier):
    rep.rule("C08.payload", "every option reaches create_dataset for data with dimensions")
    rep.rule("C08.scalar", "no filter option reaches create_dataset for data without dimensions or content")
    rep.rule("C08.items", "items of containers are handed on with exactly the options received")
    rep.rule("C08.core", "dump and its recursion hand the options to every writer")
    i = interp()
    todo = [(r.create, cname(r.cls), "%s" % cname(r.cls)) for r in rows(i) if r.create.k == "FN" and cname(r.cls)]
    todo.append((find(i, "hickle.lookup", "create_pickled_dataset"), "user.Object", "pickled objects"))
    for create, cls, label in todo:
        with rep.guard("C08.payload", label):
            i = interp()
            setup(i)
            i.keep_fact = None
            nb = len(rep.violations)
            n = check_writer(rep, i, create, cls, label)
            rep.use(i)
            if len(rep.violations) == nb:
                for rule in ("C08.payload", "C08.scalar", "C08.items"):
                    rep.ok(rule, "%s (%d datasets and items)" % (label, n))
    with rep.guard("C08.core", "dump"):
        check_core(rep)
