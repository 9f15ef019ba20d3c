"""Producer/consumer analysis: the loader tables are obtained by interpreting every shipped registration;
for every entry all abstract paths of its writer are enumerated, each yields the kind of node it emits
(group, dataset, dataset without content) and the attributes it carries, and the reader the tables hold
for the recorded tag is checked against them."""
from ..registry import *
from ..core import lookup_paths, find, method, fn_loc, LSELF
from ..explore import no_opaque

NODE = S("h_node", "h5py.Dataset")
A = S("h_attrs", "h5py.AttributeManager")


def node_kind(p):
    """('group'|'dataset'|'empty', creating event) of the node a writer path returns"""
    for e in reversed(created(p.st)):
        if e.val is p.node:
            if "group" in e.key:
                return "group", e
            kw = kwmap(e)
            sh = kw.get("shape", e.args[1] if len(e.args) > 1 else None)
            if sh is NONE and kw.get("data", e.args[3] if len(e.args) > 3 else NONE) is NONE:
                return "empty", e
            if sh is NONE and "shape" in kw:
                return "empty", e
            return "dataset", e
    return None, None


def writer_kinds(rep, create, clsname):
    """{kind: [attribute names written on every path of that kind], ...}"""
    i = interp()
    setup(i)
    paths, excs = writer(i, create, clsname)
    rep.use(i)
    rep.paths += len(paths)
    out = {}
    for p in paths:
        k, e = node_kind(p)
        if k is None:
            out.setdefault("?", (set(), p, e))
            continue
        at = attrs_written(p.st, p.node)
        names = {n for n in at if isinstance(n, (str, bytes))}
        if k in out:
            out[k] = (out[k][0] & names, out[k][1], out[k][2])
        else:
            out[k] = (names, p, e)
    return out


def reads(terms, base):
    """content reads / required attributes of node `base` mentioned by some terms"""
    content, attrs = [], set()
    for t in terms:
        for x in subterms(t):
            if x.k == "IX" and x.a[0] is base:
                content.append(x)
            elif x.k == "IX" and x.a[0] is AT(base, "attrs") and is_c(x.a[1]):
                attrs.add(cval(x.a[1]))
            elif x.k == "CL" and x.a[0].k == "AT" and x.a[0].a[0] is base and x.a[0].a[1] in ("read_direct", "astype", "asstr", "__getitem__", "iter_chunks", "__array__"):
                content.append(x)
    return content, attrs


def path_terms(o):
    out = [t for t in o[2].facts]
    if isinstance(o[1], Node):
        out.append(o[1])
    for e in o[2].events():
        out += [x for x in (e.target, e.val, e.key) if isinstance(x, Node)]
        out += [x for x in e.args if isinstance(x, Node)]
        out += [x for _, x in e.kws if isinstance(x, Node)]
    return out


def run_reader(rep, load, tag, typ, empty):
    i = interp()
    i.inline = lambda fi, st, ctx: fi.module.startswith("hickle.")
    i.keep_fact = None
    i.raises = lambda *a: ()

    def attr(b, name, st, ctx, n):
        if b is NODE and name == "shape":
            return [(NONE if empty else S("shape", "builtins.tuple"), st)]
        if b is NODE and name == "size" and empty:
            return [(NONE, st)]
    i.model_attr = attr
    outs = run(i, load, [NODE, tag, typ])
    rep.use(i)
    rep.paths += len(outs)
    return outs


def optional_attr(o, name):
    """the path tests whether the attribute is present"""
    for t in o[2].facts:
        for x in subterms(t):
            if x.k == "CMP" and x.a[0] in ("in", "not in") and is_c(x.a[1]) and cval(x.a[1]) == name:
                return True
            if x.k == "CL" and x.a[0].k == "AT" and x.a[0].a[1] in ("get", "__contains__") and x.a[1] and is_c(x.a[1][0]) and cval(x.a[1][0]) == name:
                return True
            if x.k == "IN" and any(is_c(y) and cval(y) == name for y in x.a if isinstance(y, Node)):
                return True
    return False


def check_rows(rep, T):
    for opt, types in T.types.items():
        for cls, entry in types.items():
            it = seq_items(entry, T.st)
            if it is None or len(it) < 2 or not isinstance(cls, Node):
                rep.unknown("C04.reader", pp(cls, 2) if isinstance(cls, Node) else str(cls), "entry not resolved")
                continue
            create, tag = it[0], it[1]
            if create.k != "FN" or not is_c(tag):
                continue
            nm = cname(cls) or pp(cls, 2)
            if create.a[0].name in ("not_dumpable", "create_pickled_dataset"):
                continue
            tg = cval(tag)
            subj = "%s (tag %r)" % (nm, tg)
            with rep.guard("C04.reader", subj):
                check_row(rep, T, opt, cls, nm, create, tag, tg, subj)


def pick(tab, opt, tg):
    for o in (opt, None):
        v = tab.get(o, {}).get(tg)
        if v is not None and v is not NONE:
            return v
    return None


def check_row(rep, T, opt, cls, nm, create, tag, tg, subj):
    loc = fn_loc(create)
    try:
        ok = tg.decode("ascii")
        if not ok or "/" in ok or ok.isdigit() or ok == "." or "\0" in ok:
            rep.bad("C04.tag", "tag %r" % tg, "the tag cannot serve as the name of an entry of the types table (a slash, empty or a plain number collides with the names of other entries)", loc)
    except (UnicodeDecodeError, AttributeError):
        rep.bad("C04.tag", "tag %r" % tg, "the tag is not an ASCII bytes string", loc)
    kinds = writer_kinds(rep, create, nm)
    if not kinds:
        rep.unknown("C04.reader", subj, "no path of the writer returns")
        return
    load, cont = pick(T.load, opt, tg), pick(T.cont, opt, tg)
    good = True
    for k, (names, p, e) in kinds.items():
        if k == "?" and not created(p.st):
            continue  # stores nothing (dummy classes)
        if k == "?":
            rep.unknown("C04.reader", subj, "node returned by %s not resolved" % create.a[0].name)
            continue
        if k == "group":
            if cont is None or cont.k != "CLS" or cont.a[0].name == "NoContainer":
                good = False
                rep.bad("C04.reader", "%s: no container for groups" % subj, "%s stores %s as a group but no PyContainer is registered for tag %r" % (create.a[0].name, nm, tg), e.loc, trace(p.st))
                continue
            need = container_attrs(rep, cont, tag, cls)
        else:
            if load is None or load.k != "FN" or load.a[0].name == "load_nothing":
                good = False
                rep.bad("C04.reader", "%s: no reader for datasets" % subj, "%s stores %s as a dataset but no load function is registered for tag %r" % (create.a[0].name, nm, tg), e.loc, trace(p.st))
                continue
            need = None
            outs = run_reader(rep, load, tag, cls, k == "empty")
            for o in outs:
                content, attrs = reads(path_terms(o), NODE)
                attrs = {a for a in attrs if not optional_attr(o, a)}
                need = attrs if need is None else need & attrs
                if k == "empty" and content:
                    good = False
                    rep.bad("C04.empty", "%s reads an empty dataset" % load.a[0].qual, "%s emits a dataset without content for %s, and %s reads %s from it" % (
                        create.a[0].name, nm, load.a[0].name, pp(content[0], 3)), fn_loc(load), trace(o[2]))
                    break
        miss = sorted(str(x) for x in (need or set()) - names)
        if miss:
            good = False
            rd = cont if k == "group" else load
            rep.bad("C04.attrs", "%s: attribute %s of %s nodes" % (subj, ", ".join(miss), k), "%s requires it, but a path of %s does not write it" % (rd.a[0].qual, create.a[0].name), e.loc, trace(p.st))
    if good:
        rep.ok("C04.reader", "%s: %s" % (subj, ", ".join(sorted(kinds))))


def container_attrs(rep, cls, tag, typ):
    """attributes of the group every path of the container requires"""
    i = interp()
    i.inline = lambda fi, st, ctx: fi.module.startswith("hickle.")
    i.keep_fact = None
    i.raises = lambda *a: ()
    need = set()
    for k, obj, s in run(i, cls, [A, tag, typ]):
        if k != "R":
            continue
        f = i.attr(obj, "convert", s, top_ctx(i), NOWHERE)[0][0]
        per = None
        for o in run(i, f, [], [], s):
            at = {cval(x.a[1]) for t in path_terms(o) for x in subterms(t) if x.k == "IX" and x.a[0] is A and is_c(x.a[1])}
            at = {a for a in at if not optional_attr(o, a)}
            per = at if per is None else per & at
        need |= per or set()
    rep.use(i)
    return need


def check_conflicts(rep, T):
    i = interp()
    rs = rows(i)
    by = {}
    good = True
    for r in rs:
        if not is_c(r.tag):
            continue
        opt = cval(r.option) if is_c(r.option) else None
        for what, v in (("load function", r.load), ("container", r.container)):
            if v is NONE:
                continue
            key = (opt, cval(r.tag), what)
            if key in by and by[key][0] is not v:
                good = False
                rep.bad("C04.conflict", "tag %r has two %ss" % (cval(r.tag), what), "%s and %s are both registered; the second shadows the first" % (pp(by[key][0], 2), pp(v, 2)), (r.module.replace(".", "/") + ".py", 0, "class_register"))
            by.setdefault(key, (v, r))
    bycls = {}
    for r in rs:
        if r.create is NONE:
            continue
        key = (cval(r.option) if is_c(r.option) else None, r.cls)
        if key in bycls and bycls[key].create is not r.create:
            good = False
            rep.bad("C04.conflict", "class %s has two writers" % (cname(r.cls) or pp(r.cls)), "%s and %s" % (pp(bycls[key].create, 2), pp(r.create, 2)), (r.module.replace(".", "/") + ".py", 0, "class_register"))
        bycls.setdefault(key, r)
    written = {}
    for opt, types in T.types.items():
        for cls, entry in types.items():
            it = seq_items(entry, T.st)
            if it and is_c(it[1]) and it[0].k == "FN" and it[0].a[0].name != "not_dumpable":
                written[cval(it[1])] = cls
    for m, tag, opt in excludes(i):
        if is_c(tag) and cval(tag) in written:
            good = False
            rep.bad("C04.exclude", "tag %r excluded" % cval(tag), "%s excludes a tag that is written for %s" % (m, pp(written[cval(tag)], 2)), (m.replace(".", "/") + ".py", 0, "exclude_register"))
    if good:
        rep.ok("C04.conflict", "%d registrations, %d readers" % (len(rs), len(by)))
        rep.ok("C04.exclude", "%d exclusions" % len(excludes(i)))
    for r, outs in T.failed:
        if isinstance(r, tuple):
            continue
        if outs and all(o[0] == "X" for o in outs):
            rep.bad("C04.reader", "registration of %s" % (cname(r.cls) or pp(r.cls)), "registering the shipped loader raises %s" % pp(outs[0][1], 3), (r.module.replace(".", "/") + ".py", 0, "class_register"))


def check_modules(rep):
    i = interp()
    rs = rows(i)
    tops = {}
    for r in rs:
        if r.create is NONE or r.cls.k != "EXT":
            continue
        n = cname(r.cls)
        tops.setdefault((n.split(".")[0], r.module), []).append(n)
    for (top, mod), classes in sorted(tops.items()):
        with rep.guard("C04.module", classes[0]):
            i = interp()
            cls = EXT(classes[0])
            f, outs = lookup_paths(i, cls, (cls,))
            rep.use(i)
            rep.paths += len(outs)
            asked = set()
            for k, v, s in outs:
                for e in s.events():
                    if e.op in ("call", "callx"):
                        for a in e.args[:1]:
                            if is_c(a) and isinstance(cval(a), str) and ".load_" in cval(a):
                                asked.add(cval(a))
            if not asked:
                rep.unknown("C04.module", "%s in %s" % (top, mod), "the module looked up was not resolved")
            elif mod not in asked:
                rep.bad("C04.module", "%s registered in %s" % (", ".join(sorted(classes)[:3]), mod), "for classes of package %s hickle looks for %s" % (top, ", ".join(sorted(asked))), fn_loc(f))
            else:
                rep.ok("C04.module", "%s: %d classes in %s" % (top, len(classes), mod))


def check_core(rep, T):
    for tab, tg, what in ((T.load, b"pickle", "load function"), (T.cont, b"!node-reference!", "container"), (T.load, b"!recover!", "load function"), (T.cont, b"!recover!", "container")):
        v = tab.get(None, {}).get(tg)
        if v is None or v is NONE:
            rep.bad("C04.core", "tag %r has no %s" % (tg, what), "nodes hickle itself marks this way cannot be read", ("hickle/lookup.py", 0, "LoaderManager"))
        else:
            rep.ok("C04.core", "%r: %s" % (tg, pp(v, 2)))


def check(rep, tier):
    rep.rule("C04.reader", "for each kind of node a writer path emits a reader of that kind is registered under the tag of the class")
    rep.rule("C04.empty", "the reader of a tag under which datasets without content are emitted does not read content when the shape is None")
    rep.rule("C04.attrs", "every attribute a reader requires on each of its paths is written on each path of the writer")
    rep.rule("C04.tag", "a tag is a valid, unambiguous name of an entry of the types table")
    rep.rule("C04.conflict", "no tag has two different readers and no class two different writers under one option")
    rep.rule("C04.exclude", "no tag that is written is excluded from loading")
    rep.rule("C04.module", "each class is registered in the loader module that the lookup derives from its package")
    rep.rule("C04.core", "the implicit tags of the core have readers")
    with rep.guard("C04.reader", "tables"):
        i = interp()
        T = tables(i)
        rep.use(i)
    check_rows(rep, T)
    with rep.guard("C04.conflict", "tables"):
        check_conflicts(rep, T)
    check_core(rep, T)
    check_modules(rep)
