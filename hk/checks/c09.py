"""Memoisation protocol: on every abstract path of storing one object the memo is consulted under the
identity of that object, a hit stores a reference to the node found and nothing else, and a newly
stored object whose loader asks for it is entered under the same identity together with its node and
the object itself before its items are stored. On load the protocol is mirrored with the node id. The
final loader tables and the fallback of the lookup must ask for memoisation of all non-scalar types,
and reference nodes must resolve to the node they point to."""
from ..registry import *
from ..core import *

SCALARS = {"builtins.int", "builtins.float", "builtins.complex", "builtins.bool", "builtins.NoneType", "numpy.number", "numpy.generic"}
PYID = CL(ID, (PYOBJ,))


def holds(v, x, st):
    """x itself is kept alive by v"""
    if v is x:
        return True
    it = seq_items(v, st)
    if it is not None:
        return any(holds(y, x, st) for y in it)
    if v.k == "OBJ" and st.obj(v) is not None:
        o = st.obj(v)
        if o.kind == "dict":
            return any(holds(y, x, st) for kv in o.data[0] for y in kv)
        if o.kind == "inst":
            return any(holds(y, x, st) for _, y in o.attrs)
    return None if v.k in ("TOP", "CL", "S") and any(y is x for y in subterms(v)) and not weak(v) else False


def weak(v):
    return any(x.k == "EXT" and "weakref" in x.a[0] for x in subterms(v))


def found(st, key):
    """the memo is known to have an entry under this key"""
    for t, b in st.facts.items():
        x = t
        while x.k == "NOT":
            x, b = x.a[0], not b
        if x.k == "CMP" and x.a[0] in ("is", "==", "is not", "!="):
            for y, d in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                if entry_of(y, key, d) and (x.a[0] in ("is", "==")) != bool(b):
                    return True
        elif x.k == "CMP" and x.a[0] in ("in", "not in") and x.a[1] is key and is_memo(x.a[2]):
            if (x.a[0] == "in") == bool(b):
                return True
        elif b and entry_of(x, key):
            return True
    return False


def is_memo(x):
    return x is MEMO or x.k == "CL" and x.a[0].k == "AT" and x.a[0].a[0] is MEMO and x.a[0].a[1] == "keys"


def entry_of(x, key, default=NONE):
    """x is the memo entry itself, or the default if there is none"""
    if x.k == "CL" and x.a[0].k == "AT" and x.a[0].a[0] is MEMO and x.a[0].a[1] == "get" and x.a[1][:1] == (key,):
        return default is (x.a[1][1] if len(x.a[1]) > 1 else NONE)
    return default is NONE and x.k == "IX" and x.a[0] is MEMO and x.a[1] is key


def check_dump(rep):
    i = interp()
    fn, m = roles(i, "dump")
    loc = fn_loc(fn)
    paths = [p for p in dump_paths(i) if p.kind == "R"]
    rep.use(i)
    rep.paths += len(paths)
    if any(p.foreign for p in paths):
        rep.unknown("C09.dump", loc[2], "operation on the memo not understood: %s" % pp(paths[0].foreign[0].target if paths[0].foreign else NONE, 3))
        return
    node_at = set()
    stored = reused = 0
    for p in paths:
        what = "%s" % loc[2]
        if p.drops:
            rep.bad("C09.dump", "%s drops entries of the memo" % what, "an object already stored is forgotten and stored again", p.drops[0].loc, p.trace())
            continue
        new = p.writers or p.pickled
        odd = [k for k in p.keys if k is not PYID]
        if PYID not in p.keys:
            if not new and not p.creates:
                continue
            rep.bad("C09.lookup", "%s does not look up the object" % what, "an object is stored without asking the memo under its identity%s" % (
                "" if not odd else " (looked up under %s)" % pp(odd[0], 4)), loc, p.trace())
            continue
        links = [(n, e) for n, e in p.creates if any(k is PYID for k in memo_reads(T(*[v for _, v in e.kws if isinstance(v, Node)], *e.args)))]
        if links:
            reused += 1
            n, e = links[0]
            if new or p.recs or p.types:
                rep.bad("C09.link", "%s stores the object along with the reference" % what, "an object already stored is stored again or its reference is given a type", e.loc, p.trace())
                continue
            d = kwmap(e).get("data") or (e.args[3] if len(e.args) > 3 else None)
            if d is not None and d.k == "AT" and d.a[1] == "ref" and d.a[0].k == "IX" and is_c(d.a[0].a[1]):
                node_at.add(cval(d.a[0].a[1]))
            elif d is not None and d.k == "AT" and d.a[1] == "ref":
                node_at.add("whole" if memo_reads(d.a[0]) and d.a[0].k in ("CL", "IX") else None)
            dt = kwmap(e).get("dtype")
            if dt is not None and is_c(dt) or dt is not None and dt.k == "EXT" and dt.a[0].startswith("builtins."):
                rep.bad("C09.link", "%s: reference of type %s" % (what, pp(dt)), "the reference is not stored with the HDF5 reference type", e.loc, p.trace())
                continue
            rep.ok("C09.link", "object stored before")
            continue
        if not new:
            if p.creates:
                rep.unknown("C09.dump", what, "node created in a way not understood")
                continue
            rep.bad("C09.dump", "%s stores nothing" % what, "neither a reference nor the object is stored", loc, p.trace())
            continue
        if found(p.st, PYID):
            rep.bad("C09.link", "%s stores an object again" % what, "an object found in the memo is stored anew instead of a reference to it", (new[0][1].loc if new else loc), p.trace())
            continue
        flag = p.memoise()
        mine = [(n, k, v, e) for n, k, v, e in p.stores]
        if not mine:
            if flag is False:
                continue
            rep.bad("C09.store", "%s: object not remembered" % what, "an object whose loader asks for memoisation is stored without being entered into the memo%s" % (
                " (pickled object)" if p.pickled else ""), loc, p.trace())
            continue
        n, k, v, e = mine[0]
        if k is not PYID:
            rep.bad("C09.store", "%s: remembered under %s" % (what, pp(k, 4)), "the memo is asked under id(object) but filled under another key", e.loc, p.trace())
            continue
        h = holds(v, PYOBJ, p.st)
        if h is False:
            rep.bad("C09.alive", "%s: object not kept alive" % what, "the memo entry %s does not hold the object, whose identity may be reused for a different object" % pp(v, 4), e.loc, p.trace())
            continue
        if p.recs and p.recs[0][0] < n:
            rep.bad("C09.store", "%s: remembered after its items" % what, "items are stored before the object itself is in the memo", e.loc, p.trace())
            continue
        w = (p.pickled or p.writers)[-1][1]
        it = seq_items(v, p.st)
        node = IX(w.val, C(0))
        idx = [j for j, y in enumerate(it or ()) if y is node]
        if it is not None and node_at and not (None in node_at):
            if not idx or not (set(idx) & node_at):
                if not any(y.k == "TOP" for y in it):
                    rep.bad("C09.link", "%s: node of the reference" % what, "references use item %s of the memo entry %s, which is not the node of the object" % (
                        sorted(map(str, node_at)), pp(v, 3)), e.loc, p.trace())
                    continue
        stored += 1
        rep.ok("C09.store", "new object%s%s" % (" pickled" if p.pickled else "", " with items" if p.recs else ""))
    if paths and not reused and not rep.violations:
        if stored:
            rep.bad("C09.link", "%s never stores a reference" % loc[2], "no path stores a reference to an object already stored", loc)
        else:
            rep.unknown("C09.link", loc[2], "no reference path found")


def check_load(rep):
    i = interp()
    fn, m = roles(i, "load")
    loc = fn_loc(fn)
    paths = [p for p in load_paths(i) if p.kind == "R"]
    rep.use(i)
    rep.paths += len(paths)
    if any(p.foreign for p in paths):
        rep.unknown("C09.load", loc[2], "operation on the memo not understood")
        return
    NID = AT(H_NODE, "id")
    hit = 0
    for p in paths:
        if p.drops:
            rep.bad("C09.load", "%s drops entries of the memo" % loc[2], "a loaded object is forgotten", p.drops[0].loc, p.trace())
            continue
        if len(p.appends) != 1:
            rep.unknown("C09.load", loc[2], "result not appended in the expected way")
            continue
        e = p.appends[0][1]
        val = e.args[1] if len(e.args) > 1 else kwmap(e).get("item")
        if val is None:
            continue
        rk = memo_reads(val)
        if rk and val.k in ("CL", "IX"):
            if rk[0] is not NID:
                if rk[0].k != "TOP":
                    rep.bad("C09.load", "%s: looked up under %s" % (loc[2], pp(rk[0], 4)), "a node already loaded is not identified by the id of the node itself", e.loc, p.trace())
                continue
            hit += 1
            rep.ok("C09.load", "node loaded before")
            continue
        if found(p.st, NID):
            rep.bad("C09.load", "%s loads a node again" % loc[2], "a node found in the memo is loaded anew", e.loc, p.trace())
            continue
        if NID not in p.keys:
            rep.bad("C09.load", "%s does not look up the node" % loc[2], "a node is loaded without asking the memo under its id", loc, p.trace())
            continue
        if not p.stores:
            if p.memoise() is False:
                continue
            rep.bad("C09.load", "%s: object not remembered" % loc[2], "an object loaded for the first time is not entered into the memo although its loader asks for it", loc, p.trace())
            continue
        n, k, v, se = p.stores[-1]
        if k is not NID:
            rep.bad("C09.load", "%s: remembered under %s" % (loc[2], pp(k, 4)), "the memo is asked under the node id but filled under another key", se.loc, p.trace())
        elif v is not val and not (v.k == "OBJ" or v.k == "TOP"):
            rep.bad("C09.load", "%s: different object remembered" % loc[2], "%s is handed to the parent but %s is remembered" % (pp(val, 3), pp(v, 3)), se.loc, p.trace())
        else:
            rep.ok("C09.load", "new node%s" % (" with items" if p.recs else ""))
    if paths and not hit:
        rep.unknown("C09.load", loc[2], "no path uses the memo")


def check_tables(rep):
    i = interp()
    t = tables(i)
    rep.use(i)
    for opt, d in t.types.items():
        if opt == "hickle-4.x":
            continue
        for c, v in d.items():
            it = seq_items(v, t.st)
            nm = cname(c) if isinstance(c, Node) else None
            if it is None or len(it) != 3 or not nm or nm.startswith("hickle."):
                continue
            if nm in SCALARS:
                continue
            if is_c(it[2]) and not cval(it[2]):
                r = [x for x in rows(i) if x.cls is c]
                rep.bad("C09.table", "loader of %s" % nm, "objects of type %s are not remembered: every occurrence is stored again and loads as a different object" % nm,
                        (i.repo.relpath(r[0].module) if r and hasattr(i.repo, "relpath") else (r[0].module if r else ""), 0, "class_register"))
            else:
                rep.ok("C09.table", nm)
    # fallback of the lookup
    i = interp()
    f, outs = lookup_paths(i, EXT("user.Object"), (EXT("user.Object"), EXT("builtins.object")))
    rep.use(i)
    rep.paths += len(outs)
    n = 0
    for k, v, s in outs:
        if k != "R":
            continue
        it = seq_items(v, s)
        lo = seq_items(it[1], s) if it and len(it) == 2 else None
        if not lo or len(lo) != 3 or lo[0].k != "FN" or "pickled" not in lo[0].a[0].name:
            continue
        n += 1
        if is_c(lo[2]) and not cval(lo[2]):
            rep.bad("C09.table", "load_loader: pickled objects", "pickled objects are not remembered: every occurrence is stored again", fn_loc(f))
            return
    if n:
        rep.ok("C09.table", "pickled objects (%d paths of the lookup)" % n)
    else:
        rep.unknown("C09.table", "pickled objects", "fallback of load_loader not found")


def check_reference(rep):
    i = interp()
    t = tables(i)
    i = interp()
    f, H, outs = resolve_untyped(i, "reference")
    tags = set()
    for k, v, s in outs:
        it = seq_items(v, s) if k == "R" else None
        if k == "X":
            rep.bad("C09.ref", "resolve_type: reference node", "a reference node is rejected with %s" % pp(v, 3), fn_loc(f), trace(s))
            return
        if not it or len(it) != 3:
            continue
        if it[2] is FALSE:
            rep.bad("C09.ref", "resolve_type: reference node", "a reference node is reported as plain dataset, so the object it refers to is not loaded", fn_loc(f), trace(s))
            return
        if is_c(it[1]):
            tags.add(cval(it[1]))
    rep.use(i)
    if not tags:
        rep.unknown("C09.ref", "resolve_type", "no path recognises a reference node")
        return
    for tag in tags:
        c = t.cont[None].get(tag)
        if c is None or c.k != "CLS":
            rep.bad("C09.ref", "container of %r" % tag, "no container is registered for reference nodes", fn_loc(f))
            continue
        i = interp()
        i.keep_fact = None
        i.inline = lambda fi, st, ctx: fi.module.startswith("hickle.")
        attrs = S("h_attrs")
        ok = False
        for k, obj, s in run(i, c, [attrs, C(tag), EXT("builtins.object")]):
            if k != "R":
                continue
            fl = i.attr(obj, "filter", s, top_ctx(i), NOWHERE)[0][0]
            for k2, v2, s2 in run(i, fl, [H], [], s):
                if k2 != "R":
                    continue
                for kk, els, s3, x in run_gen_collect(i, v2, s2):
                    if kk == "X" or kk not in ("N", "R", "B"):
                        continue
                    if len(els) != 1:
                        rep.bad("C09.ref", "%s.filter" % c.a[0].qual, "a reference node is expanded to %d nodes" % len(els), fn_loc(fl if fl.k == "FN" else fl.a[1]), trace(s3))
                        return
                    pr = seq_items(els[0], s3)
                    node = pr[1] if pr and len(pr) == 2 else None
                    if node is None:
                        continue
                    if not any(y.k == "IX" and y.a[0] is H for y in subterms(node)):
                        rep.bad("C09.ref", "%s.filter" % c.a[0].qual, "a reference node is expanded to %s, not to the node its content refers to" % pp(node, 5), fn_loc(fl if fl.k == "FN" else fl.a[1]), trace(s3))
                        return
                    ap = i.attr(obj, "append", s3, top_ctx(i), NOWHERE)[0][0]
                    ITEM = S("item", "user.Object")
                    for k4, v4, s4 in run(i, ap, [pr[0], ITEM, S("a")], [], s3):
                        if k4 != "R":
                            continue
                        cv = i.attr(obj, "convert", s4, top_ctx(i), NOWHERE)[0][0]
                        for k5, v5, s5 in run(i, cv, [], [], s4):
                            if k5 == "R" and v5 is not ITEM:
                                if v5.k != "TOP":
                                    rep.bad("C09.ref", "%s.convert" % c.a[0].qual, "a reference yields %s instead of the very object it refers to" % pp(v5, 4), fn_loc(cv if cv.k == "FN" else cv.a[1]), trace(s5))
                                    return
                            elif k5 == "R":
                                ok = True
        rep.use(i)
        if ok:
            rep.ok("C09.ref", "container of %r" % tag)
        else:
            rep.unknown("C09.ref", "container of %r" % tag, "no complete path")


def check(rep, tier):
    rep.rule("C09.lookup", "the memo is consulted under id(object) before an object is stored")
    rep.rule("C09.link", "an object found in the memo is stored as a reference to the node in its memo entry")
    rep.rule("C09.store", "a stored object whose loader asks for memoisation is entered under id(object) before its items are stored")
    rep.rule("C09.alive", "the memo entry holds the object itself")
    rep.rule("C09.dump", "the memo only grows while dumping")
    rep.rule("C09.load", "load consults and fills the memo under the node id, with the object handed to the parent")
    rep.rule("C09.table", "all non-scalar types and pickled objects are registered for memoisation")
    rep.rule("C09.ref", "reference nodes are expanded to the node they refer to and yield that object itself")
    rep.rule("C09.items", "writers hand on the items themselves, never copies")
    for nm, f in (("C09.items", check_items), ("C09.dump", check_dump), ("C09.load", check_load), ("C09.table", check_tables), ("C09.ref", check_reference)):
        with rep.guard(nm, "analysis"):
            f(rep)


def check_items(rep):
    from .c06 import build, fold, chain
    from .c07 import fresh
    for r in rows(interp()):
        c = cname(r.cls)
        if c not in ("builtins.list", "builtins.tuple", "builtins.dict", "builtins.set") or r.create.k != "FN":
            continue
        kind = c.split(".")[1]
        with rep.guard("C09.items", kind):
            i = fresh()
            fold(i)
            l, want, st = build(i, "dict" if kind == "dict" else "list" if kind == "set" else kind, 2)
            if kind == "set":
                items = seq_items(l, st)
                l, st = st.alloc(("input", "set"), HO("set", None, (), tuple(items)))
                want = items
            if kind == "dict":
                i.model_call = chain(i.model_call, lambda f, a, k, s, c, m: [(FALSE, s)] if f.k == "AT" and f.a[1] == "search" else None)
            vals = [x[1] if isinstance(x, tuple) else x for x in want]
            good = n = 0
            for k, v, s in run(i, r.create, [l, GRP, NAME], [("", KW)], st):
                it = seq_items(v, s) if k == "R" else None
                if not it or len(it) != 2 or any(e.key == "create_dataset" for e in created(s)):
                    continue
                for kk, els, s2, x in run_gen_collect(i, it[1], s):
                    fs = [sub_fields(e, s2) for e in els]
                    if kk not in ("N", "R", "B") or any(f is None for f in fs):
                        continue
                    for f in fs:
                        n += 1
                        objs = [f[1]] + list(seq_items(f[1], s2) or ())
                        if any(o is v for o in objs for v in vals):
                            good += 1
                        elif not any(y.k == "TOP" for y in subterms(f[1])):
                            rep.bad("C09.items", "items of %s" % kind, "instead of the item itself %s is handed on, so that other occurrences of the item are not recognised" % pp(f[1], 4), fn_loc(r.create))
            rep.use(i)
            if n and good == n:
                rep.ok("C09.items", kind)
            elif not n:
                rep.unknown("C09.items", kind, "no items found")
