"""Correspondence of item positions: the writers of list, tuple and dict are interpreted on containers
with several symbolic items; what they hand out is appended to the reader's container in other
orders (as HDF5 may list it) and every item must end up at its own index. The recursion of dump and
load must hand the position attributes of an item, link or not, to that node and back unchanged."""
import re
from ..handlers import *
from ..core import *
from .c07 import decode, fresh

SIZES = (1, 2, 3, 12, 300, 500)
# positions of a container of any size, around the limits of integer types and digit counts
WINDOW = (0, 1, 9, 10, 11, 99, 100, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 1023, 1024, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 65537,
          99999, 100000, 10 ** 6, 2 ** 20, 2 ** 24, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 40)

FAR = (0, 10, 255, 1024, 9999, 10000, 10026, 32768, 65535, 65536, 99999, 100000)


def orders(n):
    ids = list(range(n))
    yield ids
    yield ids[::-1]
    yield sorted(ids, key=str)


def expected(kind, items):
    return items


def build(i, kind, n):
    st = state(i)
    items = [S("item%d" % k, "user.Object") for k in range(n)]
    for x in items:
        st = st.setsym(x, "__class__", EXT("user.Object"))
    if kind == "dict":
        keys = []
        for k in range(n):
            key = S("key%d" % k, ("builtins.str", "builtins.int", "user.Object")[k % 3])
            st = st.setsym(key, "__class__", EXT(key.a[1]))
            keys.append(key)
        l, st = st.alloc(("input", kind), HO("dict", None, (), (tuple(zip(keys, items)), ())))
        return l, [(k, v) for k, v in zip(keys, items)], st
    if kind == "tuple":
        return T(*items), items, st
    l, st = st.alloc(("input", kind), HO("list", None, (), tuple(items)))
    return l, items, st


def fold(i):
    """decide the packing of such items as their class says, keep one path per case"""
    from ..npmodel import model_call, model_attr
    i.model_call = chain(model_call(), np_int)
    i.model_attr = model_attr
    i.max_outcomes = 200


def no_slash(st, keys):
    return st


def check_container(rep, row, kind, n, readers):
    i = fresh()
    fold(i)
    l, want, st = build(i, kind, n)
    loc = (row.create.a[0].relpath, row.create.a[0].lineno, row.create.a[0].qual)
    paths = []
    saved = i.fork_hook
    if kind == "dict":
        # the text conditions on keys are independent of position: follow one answer
        i.model_call = chain(i.model_call, lambda f, a, k, s, c, m: [(FALSE, s)] if f.k == "AT" and f.a[1] == "search" else None)
    for k, v, s in run(i, row.create, [l, GRP, NAME], [("", KW)], st):
        items = seq_items(v, s) if k == "R" else None
        if not items or len(items) != 2:
            continue
        i.approx = False
        for kk, els, s2, x in run_gen_collect(i, items[1], s):
            if kk in ("N", "R", "B"):
                if i.approx:
                    rep.unknown("C06.items", "%s of %d items" % (kind, n), "a loop over the items is not followed to its end")
                    continue
                paths.append((items[0], [sub_fields(e, s2) for e in els], s2))
    rep.paths += len(paths)
    subject = "%s of %d items" % (kind, n)
    if not paths:
        rep.unknown("C06.items", subject, "no path of the writer completes")
        return
    for node, fields, s in paths:
        if any(e.key in ("create_dataset",) for e in created(s)):
            continue
        if any(f is None for f in fields):
            rep.unknown("C06.items", subject, "items not of the expected form")
            continue
        names = [f[0] for f in fields]
        vals = [x if not isinstance(x, tuple) else x[1] for x in want]
        stored = [sum(1 for f in fields if any(y is v for y in subterms(f[1]))) for v in vals]
        if len(fields) != n or any(c != 1 for c in stored):
            rep.bad("C06.once", "%s writer" % kind, "%d items are stored as %d nodes (%s times each)" % (n, len(fields), stored), loc)
            continue
        if len(set(map(collapse, names))) != n:
            rep.bad("C06.names", "%s writer" % kind, "items share a node name (%s)" % ", ".join(pp(x, 3) for x in names[:4]), loc)
            continue
        if any(x.k == "TOP" for x in names):
            rep.unknown("C06.names", subject, "names not understood")
        else:
            rep.ok("C06.names", subject)
        attrs0 = attrs_written(s, node)
        for rrow in readers:
            for order in orders(n):
                good = True
                h_attrs, s1 = s.alloc(("in", "h_attrs"), HO("dict", None, (), (tuple((C(k), v[0]) for k, v in attrs0.items() if isinstance(k, str)) + ((C('np_dtype'), C(b'|O')),), ())))
                i.approx = False
                res = list(decode_with(i, rrow, [fields[k] for k in order], s1, h_attrs))
                if i.approx:
                    rep.unknown("C06.items", subject, "a loop of the reader is not followed to its end")
                    continue
                for k, content, s2 in res:
                    if k == "X":
                        if dict(s2.facts) == dict(s.facts):
                            rep.bad("C06.items", "%s reader" % cname(rrow.cls), "appending the items in order %s raises %s" % (order[:6], pp(content, 3)), loc)
                            good = False
                        continue
                    if content is None:
                        rep.unknown("C06.items", subject, "content of the container not a list")
                        good = False
                        continue
                    got = [x if x.k != "TUP" or kind != "dict" or len(x.a) != 2 else x.a[1] for x in content]
                    if kind == "dict":
                        ok = len(got) == n and all(any(y is v for y in subterms(g)) for g, v in zip(got, vals))
                    else:
                        ok = len(got) == n and all(g is v for g, v in zip(got, vals))
                    if not ok:
                        if any(x.k == "TOP" for g in got for x in subterms(g)):
                            rep.unknown("C06.items", subject, "content not understood")
                        else:
                            rep.bad("C06.items", "items of %s read as %s" % (kind, cname(rrow.cls)), "stored in order %s, %d items end up as %s" % (
                                order[:6], n, ", ".join(pp(x, 3) for x in content[:6])), loc)
                        good = False
                if good:
                    rep.ok("C06.items", "%s read as %s in order %s" % (subject, pp(rrow.tag), order[:4]))
    rep.use(i)


def collapse(t):
    """one symbol for every part of a name that different items may have in common"""
    if not isinstance(t, Node):
        return tuple(collapse(x) for x in t) if isinstance(t, tuple) else t
    if t.k == "BIN" and t.a[0] in ("Mod", "BitAnd", "FloorDiv", "RShift") and not is_c(t.a[1]) and is_c(t.a[2]) and isinstance(cval(t.a[2]), int):
        return S("rest")
    if t.k == "CL" and t.a[0] in (EXT("builtins.hash"), EXT("builtins.len")):
        return S("rest")
    return mk(t.k, *[collapse(x) for x in t.a])


def overflow(p):
    m = re.match(r"numpy\.(u?)int(\d+)$", p.a[0].a[0]) if p.k == "CL" and p.a[0].k == "EXT" and len(p.a[1]) == 1 else None
    return m is not None and is_c(p.a[1][0]) and not fits(m, cval(p.a[1][0]))


def fits(m, v):
    bits = int(m.group(2))
    return isinstance(v, int) and (0 <= v < 2 ** bits if m.group(1) else -2 ** (bits - 1) <= v < 2 ** (bits - 1))


def np_int(f, a, k, s, c, n):
    """integer types of numpy applied to a constant in their range"""
    m = re.match(r"numpy\.(u?)int(\d+)$", f.a[0]) if f.k == "EXT" and len(a) == 1 and is_c(a[0]) else None
    return [(a[0], s)] if m is not None and fits(m, cval(a[0])) else None


REORDER = (EXT("builtins.sorted"), EXT("builtins.set"), EXT("builtins.frozenset"), EXT("builtins.reversed"))


def check_window(rep, row, kind, window=WINDOW, readers=()):
    """the writer's loop at positions far beyond what can be unrolled: names and positions stay
    distinct, and the readers put what they are given for these positions at its own index"""
    i = fresh()
    fold(i)
    size = window[-1] + 1
    if readers:
        i.max_repeat = 120000
    l, want, st = build(i, kind, len(window))
    vals = [x if not isinstance(x, tuple) else x[1] for x in want]
    i.model_call = chain(lambda f, a, k, s, c, m: [(C(size), s)] if f is EXT("builtins.len") and len(a) == 1 and a[0] is l else None, i.model_call)
    subject = "%s at positions up to %d" % (kind, window[-1])
    loc = (row.create.a[0].relpath, row.create.a[0].lineno, row.create.a[0].qual)

    def enum(it, s):
        if it.k == "CL" and it.a[0] is EXT("builtins.enumerate") and it.a[1]:
            start = it.a[1][1] if len(it.a[1]) > 1 else dict(it.a[2]).get("start", C(0))
            saved, i.model_iter = i.model_iter, None
            xs, ok = i.elements(it.a[1][0], s)
            i.model_iter = saved
            if not ok and it.a[1][0].k == "CL" and it.a[1][0].a[0] in REORDER and it.a[1][0].a[1]:
                ordered.append(it.a[1][0])
            if ok and is_c(start) and len(xs) == len(window):
                fired.append(it)
                return [T(C(cval(start) + k), x) for k, x in zip(window, xs)]
    fired, ordered = [], []
    i.model_iter = enum
    if kind == "dict":
        i.model_call = chain(i.model_call, lambda f, a, k, s, c, m: [(FALSE, s)] if f.k == "AT" and f.a[1] == "search" else None)
    n = 0
    for k, v, s in run(i, row.create, [l, GRP, NAME], [("", KW)], st):
        items = seq_items(v, s) if k == "R" else None
        if not items or len(items) != 2 or any(e.key == "create_dataset" for e in created(s)):
            continue
        del fired[:]
        for kk, els, s2, x in run_gen_collect(i, items[1], s):
            if ordered and kind not in ("set", "frozenset"):
                rep.bad("C06.items", "%s writer" % kind, "with %d items the writer numbers them in the order of %s, not in the order of the %s" % (size, pp(ordered[0], 3), kind), loc)
                return
            if not fired:
                continue
            fields = [sub_fields(e, s2) for e in els]
            if kk not in ("N", "R", "B") or any(f is None for f in fields) or len(fields) != len(window):
                continue
            n += 1
            names = [collapse(f[0]) for f in fields]
            dup = [a for a in range(len(names)) if names[a] in names[:a]]
            if dup:
                rep.bad("C06.names", "%s writer" % kind, "the items at positions %d and %d share the node name %s" % (
                    window[names.index(names[dup[0]])], window[dup[0]], pp(names[dup[0]], 3)), loc)
                continue
            pos = []
            for f in fields:
                d = dict_of(f[2], s2) or {}
                p = d.get("item_index", d.get("key_idx"))
                pos.append(p)
            wrong = [a for a, p in enumerate(pos) if p is not None and (is_c(p) and cval(p) != window[a] or overflow(p))]
            if wrong:
                rep.bad("C06.items", "%s writer" % kind, "position %d is recorded as %s" % (window[wrong[0]], pp(pos[wrong[0]], 3)), loc)
            elif any(p is None or not is_c(p) for p in pos):
                rep.unknown("C06.names", subject, "position not constant")
            else:
                rep.ok("C06.names", subject)
                for rrow in readers:
                    far_items(rep, i, rrow, kind, window, fields, vals, attrs_written(s2, items[0]), s2, subject, loc)
    if not n:
        rep.unknown("C06.names", subject, "loop over the items not understood")
    rep.use(i)


def far_items(rep, i, rrow, kind, window, fields, vals, attrs0, s, subject, loc):
    h_attrs, s1 = s.alloc(("in", "h_attrs"), HO("dict", None, (), (tuple((C(k), v[0]) for k, v in attrs0.items() if isinstance(k, str)) + ((C('np_dtype'), C(b'|O')),), ())))
    i.approx = False
    res = list(decode_with(i, rrow, fields, s1, h_attrs, gaps=True))
    if i.approx:
        rep.unknown("C06.items", subject, "a loop of the reader is not followed to its end")
        return
    for k, content, s2 in res:
        if k == "X":
            if dict(s2.facts) == dict(s.facts):
                rep.bad("C06.items", "%s reader" % cname(rrow.cls), "appending the items of a %s with %d items raises %s" % (kind, window[-1] + 1, pp(content, 3)), loc)
            continue
        if content is None or any(x.k in ("STAR", "REP", "AT_POS") for x in content):
            rep.unknown("C06.items", subject, "content of the container not a list of known items")
            continue
        for p, v in zip(window, vals):
            g = content[p] if p < len(content) else None
            if g is not None and (g is v or kind == "dict" and any(y is v for y in subterms(g))):
                continue
            if g is not None and any(x.k == "TOP" for x in subterms(g)):
                rep.unknown("C06.items", subject, "content not understood")
            else:
                rep.bad("C06.items", "items of %s read as %s" % (kind, cname(rrow.cls)), "of %d items, the one stored for index %d is not found there after loading (%s)" % (
                    window[-1] + 1, p, pp(g, 3) if g is not None else "nothing"), loc)
            break
        else:
            rep.ok("C06.items", "%s read as %s" % (subject, pp(rrow.tag)))


def chain(a, b):
    def call(*args):
        r = a(*args) if a else None
        return r if r is not None else b(*args)
    return call


def decode_with(i, row, fields, s, h_attrs, gaps=False):
    """gaps: only some positions are filled, what convert makes of the others says nothing"""
    out = []
    for k, c, s3 in run(i, row.container, [h_attrs, row.tag, row.cls], [], s):
        if k == "X":
            out.append(("X", c, s3))
            continue
        todo = [("R", s3)]
        for name, obj, attrs, _ in fields:
            nxt = []
            for kk, s4 in todo:
                if kk != "R":
                    nxt.append((kk, s4))
                    continue
                m = i.attr(c, "append", s4, top_ctx(i), NOWHERE)[0][0]
                for k4, v, s5 in run(i, m, [name, obj, attrs], [], s4):
                    nxt.append(("R", s5) if k4 == "R" else (v, s5))
            todo = nxt
        for kk, s4 in todo:
            if kk != "R":
                out.append(("X", kk, s4))
                continue
            content = dict(s4.obj(c).attrs).get("_content")
            items = seq_items(content, s4) if content is not None else None
            m = i.attr(c, "convert", s4, top_ctx(i), NOWHERE)[0][0]
            conv = []
            for k4, v, s5 in run(i, m, [], [], s4):
                conv.append((k4, result_items(v, s5) if k4 == "R" else v, s5))
            for k4, its, s5 in conv:
                if gaps and items is not None and (k4 == "X" or its is not None and len(its) < len(items)):
                    out.append(("R", items, s5))
                elif k4 == "X":
                    out.append(("X", its, s5))
                elif its is not None:
                    out.append(("R", its, s5))
                else:
                    out.append(("R", items, s5))
    return out


def result_items(v, st):
    """items of the result of convert: the list itself or class(list)"""
    it = seq_items(v, st)
    if it is not None:
        return it
    if v.k == "OBJ" and st.obj(v) is not None and st.obj(v).kind == "dict" and not st.obj(v).data[1]:
        return [T(a, b) for a, b in st.obj(v).data[0]]
    if v.k == "DCT" and not v.a[1]:
        return [T(a, b) for a, b in v.a[0]]
    while v.k == "CL" and v.a[1]:
        it = seq_items(v.a[1][0], st)
        if it is not None:
            return it
        v = v.a[1][0]
    return None


def check_core(rep):
    pos = {"item_index": S("ix"), "key_idx": S("kx"), "key_base_type": S("kb")}
    i = interp()
    fn, m = roles(i, "dump")
    loc = (fn.a[0].relpath, fn.a[0].lineno, fn.a[0].qual)
    outs = dump_node(i, pos)
    rep.use(i)
    rep.paths += len(outs)
    n = 0
    for k, v, s in outs:
        if k == "X":
            continue
        links = [e for e in created(s)]
        nodes = [e.val for e in links]
        if not nodes:
            for e in s.events():
                if e.op == "call" and (writer_call(e)):
                    nodes.append(mk("IX", e.val, C(0)))
        what = "a reference to an object stored before" if links else "a newly stored object"
        if not nodes:
            rep.unknown("C06.attrs", what, "no node found on a path")
            continue
        node = nodes[-1]
        w = attrs_written(s, node)
        if "*" in w:
            rep.unknown("C06.attrs", what, "attributes written in a form not understood")
            continue
        miss = [a for a, val in pos.items() if a not in w or w[a][0] is not val]
        if miss:
            rep.bad("C06.attrs", "%s: %s" % (loc[2], what), "the position attributes %s handed to it are not written to the node" % ", ".join(miss), loc, trace(s))
        else:
            n += 1
            rep.ok("C06.attrs", what)
    i = interp()
    fn, m = roles(i, "load")
    loc = (fn.a[0].relpath, fn.a[0].lineno, fn.a[0].qual)
    outs = load_node(i)
    rep.use(i)
    rep.paths += len(outs)
    for k, v, s in outs:
        if k == "X":
            continue
        ap = [e for e in s.events() if e.op == "call" and e.target is CONT and e.key == "append"]
        if len(ap) != 1:
            if any(e.op == "call" and any(x is CONT for x in subterms(T(*[a for a in e.args if isinstance(a, Node)]))) for e in s.events()):
                rep.unknown("C06.append", "load of one node", "container handed on")
            else:
                rep.bad("C06.append", "%s: result of one node" % loc[2], "the loaded object is appended %d times to its parent" % len(ap), loc, trace(s))
            continue
        e = ap[0]
        args = list(e.args) + [None] * 3
        kw = kwmap(e)
        name, attrs = args[0] or kw.get("name"), args[2] or kw.get("h5_attrs")
        if name is not H_NAME:
            rep.bad("C06.append", "%s: name of an item" % loc[2], "the item is appended under %s instead of its own name" % pp(name, 3), e.loc, trace(s))
        elif attrs is None or not any(x is AT(H_NODE, "attrs") for x in subterms(attrs)):
            if attrs is None or not any(x.k == "TOP" for x in subterms(attrs)):
                rep.bad("C06.append", "%s: attributes of an item" % loc[2], "the item is appended with attributes %s instead of those of its own node" % (pp(attrs, 4) if attrs else None), e.loc, trace(s))
        else:
            rep.ok("C06.append", "load of one node, %s" % pp(args[1] or kw.get("item") or NONE, 2))


def writer_call(e):
    if e.target is not None and e.target.k == "FN":
        return "pickled" in e.target.a[0].name
    return e.key is None and e.target is not None and e.target.k == "IX" and any(x.k == "AT" and x.a[1] == "load_loader" for x in subterms(e.target))


def check(rep, tier):
    rep.rule("C06.once", "every item is handed out exactly once by the writer")
    rep.rule("C06.names", "items of one container have different node names")
    rep.rule("C06.items", "appended in any order, every item ends up at its own index")
    rep.rule("C06.attrs", "dump writes the position attributes to the node of the item, also for references")
    rep.rule("C06.append", "load appends each result exactly once, with its own name and the attributes of its own node")
    i = interp()
    rs = rows(i)
    sizes = SIZES if tier == "thorough" else (1, 3, 12, 300)
    listlike = [r for r in rs if cname(r.cls) in ("builtins.list", "builtins.tuple", "numpy.ndarray", "numpy.matrix") and r.container.k == "CLS"]
    for r in rs:
        c = cname(r.cls)
        if c not in ("builtins.list", "builtins.tuple", "builtins.dict") or r.create.k != "FN":
            continue
        kind = c.split(".")[1]
        readers = [r] if kind == "dict" else [x for x in listlike if cname(x.cls) == c or kind == "list" and cname(x.cls).startswith("numpy.")]
        with rep.guard("C06.names", "%s at far positions" % kind):
            check_window(rep, r, kind)
            check_window(rep, r, kind, FAR, readers)
        for n in sizes:
            with rep.guard("C06.items", "%s of %d items" % (kind, n)):
                check_container(rep, r, kind, n, readers)
    with rep.guard("C06.attrs", "recursion"):
        check_core(rep)
