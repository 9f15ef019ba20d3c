"""Effect analysis: every operation on a value derived from the file being read, in load, the managers it
creates, the recursion, every reader and container of every table and the v3 reader, is classified; none may
create, change or delete anything, and files are opened with the constant mode 'r'."""
from ..registry import *
from ..core import *
from ..explore import entry_args, KINDS
from .. import handlers
from . import c02

MUTATE = {"create_dataset", "create_group", "create_dataset_like", "create_virtual_dataset", "require_group", "require_dataset", "__setitem__", "__delitem__",
          "modify", "create", "update", "pop", "popitem", "clear", "setdefault", "resize", "write_direct", "move", "make_scale", "write", "truncate",
          "build_virtual_dataset", "swmr_mode", "rename", "unlink", "link", "delete", "writelines"}
SCALARS = {"dtype", "shape", "name", "ndim", "size", "filename", "mode", "file_name", "driver"}


def h5value(v, roots):
    """v is a node / attribute collection of the file (not data copied from it)"""
    for _ in range(80):
        if v in roots:
            return True
        if v.k == "OBJ":
            return False
        if v.k == "AT":
            if v.a[1] in SCALARS:
                return False
            v = v.a[0]
        elif v.k == "IX":
            b, ix = v.a
            if b.k == "AT" and b.a[1] == "attrs" or ix.k in ("TUP", "SLICE") or is_c(ix) and not isinstance(cval(ix), (str, bytes)):
                if not (is_c(ix) and isinstance(cval(ix), int) and b.k in ("EL",)):
                    return False
            v = b
        elif v.k in ("EL", "VAL"):
            v = v.a[0]
        elif v.k == "CL" and v.a[0].k == "AT":
            b, m = v.a[0].a
            if b.k == "AT" and b.a[1] == "attrs" or b.k == "S" and "attrs" in str(b.a[0]):
                return False
            if m not in ("get", "items", "values", "__getitem__", "__enter__", "require_group"):
                return False
            v = b
        elif v.k == "CL" and v.a[0] is EXT("h5py.File"):
            # a file opened on the caller's argument is the file; overlays are in memory
            if any(k in ("driver", "backing_store") for k, _ in v.a[2]):
                return False
            args = list(v.a[1]) + [x for _, x in v.a[2]]
            return any(contains(a, r) for a in args for r in roots)
        elif v.k == "CL" and v.a[0].k == "EXT" and v.a[0].a[0] in ("builtins.iter", "builtins.list", "builtins.tuple", "builtins.sorted", "builtins.reversed", "builtins.next", "builtins.enumerate") and v.a[1]:
            v = v.a[1][0]
        else:
            return False
    return False


def mutations(st, roots):
    out = []
    for e in st.events():
        if e.target is None:
            continue
        if e.target.k == "OBJ":
            o = st.obj(e.target)
            if o is not None and o.kind == "chainmap" and (e.op in ("setitem", "delitem") or e.op == "call" and e.key in ("update", "pop", "clear", "setdefault", "popitem")):
                maps = st.obj(o.data) if isinstance(o.data, Node) else None
                if maps is not None and maps.data and h5value(maps.data[0], roots):
                    out.append((e, "%s on a ChainMap writing to %s" % (e.op, pp(maps.data[0], 4))))
            continue
        if e.op in ("setitem", "delitem"):
            if h5value(e.target, roots):
                out.append((e, "%s on %s" % (e.op, pp(e.target, 4))))
        elif e.op in ("setattr", "delattr"):
            if h5value(e.target, roots) and e.key in ("shape", "label", "dims", "swmr_mode"):
                out.append((e, "attribute %s of %s is set" % (e.key, pp(e.target, 4))))
        elif e.op in ("call", "callx"):
            if e.key in MUTATE and h5value(e.target, roots):
                if e.target.k == "AT" and e.target.a[1] in ("shape", "dtype"):
                    continue
                out.append((e, "%s.%s(...)" % (pp(e.target, 4), e.key)))
            elif e.key is None and e.target.k == "EXT":
                nm = e.target.a[0]
                if nm in ("builtins.setattr", "builtins.delattr", "numpy.copyto", "operator.setitem", "operator.delitem", "os.remove", "os.unlink", "os.truncate", "os.rename", "os.replace") \
                        and e.args and (h5value(e.args[0], roots) or nm.startswith("os.") and any(contains(a, r) for a in e.args for r in roots)):
                    out.append((e, "%s(%s, ...)" % (nm, pp(e.args[0], 3))))
                elif "." in nm and nm.rsplit(".", 1)[1] in MUTATE and nm.startswith("h5py") and e.args and h5value(e.args[0], roots):
                    out.append((e, "%s(%s, ...)" % (nm, pp(e.args[0], 3))))
    return out


def keep(e):
    return e.op in ("setitem", "delitem", "setattr", "delattr") or e.op in ("call", "callx") and (
        e.key in MUTATE or e.key is None and e.target is not None and e.target.k == "EXT" and (
            e.target.a[0] in ("h5py.File", "builtins.setattr", "builtins.delattr", "numpy.copyto", "operator.setitem", "operator.delitem", "builtins.open", "io.open") or
            e.target.a[0].startswith(("os.", "h5py"))))


def judge(rep, rule, what, outs, roots):
    good = True
    for o in outs:
        for e, msg in mutations(o[2], roots):
            good = False
            rep.bad(rule, "%s: %s in %s" % (what, e.key if e.op == "call" else e.op, e.loc[2]), "modifies the file being read: " + msg, e.loc, trace(o[2]))
    if good:
        rep.ok(rule, "%s (%d paths)" % (what, len(outs)))


def hickle_all(fi, st, ctx):
    return fi.module.startswith("hickle.") and fi.name != "get_root" and not (fi.module == "hickle.legacy_v3.hickle" and fi.name in ("dump", "_dump"))


def check_entry(rep, kind):
    i = interp()
    i.max_outcomes = 60000
    c02.models(i)
    m_call = i.model_call
    rec = {f.a[0] for f in (roles(i, "load")[0],)}
    c02.models(i)
    i.keep_fact = lambda t: no_opaque(t) or t.k == "ISI" and "hickle_types_table" in pp(t, 9)
    i.inline = lambda fi, st, ctx: (c02.inline(fi, st, ctx) or fi.module in CORE) and fi not in rec
    i.keep_event = lambda e: keep(e) and not (e.target is not None and e.target.k in ("MTAB", "OBJ"))
    i.raises = lambda *a: ()
    fo, args, kws = entry_args("load", kind, free=True)
    fn = find(i, "hickle.hickle", "load")
    outs = run(i, fn, args, kws)
    rep.use(i)
    rep.paths += len(outs)
    roots = {fo, c02.THEFILE}
    judge(rep, "C03.load", "load(%s)" % kind.split(".")[-1], outs, roots)
    seen = 0
    bad = False
    for k, v, s in outs:
        for e in s.events():
            if e.op == "call" and e.key is None and e.target is EXT("h5py.File"):
                if any(kk in ("driver", "backing_store") for kk, _ in e.kws) and not any(a is fo for a in e.args):
                    continue
                mode = dict(e.kws).get("mode", e.args[1] if len(e.args) > 1 else None)
                seen += 1
                if mode is None:
                    bad = True
                    rep.bad("C03.mode", "load(%s): file opened without mode" % kind.split(".")[-1], "h5py.File is called without a mode", e.loc, trace(s))
                elif is_c(mode):
                    if cval(mode) != "r":
                        bad = True
                        rep.bad("C03.mode", "load: file opened with mode %r" % (cval(mode),), "load opens the file with mode %r instead of 'r'" % (cval(mode),), e.loc, trace(s))
                else:
                    rep.unknown("C03.mode", "load(%s)" % kind, "mode %s" % pp(mode, 3))
                    bad = True
    if seen and not bad:
        rep.ok("C03.mode", "load(%s)" % kind.split(".")[-1])


def arm(i):
    i.max_outcomes = 30000
    i.keep_fact = no_opaque
    i.inline = hickle_all
    i.keep_event = keep
    i.raises = lambda *a: ()


def check_readers(rep, rule="C03.reader", judge=judge, arm=arm):
    done = set()
    i = interp()
    todo = []
    for r in handlers.rows(i):
        todo.append((r.load, r.container, r.tag, r.cls))
    for name in ("load_pickled_data", "recover_custom_dataset", "load_nothing"):
        todo.append((find(i, "hickle.lookup", name), NONE, C(b"pickle"), EXT("builtins.object")))
    for name in ("ExpandReferenceContainer", "RecoverGroupContainer", "NoContainer"):
        try:
            todo.append((NONE, find(i, "hickle.lookup", name), C(b"x"), EXT("user.Object")))
        except Broken:
            pass
    for m in ("hickle.lookup",):
        fr = state(i).frame(("mod", m)) or {}
        for v in fr.values():
            if isinstance(v, Node) and v.k == "CLS" and v.a[0].name.endswith("Container"):
                todo.append((NONE, v, C(b"x"), EXT("user.Object")))
    for load, cont, tag, typ in todo:
        if load.k == "FN" and load not in done:
            done.add(load)
            with rep.guard(rule, load.a[0].qual):
                i = interp()
                arm(i)
                node = S("h_node", "h5py.Dataset")
                outs = run(i, load, [node, tag, typ])
                rep.use(i)
                rep.paths += len(outs)
                judge(rep, rule, load.a[0].qual, outs, {node})
        if cont.k == "CLS":
            for t in {typ, _return_first(i)} - {None}:
                if (cont, t) in done:
                    continue
                done.add((cont, t))
                container(rep, cont, tag, t, rule, judge, arm)


def _return_first(i):
    for m in ("hickle.lookup", "hickle.helpers", "hickle.loaders.load_scipy"):
        f = (state(i).frame(("mod", m)) or {}).get("return_first")
        if f is not None:
            return f


def container(rep, cls, tag, typ, rule, judge, arm):
    what = cls.a[0].qual
    with rep.guard(rule, what):
        i = interp()
        arm(i)
        A, P, IA = S("h_attrs", "h5py.AttributeManager"), S("h_parent", "h5py.Group"), S("i_attrs", "h5py.AttributeManager")
        outs = []
        for k, obj, s in run(i, cls, [A, tag, typ]):
            outs.append((k, obj, s))
            if k != "R":
                continue
            for m, args in (("filter", [P]), ("append", [S("h_name", "builtins.str"), S("item"), IA]), ("convert", [])):
                f = i.attr(obj, m, s, top_ctx(i), NOWHERE)[0][0]
                for o in run(i, f, args, [], s):
                    if o[0] == "R" and m == "filter":
                        outs += [(kk, x, s3) for kk, els, s3, x in run_gen_collect(i, o[1], o[2])]
                    else:
                        outs.append(o)
        rep.use(i)
        rep.paths += len(outs)
        judge(rep, rule, what + (" (4.x)" if typ.k == "FN" else ""), outs, {A, P, IA})


def check_core(rep):
    with rep.guard("C03.core", "recursion"):
        i = interp()
        arm(i)
        roles(i, "load")
        i.reset_policy()
        i.keep_event = lambda e: True
        outs = load_node(i)
        rep.use(i)
        rep.paths += len(outs)
        judge(rep, "C03.core", fn_loc(roles(i, "load")[0])[2], outs, {H_NODE})
    RM, LM = find(i, "hickle.lookup", "ReferenceManager"), find(i, "hickle.lookup", "LoaderManager")
    slf = S("self", "hickle.lookup.ReferenceManager")
    node = S("h_node", "h5py.Dataset")
    for cls, name, args in ((RM, "resolve_type", [slf, node]), (RM, "__enter__", [slf]),
                            (RM, "__exit__", [slf, NONE, NONE, NONE]),
                            (LM, "load_loader", [LSELF, EXT("user.Object")])):
        with rep.guard("C03.core", name):
            i = interp()
            arm(i)
            i.inline = lambda fi, st, ctx: fi.module in ("hickle.lookup", "hickle.helpers") and fi.name not in ("register_class", "register_class_exclude", "_drop_manager", "_drop_overlay")
            f = method(i, cls, name)
            outs = run(i, f, args)
            rep.use(i)
            rep.paths += len(outs)
            judge(rep, "C03.core", f.a[0].qual, outs, {node, AT(slf, "_py_obj_type_table"), AT(slf, "_h_root_group"), AT(LSELF, "_file")})


def check_v3(rep):
    with rep.guard("C03.v3", "legacy_v3.load"):
        i = interp()
        arm(i)
        f = find(i, "hickle.legacy_v3.hickle", "load")
        fo = S("file_obj", "h5py.File")
        rec = find(i, "hickle.legacy_v3.hickle", "_load").a[0]
        i.inline = lambda fi, st, ctx: fi.module.startswith("hickle.legacy_v3") and fi is not rec
        outs = run(i, f, [fo, S("path", "builtins.str"), S("safe")])
        rep.use(i)
        rep.paths += len(outs)
        judge(rep, "C03.v3", "legacy_v3.load", outs, {fo})
    with rep.guard("C03.v3", "legacy_v3._load"):
        i = interp()
        arm(i)
        rec = find(i, "hickle.legacy_v3.hickle", "_load")
        node = S("h_group")
        first = [0]
        i.inline = lambda fi, st, ctx: fi.module.startswith("hickle.legacy_v3") and (fi is not rec.a[0] or ctx.fn.name == "<entry>")
        outs = run(i, rec, [S("py_container"), node])
        rep.use(i)
        rep.paths += len(outs)
        judge(rep, "C03.v3", "legacy_v3._load", outs, {node})
    i = interp()
    st = state(i)
    fr = st.frame(("mod", "hickle.legacy_v3.lookup")) or {}
    tab = fr.get("hkl_types_dict")
    vals = set()
    for nm in ("hkl_types_dict", "container_types_dict"):
        t = fr.get(nm)
        if t is not None and t.k == "OBJ" and st.obj(t) is not None and st.obj(t).kind == "dict":
            vals |= {v for k, v in st.obj(t).data[0] if v.k == "FN" and len(params(v)) == 1}
    for v in sorted(vals, key=lambda x: (x.a[0].qual, x.a[0].lineno)):
        with rep.guard("C03.v3", v.a[0].qual):
            i = interp()
            arm(i)
            node = S("h_node", "h5py.Dataset")
            outs = run(i, v, [node])
            rep.use(i)
            rep.paths += len(outs)
            judge(rep, "C03.v3", v.a[0].qual, outs, {node})
    if not vals:
        rep.unknown("C03.v3", "tables of the v3 reader", "not resolved")


def check(rep, tier):
    rep.rule("C03.mode", "load opens paths and file objects with the constant mode 'r'")
    rep.rule("C03.load", "no operation of load or of creating and leaving its managers modifies a value of the file")
    rep.rule("C03.core", "no operation of the recursion, of type resolution and of loader lookup modifies a value of the file")
    rep.rule("C03.reader", "no reader or container modifies the node, the attributes or the parent it is given")
    rep.rule("C03.v3", "no operation of the v3 reader modifies a value of the file")
    for kind in KINDS:
        with rep.guard("C03.load", kind):
            check_entry(rep, kind)
    check_readers(rep)
    check_core(rep)
    check_v3(rep)
