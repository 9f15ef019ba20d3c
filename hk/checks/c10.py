"""Effect analysis with constant propagation: dump() is interpreted for every kind of file argument and every
documented mode; the mode handed to h5py is compared with the one requested, a target that has content and a file
that is read-only must lead to an exception with no write before it, and no operation that deletes, replaces or
truncates anything is reachable from dump."""
from ..registry import *
from ..core import *
from ..explore import KINDS
from ..places import *
from . import c02, c20

MODES = ("w", "wb", "w+", "wb+", "w+b", "x", "xb", "x+", "xb+", "a", "ab", "a+", "ab+", "r+", "rb+", "r+b", "r", "rb")
OPENED = ("builtins.str", "pathlib.Path", "io.BytesIO", "user.FileLike", "builtins.tuple", "builtins.dict")
PASSED = (("h5py.File", "/"), ("h5py.Group", "/g"))
DESTROY = {"pop", "popitem", "clear", "__delitem__", "move", "resize", "write_direct", "truncate", "unlink", "rename", "replace", "delete", "rmdir", "remove", "unlink_"}
OSCALLS = {"os.remove", "os.unlink", "os.rename", "os.replace", "os.truncate", "os.rmdir", "shutil.move", "shutil.rmtree", "shutil.copy", "shutil.copyfile", "os.removedirs", "os.ftruncate"}
EXIST = S("existing", "h5py.Group")
DSET = S("existing dataset", "h5py.Dataset")
ITEM = C("something else")


def expected(mode):
    if mode[0] == "r":
        return {"r+"} if "+" in mode else {"r"}
    return {"x", "w-"} if mode[0] == "x" else {mode[0]}


def keep(e):
    return e.op in ("setitem", "delitem") or e.op in ("call", "callx")


def run_dump(i, kind, mode, name=None, path=C("/a"), extra=None):
    i.max_outcomes = 30000
    i.inline = core_inline
    i.keep_fact = None
    i.keep_event = keep
    fo, args, k = entry_args("dump", kind, mode=mode, path=path)
    if name is not None:
        c20.named(i, fo, name)
    if extra:
        extra(i, fo)
    outs = run(i, find(i, "hickle.hickle", "dump"), args, k)
    return fo, outs


def places(s, fo, name):
    bases = {}
    if name is not None:
        bases[fo] = (ROOT,) + comps(C(name))
        bases[AT(fo, "file")] = (ROOT,)
    for e in s.events():
        if e.op == "call" and e.target is EXT("h5py.File") and isinstance(e.val, Node) and c20.is_the_file(e.val, fo):
            bases[e.val] = (ROOT,)
    bases[EXIST] = bases[DSET] = (ROOT, "existing")
    return Places(bases)


def opens(s):
    return [e for e in s.events() if e.op in ("call", "callx") and e.key is None and e.target is not None and e.target.k == "EXT" and e.target.a[0] in ("h5py.File", "h5py.h5f.create", "h5py.h5f.open")]


def mode_of(e):
    m = kwmap(e).get("mode", e.args[1] if len(e.args) > 1 else C("r"))
    return cval(m) if is_c(m) else None


def destructive(s, fo, pl):
    """[(event, text)]"""
    out, made = [], set()
    for e in s.events():
        if e.target is None:
            continue
        t = e.target
        if e.op == "call" and e.key in MAKE:
            made.add(e.val)
        if e.op == "delitem":
            if t.k != "OBJ" and (pl.at(t) is not None or t.k == "AT" and t.a[1] == "attrs"):
                out.append((e, "deletes an item of %s" % pp(t, 4)))
        elif e.op in ("call", "callx"):
            if e.key in DESTROY and t.k != "OBJ" and not (e.key == "replace" and (is_c(t) or kind_of(t, s) is not None and cname(kind_of(t, s)) == "builtins.str")):
                x = t.a[0] if t.k == "AT" and t.a[1] == "attrs" else t
                if pl.at(x) is not None and not any(x is m or contains(x, m) for m in made):
                    out.append((e, "calls %s.%s" % (pp(t, 4), e.key)))
                elif x is fo or contains(x, fo) and (e.key in ("truncate", "unlink", "rename", "rmdir")):
                    if not (e.key == "replace"):
                        out.append((e, "calls %s.%s" % (pp(t, 4), e.key)))
            elif e.key is None and t.k == "EXT" and t.a[0] in OSCALLS:
                if any(contains(a, fo) or pl.at(a) is not None for a in e.args):
                    out.append((e, "calls %s(%s)" % (t.a[0], ", ".join(pp(a, 3) for a in e.args))))
            elif e.key is None and t.k == "EXT" and t.a[0] in ("operator.delitem", "builtins.delattr") and e.args and pl.at(e.args[0]) is not None:
                out.append((e, "calls %s(%s)" % (t.a[0], pp(e.args[0], 3))))
            elif e.key is None and t.k == "EXT" and t.a[0] in ("builtins.open", "io.open") and e.args and contains(e.args[0], fo):
                m = kwmap(e).get("mode", e.args[1] if len(e.args) > 1 else C("r"))
                if is_c(m) and "w" in str(cval(m)):
                    out.append((e, "opens the file with mode %r" % cval(m)))
    return out


def check_modes(rep):
    for kind in OPENED:
        for mode in MODES + (None,):
            subj = "dump(%s, mode=%r)" % (kind.split(".")[-1], mode)
            with rep.guard("C10.mode", subj):
                i = interp()
                i.raises = lambda *a: ()
                fo, outs = run_dump(i, kind, C(mode) if mode else None)
                rep.use(i)
                rep.paths += len(outs)
                want = expected(mode or "w")
                good, n = True, 0
                for k, v, s in outs:
                    seen = 0
                    for e in opens(s):
                        if not any(contains(a, fo) for a in list(e.args) + [x for _, x in e.kws]):
                            continue
                        m = mode_of(e)
                        n += 1
                        seen += 1
                        if m is None:
                            rep.unknown("C10.mode", subj, "mode not constant: %s" % pp(e.val, 4))
                            good = False
                        elif m not in want or seen > 1:
                            good = False
                            rep.bad("C10.mode", "file opened in %s" % e.loc[2], "%s opens the file with mode %r%s instead of %r" % (
                                subj, m, " once more" if seen > 1 else "", sorted(want)[0]), e.loc, trace(s))
                    if (mode or "w")[0] != "w":
                        for e, txt in destructive(s, fo, places(s, fo, None)):
                            good = False
                            rep.bad("C10.delete", "dump: %s in %s" % (e.key if isinstance(e.key, str) else ev_name(e), e.loc[2]), "%s %s" % (subj, txt), e.loc, trace(s))
                if good and n:
                    rep.ok("C10.mode", subj)
                elif good:
                    rep.unknown("C10.mode", subj, "no opening of a file seen")
        with rep.guard("C10.mode", "load(%s)" % kind):
            i = interp()
            i.raises = lambda *a: ()
            i.inline = core_inline
            i.keep_fact = None
            fo, args, k = entry_args("load", kind)
            outs = run(i, find(i, "hickle.hickle", "load"), args, k)
            good, n = True, 0
            for kk, v, s in outs:
                for e in opens(s):
                    if any(contains(a, fo) for a in list(e.args) + [x for _, x in e.kws]):
                        n += 1
                        if mode_of(e) is not None and mode_of(e) != "r":
                            good = False
                            rep.bad("C10.mode", "file opened in %s" % e.loc[2], "load(%s) opens the file with mode %r" % (kind.split(".")[-1], mode_of(e)), e.loc, trace(s))
            if good and n:
                rep.ok("C10.mode", "load(%s)" % kind.split(".")[-1])


def existing(i, fo, target):
    """the target exists and has one item, under a name dump does not use"""
    attr0 = i.model_attr
    h5 = any("h5py" in str(x) for x in fo.a)

    def isfile(t):
        return t is fo and h5 or t.k == "AT" and t.a[1] == "file" and (t.a[0] is fo or t.a[0] in (EXIST, DSET)) or t.k == "CL" and t.a[0] is EXT("h5py.File")

    def attr(b, name, st, ctx, n):
        if b in (EXIST, DSET) and name == "name":
            return [(C("/existing"), st)]
        if b is DSET and name in ("items", "keys", "values", "create_group", "create_dataset", "require_group", "require_dataset"):
            i.throw(mk("EXC", EXT("builtins.AttributeError"), (), NONE), st)
            return []
        return attr0(b, name, st, ctx, n) if attr0 else None

    def call(f, args, kws, st, ctx, n):
        if f.k == "AT":
            b, m = f.a
            if isfile(b) and m == "require_group" and target is DSET:
                i.throw(mk("EXC", EXT("builtins.TypeError"), (), NONE), st)
                return []
            if isfile(b) and m in ("get", "__getitem__", "require_group") and (args or kws):
                return [(target, st)]
            if isfile(b) and m in ("create_group",):
                i.throw(mk("EXC", EXT("builtins.ValueError"), (), NONE), st)
                return []
            if isfile(b) and m == "__contains__":
                return [(TRUE, st)]
            if b is EXIST:
                r = {"items": T(T(ITEM, S("item"))), "keys": T(ITEM), "values": T(S("item")), "__len__": C(1), "__iter__": T(ITEM), "__bool__": TRUE}.get(m)
                if r is not None:
                    return [(r, st)]
                if m == "get":
                    return [(args[1] if len(args) > 1 else NONE, st)]
                if m == "__contains__":
                    return [(FALSE, st)]
        if f.k == "EXT" and args and args[0] in (EXIST, DSET):
            r = {"builtins.len": C(1), "builtins.list": T(ITEM), "builtins.tuple": T(ITEM), "builtins.set": T(ITEM), "builtins.sorted": T(ITEM), "builtins.any": TRUE, "builtins.bool": TRUE,
                 "builtins.iter": T(ITEM)}.get(f.a[0])
            if r is not None:
                return [(r, st)]
        return None

    def item(b, idx, st, ctx, n):
        if isfile(b):
            return [(target, st)]

    def fork(t, st):
        x, neg = t, False
        while x.k == "NOT":
            x, neg = x.a[0], not neg
        r = None
        if x in (EXIST, DSET) or isfile(x):
            r = True
        elif x.k == "CMP" and x.a[0] in ("in", "not in") and x.a[2] is EXIST and is_c(x.a[1]):
            r = (x.a[1] is ITEM) == (x.a[0] == "in")
        elif x.k == "CMP" and x.a[0] in ("in", "not in") and isfile(x.a[2]):
            r = x.a[0] == "in"
        return None if r is None else r != neg
    i.model_attr, i.model_call, i.model_item, i.fork_hook = attr, call, item, fork
    i.model_iter = lambda v, st: (ITEM,) if v in (EXIST, DSET) else None


def asks(t):
    """condition that depends on an operation on the target the model does not know"""
    if from_loader(t) or any(x.k == "CL" and (manager(x) or x.a[0].k == "AT" and x.a[0].a[1] in MAKE) for x in subterms(t)):
        return False
    for x in subterms(t):
        if x.k == "AT" and x.a[0] in (EXIST, DSET) and x.a[1] not in ("attrs", "name", "id", "file", "parent", "ref"):
            return True
        if x.k == "AT" and x.a[0].k == "AT" and x.a[0].a[1] == "id" and x.a[0].a[0] in (EXIST, DSET):
            return True
        if x.k == "CL" and (x.a[0].k == "EXT" or x.a[0].k == "FN" and x.a[0].a[0].name != "create_pickled_dataset") and any(a in (EXIST, DSET) for a in x.a[1]):
            return True
    return False


def no_effect(rep, rule, subj, outs, fo, name, why):
    good = True
    for k, v, s in outs:
        asked = [t for t in s.facts if asks(t)]
        if asked:
            rep.unknown(rule, subj, "test of the target not understood: %s" % pp(asked[0], 4))
            good = False
            continue
        pl = places(s, fo, name)
        w = [x for x in pl.writes(s.events())]
        d = destructive(s, fo, pl)
        if w:
            good = False
            e, l, txt = w[0]
            rep.bad(rule, "dump: %s in %s" % (txt, e.loc[2]), "%s: %s, but %s is written before dump %s" % (subj, why, txt, "raises" if k == "X" else "returns"), e.loc, trace(s))
        elif d:
            good = False
            rep.bad(rule, "dump: %s in %s" % (d[0][0].key, d[0][0].loc[2]), "%s: %s, but dump %s" % (subj, why, d[0][1]), d[0][0].loc, trace(s))
        elif k != "X":
            good = False
            rep.bad(rule, "dump returns", "%s: %s, but dump returns normally" % (subj, why), None, trace(s))
    if good and outs:
        rep.ok(rule, subj)


def check_target(rep):
    for kind, name in [(k, None) for k in OPENED] + list(PASSED):
        for target, what in ((EXIST, "group"), (DSET, "dataset")):
            for mode in ("w", "x", "a", "r+", "ab+", None):
                for path in (C("/a"), C("/")):
                    if target is DSET and cval(path) == "/":
                        continue
                    subj = "dump(%s, mode=%r, path=%r)" % (kind.split(".")[-1], mode, cval(path))
                    with rep.guard("C10.target", subj):
                        i = interp()
                        i.raises = lambda *a: ()
                        fo, outs = run_dump(i, kind, C(mode) if mode else None, name, path, lambda i, fo: existing(i, fo, target))
                        rep.use(i)
                        rep.paths += len(outs)
                        no_effect(rep, "C10.target", subj + " on a %s with content" % what if target is EXIST else subj + " on a dataset", outs, fo, name,
                                  "the target is a %s%s" % (what, " with content" if target is EXIST else ""))


def check_readonly(rep):
    for kind, name in PASSED:
        for mode in MODES[:-2] + (None,):
            subj = "dump(read-only %s, mode=%r)" % (kind.split(".")[-1], mode)
            with rep.guard("C10.readonly", subj):
                def ro(i, fo):
                    attr0 = i.model_attr

                    def attr(b, nm, st, ctx, n):
                        if nm == "mode" and (b is fo or b.k == "AT" and b.a[1] == "file"):
                            return [(C("r"), st)]
                        return attr0(b, nm, st, ctx, n)
                    i.model_attr = attr
                i = interp()
                i.raises = lambda *a: ()
                fo, outs = run_dump(i, kind, C(mode) if mode else None, name, C("/a"), ro)
                rep.use(i)
                rep.paths += len(outs)
                no_effect(rep, "C10.readonly", subj, outs, fo, name, "the file is open read-only")


def check_delete(rep):
    """nothing the writers, the recursion and the managers do removes or replaces anything"""
    def judge(subj, outs, fo, bases):
        good = True
        for s in outs:
            pl = Places(bases)
            for e, txt in destructive(s, fo, pl):
                good = False
                rep.bad("C10.delete", "%s: %s in %s" % (subj, e.key if isinstance(e.key, str) else e.op, e.loc[2]), "%s %s" % (subj, txt), e.loc, trace(s))
            for e in opens(s):
                kw = kwmap(e)
                m = mode_of(e)
                if m == "r" or kw.get("driver") is C("core") and kw.get("backing_store") is FALSE:
                    continue
                if kw.get("driver") is not None and not is_c(kw["driver"]) or kw.get("backing_store") is not None and not is_c(kw["backing_store"]):
                    rep.unknown("C10.delete", subj, "file opened with unknown arguments")
                    good = False
                    continue
                good = False
                rep.bad("C10.delete", "%s: file opened in %s" % (subj, e.loc[2]), "%s opens %s on disk with mode %r" % (subj, pp(e.args[0], 4) if e.args else "a file", m), e.loc, trace(s))
        if good:
            rep.ok("C10.delete", "%s (%d paths)" % (subj, len(outs)))
    gb = {GRP: ("<file>", "<group>"), AT(GRP, "file"): ("<file>",), AT(GRP, "parent"): ("<file>", "<parent>")}
    i = interp()
    for create, cls in c20.writers(i).items():
        with rep.guard("C10.delete", create.a[0].fullname):
            i = interp()
            setup(i, {"pop", "clear", "remove", "unlink", "File"})
            paths, excs = writer(i, create, cls)
            rep.use(i)
            rep.paths += len(paths) + len(excs)
            judge(create.a[0].name, [p.st for p in paths] + [s for _, s in excs], GRP, gb)
    with rep.guard("C10.delete", "recursion"):
        i = interp()
        ps = dump_paths(i)
        rep.use(i)
        judge(roles(i, "dump")[0].a[0].name, [p.st for p in ps], GRP, gb)
    H = S("h_root_group", "h5py.Group")
    NODE = S("h_node", "h5py.Dataset")
    for cls in ("ReferenceManager", "LoaderManager"):
        with rep.guard("C10.delete", cls):
            i = interp()
            i.inline = lambda fi, st, ctx: fi.module in ("hickle.lookup", "hickle.helpers") and fi.name != "get_root"
            i.keep_fact = no_opaque
            i.max_outcomes = 20000
            i.raises = lambda *a: ()
            c02.models(i)
            C_ = find(i, "hickle.lookup", cls)
            f = i.attr(C_, "create_manager", state(i), top_ctx(i), NOWHERE)[0][0]
            st = state(i)
            args = [H]
            if cls == "LoaderManager":
                od, st = st.alloc(("in", "options"), HO("dict", None, (), (((C("custom"), TRUE),), ())))
                args = [H, FALSE, od]
            outs = run(i, f, args, [], st)
            rep.use(i)
            rep.paths += len(outs)
            sts = [s for _, _, s in outs]
            for k, v, s in outs:
                if k != "R" or v.k != "OBJ":
                    continue
                if cls == "ReferenceManager":
                    sts += [s2 for _, _, s2 in run(i, method(i, C_, "store_type"), [v, NODE, S("py_obj_type", "builtins.type"), S("base_type", "builtins.bytes")], [("", KW)], s)]
                ex = i.attr(v, "__exit__", s, top_ctx(i), NOWHERE)
                for fx, s1 in ex:
                    sts += [s2 for _, _, s2 in run(i, fx, [NONE, NONE, NONE], [], s1)]
            judge(cls, sts, H, {H: ("<file>", "<root group>"), NODE: ("<file>", "<node>"), c02.THEFILE: ("<file>",), AT(H, "file"): ("<file>",)})


def check(rep, tier):
    rep.rule("C10.mode", "the file is opened once, with exactly the mode requested")
    rep.rule("C10.target", "if the target is a dataset or a group with content dump raises and nothing is written before")
    rep.rule("C10.readonly", "a file open read-only is refused before anything is written")
    rep.rule("C10.delete", "nothing reachable from dump deletes, replaces or truncates")
    check_modes(rep)
    check_target(rep)
    check_readonly(rep)
    check_delete(rep)
