"""Abstract round trip of dict keys: the dict writer is interpreted on a dict with symbolic keys of
every kind (exact class known, content unknown); each node name, value and attribute it produces is
fed symbolically into the container of the reader, and the resulting key must rewrite to the very
key symbol. Path facts must show that no slash or NUL can reach a node name."""
import re
from ..handlers import *

NUMERIC = {"builtins.int": "0123456789-", "builtins.float": "0123456789-+.einfa", "builtins.complex": "0123456789-+.einfaj()"}
KINDS7 = ["builtins.str", "builtins.bytes", "builtins.int", "builtins.float", "builtins.complex"]
SUBCLASSES = {"user.StrSub": "builtins.str", "user.BytesSub": "builtins.bytes", "user.IntSub": "builtins.int",
              "user.FloatSub": "builtins.float", "user.ComplexSub": "builtins.complex"}
OTHERS = ["builtins.tuple", "builtins.frozenset", "user.Object", "numpy.generic", "numpy.float64", "numpy.int64", "numpy.str_", "numpy.bytes_", "numpy.longdouble", "builtins.range", "builtins.type",
          "decimal.Decimal", "fractions.Fraction", "uuid.UUID", "datetime.datetime", "datetime.date", "pathlib.Path", "enum.Enum", "types.FunctionType"]


def exact(st, sym, cls):
    """the symbol's class is known exactly"""
    st = st.setsym(sym, "__class__", EXT(cls))
    return st


def pattern(v):
    """compiled constant regular expression of a re.compile(...) term"""
    if v.k == "CL" and v.a[0] is EXT("re.compile") and v.a[1] and is_c(v.a[1][0]):
        try:
            return re.compile(cval(v.a[1][0]))
        except Exception:
            return None
    return None


def re_call(v):
    """(method, compiled pattern, args) of a regular expression call"""
    if v.k != "CL":
        return None
    f = v.a[0]
    if f.k == "AT":
        p = pattern(f.a[0])
        return (f.a[1], p, list(v.a[1])) if p is not None else None
    if f.k == "EXT" and f.a[0] in ("re.search", "re.sub", "re.match", "re.fullmatch") and v.a[1] and is_c(v.a[1][0]):
        try:
            return f.a[0][3:], re.compile(cval(v.a[1][0])), list(v.a[1][1:])
        except Exception:
            return None
    return None


def finds(p, ch):
    """pattern finds ch wherever it occurs"""
    try:
        b = isinstance(p.pattern, bytes)
        e = (lambda s: s.encode()) if b else (lambda s: s)
        return all(p.search(e(s)) for s in (ch, "a" + ch + "b", ch + "a", "a" + ch, "\n" + ch + "\n", "\\" + ch))
    except Exception:
        return False


def excluded(st, key, ch):
    """True: facts exclude ch from key, None: a fact about the key is not understood, False"""
    opaque = False
    for t, v in st.facts.items():
        if not any(x is key for x in subterms(t)):
            continue
        rc = re_call(t)
        if rc is None and t.k == "CMP" and t.a[0] == "is" and t.a[2] is NONE and re_call(t.a[1]):
            rc, v = re_call(t.a[1]), not v
        if rc is not None:
            if rc[0] == "search" and not v and finds(rc[1], ch):
                return True
            continue
        if t.k == "CMP" and t.a[0] == "in" and is_c(t.a[1]):
            c = cval(t.a[1])
            c = c.decode("latin1") if isinstance(c, bytes) else c
            if not v and c == ch:
                return True
            continue
        if t.k in ("CMP", "ISI") and any(x.k == "AT" and x.a[1] == "__class__" for x in subterms(t)) or t.k == "ISI" or t is key:
            continue
        opaque = True
    return None if opaque else False


def codec(c):
    c = cval(c) if isinstance(c, Node) and is_c(c) else c
    return str(c).lower().replace("-", "").replace("_", "")


def simplify(t, key, cls):
    """rewrite decode(encode(key)) to key"""
    if t.k in ("S", "C"):
        return t
    rc = re_call(t)
    if t.k == "CMP" and t.a[0] == "==":
        x, y = simplify(t.a[1], key, cls), simplify(t.a[2], key, cls)
        return C(cval(x) == cval(y)) if is_c(x) and is_c(y) else t
    if rc is not None and rc[0] == "sub" and len(rc[2]) >= 2:
        inner = simplify(rc[2][1], key, cls)
        if is_c(inner) and is_c(rc[2][0]):
            try:
                return C(rc[1].sub(cval(rc[2][0]), cval(inner)))
            except Exception:
                return t
        if inner.k in ("REPR", "STRF") and inner.a[0] is key and cls in NUMERIC and not any(rc[1].search(ch) for ch in NUMERIC[cls]):
            return inner
        return t
    if t.k == "CL" and t.a[0].k == "EXT" and len(t.a[1]) == 1:
        f, x = t.a[0].a[0], simplify(t.a[1][0], key, cls)
        if f == cls and (x is key or x.k in ("REPR", "STRF") and x.a[0] is key) and cls in NUMERIC:
            return key
        if f in ("ast.literal_eval", "builtins.eval") and x.k in ("REPR",) and x.a[0] is key and cls in ("builtins.int", "builtins.complex"):
            return key
        return mk("CL", t.a[0], (x,), t.a[2] if len(t.a) > 2 else ())
    if t.k in ("ENC", "DEC"):
        x = simplify(t.a[0], key, cls)
        if x.k in ("ENC", "DEC") and x.k != t.k and codec(x.a[1]) == codec(t.a[1]):
            return x.a[0]
        return t
    return t


LOSSY = {"strip", "lstrip", "rstrip", "lower", "upper", "replace", "split", "rsplit", "partition", "rpartition", "casefold", "title", "sub"}


def definite(t, key):
    """t is certainly not the key: built from it by known operations that change it, or without it"""
    for x in subterms(t):
        if x.k in ("TOP", "U"):
            return False
        if x.k == "CL":
            f = x.a[0]
            if f.k == "EXT" and f.a[0] in ("builtins.int", "builtins.float", "builtins.complex", "builtins.str", "builtins.bytes", "builtins.bool", "ast.literal_eval",
                                          "builtins.repr", "re.compile", "re.sub") or f.k == "EXT" and f.a[0].startswith("numpy.") and f.a[0][6:7] in "fisuc" or f.k == "EXT" and known_class(f.a[0]):
                continue
            if f.k == "AT" and f.a[1] in LOSSY:
                continue
            return False
    return True


def names_disjoint(a, b):
    """templates of node names (CAT parts / constants) cannot be equal"""
    def lead(t, cls):
        if is_c(t):
            return ("C", cval(t))
        if t.k == "CAT":
            p = t.a[1][0]
            if is_c(p):
                return ("P", cval(p))
        if t.k in ("REPR", "STRF") and cls in NUMERIC:
            return ("N", NUMERIC[cls])
        return None
    x, y = lead(*a), lead(*b)
    if x is None or y is None:
        return None
    if x[0] == "N" and y[0] == "N":
        return True                 # equal numbers are one key, different ones differ in repr
    if x[0] == "N":
        x, y = y, x
    s = x[1]
    if not isinstance(s, str) or not s:
        return None
    if y[0] == "N":
        return s[0] not in y[1] or x[0] == "C" and any(c not in y[1] for c in s)
    u = y[1]
    if x[0] == y[0] == "C":
        return s != u
    if x[0] == "C":
        return not s.startswith(u)
    if y[0] == "C":
        return not u.startswith(s)
    return not (s.startswith(u) or u.startswith(s))


def encode(i, row, keys, classes):
    """paths of the dict writer on a dict with these keys: [(items, state)] and exceptions"""
    st = state(i)
    for k, c in zip(keys, classes):
        if c:
            st = exact(st, k, c)
    d, st = st.alloc(("input", "dict"), HO("dict", None, (), (tuple((k, S("val%d" % n)) for n, k in enumerate(keys)), ())))
    paths, excs = [], []
    for k, v, s in run(i, row.create, [d, GRP, NAME], [("", KW)], st):
        items = seq_items(v, s) if k == "R" else None
        if not items or len(items) != 2:
            excs.append((v, s))
            continue
        for kk, els, s2, x in run_gen_collect(i, items[1], s):
            if kk in ("N", "R", "B"):
                paths.append(([sub_fields(e, s2) for e in els], s2))
            else:
                excs.append((x, s2))
    return paths, excs


def decode(i, row, fields, s):
    """[(kind, content list or exception, state)] of appending the items to the container"""
    out = []
    for k, c, s3 in run(i, row.container, [S("h_attrs", "h5py.AttributeManager"), row.tag, row.cls], [], s):
        if k == "X":
            out.append(("X", c, s3))
            continue
        todo = [("R", s3)]
        for name, obj, attrs, _ in fields:
            nxt = []
            for kk, s4 in todo:
                if kk != "R":
                    nxt.append((kk, s4))
                    continue
                m = i.attr(c, "append", s4, top_ctx(i), NOWHERE)[0][0]
                for k4, v, s5 in run(i, m, [name, obj, attrs], [], s4):
                    nxt.append(("R", s5) if k4 == "R" else (v, s5))
            todo = nxt
        for kk, s4 in todo:
            if kk != "R":
                out.append(("X", kk, s4))
                continue
            content = dict(s4.obj(c).attrs).get("_content")
            out.append(("R", seq_items(content, s4) if content is not None else None, s4))
    return out


def fresh():
    i = interp()
    i.inline = lambda fi, st, ctx: True
    i.keep_fact = None
    return i


def no_assumption(st):
    """no fact about the contents of the key was assumed on this path"""
    return not any(t.k != "ISI" and "key" in [x.a[0] for x in subterms(t) if x.k == "S"] for t in st.facts)


def check_key(rep, row, label, key, cls, plain):
    """plain: str/bytes/number/bool/None key, which must come back as itself; otherwise as the pair"""
    i = fresh()
    nb = len(rep.violations)
    paths, excs = encode(i, row, [key], [cls])
    rep.paths += len(paths)
    loc = (row.create.a[0].relpath, row.create.a[0].lineno, row.create.a[0].qual)
    names = []
    for exc, s in excs:
        if no_assumption(s):
            rep.bad("C07.roundtrip", "dict writer: key of class %s" % label, "the writer raises %s for every key of this class" % pp(exc, 3), loc)
    for fields, s in paths:
        if len(fields) != 1 or fields[0] is None:
            rep.bad("C07.roundtrip", "dict writer: key of class %s" % label, "an entry with such a key is stored as %d items" % len(fields), loc, trace(s))
            continue
        name, obj, attrs, _ = fields[0]
        names.append((name, cls))
        in_name = any(x is key for x in subterms(name)) and not is_c(key)
        if in_name and cls in ("builtins.str", "builtins.bytes"):
            for ch, nm in (("/", "slash"), ("\0", "NUL")):
                r = excluded(s, key, ch)
                if r is False:
                    rep.bad("C07.alphabet", "dict writer: %s in %s keys" % (nm, label), "a key containing a %s becomes part of a node name" % nm, loc)
                elif r is None:
                    rep.unknown("C07.alphabet", "%s in %s keys" % (nm, label), "condition not understood")
                else:
                    rep.ok("C07.alphabet", "%s in %s keys" % (nm, label))
        if in_name and cls in ("builtins.float", "builtins.complex"):
            r = [t for t in s.facts if any(x is key for x in subterms(t)) and re_call(t) is None and not any(x.k == "AT" and x.a[1] == "__class__" for x in subterms(t))]
            if not r:
                rep.bad("C07.distinct", "dict writer: NaN keys of class %s" % cls.split(".")[1], "two NaN keys of one dict are given the same node name", loc)
        if in_name and not plain:
            rep.bad("C07.roundtrip", "dict writer: key of class %s" % label, "a key of this class is encoded in the node name %s, which cannot restore its class" % pp(name, 4), loc)
            continue
        for k, content, s2 in decode(i, row, fields, s):
            if k == "X":
                if s2.facts == s.facts:
                    rep.bad("C07.roundtrip", "dict reader: key of class %s" % label, "the entry written for it (name %s) makes the reader raise %s" % (pp(name, 4), pp(content, 3)), loc)
                continue
            if content is None:
                rep.unknown("C07.roundtrip", label, "container content not a list")
                continue
            real = [x for x in content if not (x.k == "TUP" and not x.a)]
            if len(real) != 1 or len(content) != 1:
                rep.bad("C07.roundtrip", "dict reader: key of class %s" % label, "one entry is restored as %d entries (%s)" % (len(real), ", ".join(pp(x, 3) for x in content)), loc)
                continue
            pair = seq_items(real[0], s2)
            if pair is None or len(pair) != 2:
                rep.unknown("C07.roundtrip", label, "entry %s is not a pair" % pp(real[0], 4))
                continue
            got = simplify(pair[0], key, cls)
            if got is key or (is_c(key) and is_c(got) and type(cval(got)) is type(cval(key)) and cval(got) == cval(key)):
                if pair[1] is S("val0"):
                    rep.ok("C07.roundtrip", "%s via name %s" % (label, pp(name, 4)))
                else:
                    rep.bad("C07.roundtrip", "dict reader: value under key of class %s" % label, "restored value is %s" % pp(pair[1], 4), loc)
            elif definite(got, key):
                rep.bad("C07.roundtrip", "dict keys of class %s" % label, "written as %s with key_base_type %s, restored as %s" % (
                    pp(name, 5), pp(dict_of(attrs, s).get("key_base_type", NONE), 4) if dict_of(attrs, s) else "?", pp(got, 6)), loc)
            else:
                rep.unknown("C07.roundtrip", label, "cannot relate %s to the key" % pp(got, 5))
    rep.use(i)
    return names


def check(rep, tier):
    rep.rule("C07.roundtrip", "reader(writer(key)) rewrites to the key symbol, for every key class and path")
    rep.rule("C07.alphabet", "slash and NUL never become part of a node name")
    rep.rule("C07.distinct", "names of different keys differ")
    i = interp()
    for c, b in SUBCLASSES.items():
        BASES[c] = [b]
    dicts = [r for r in rows(i) if cname(r.cls) == "builtins.dict" and r.create.k == "FN"]
    if not dicts:
        raise Broken("no writer registered for dict")
    row = dicts[0]
    names = []
    cases = [(c.split(".")[1], S("key", c), c, True) for c in KINDS7]
    cases += [("bool " + str(b), C(b), None, True) for b in (True, False)] + [("None", NONE, None, True), ("Ellipsis", C(Ellipsis), None, True)]
    cases += [("subclass of " + b.split(".")[1], S("key", c), c, False) for c, b in SUBCLASSES.items()]
    cases += [(c, S("key", c), c, False) for c in OTHERS]
    for label, key, cls, plain in cases:
        with rep.guard("C07.roundtrip", label):
            for n in check_key(rep, row, label, key, cls, plain):
                names.append((label, n))
    with rep.guard("C07.distinct", "names"):
        uniq = {}
        for label, n in names:
            uniq.setdefault((n[0], n[1] if not is_c(n[0]) else None), label)
        ul = list(uniq.items())
        for a in range(len(ul)):
            for b in range(a):
                if ul[a][0][0] is ul[b][0][0] and is_c(ul[a][0][0]):
                    continue
                if ul[a][0][1] == ul[b][0][1] and not is_c(ul[a][0][0]) and not is_c(ul[b][0][0]):
                    continue
                r = names_disjoint(ul[a][0], ul[b][0])
                what = "%s / %s" % (pp(ul[a][0][0], 4), pp(ul[b][0][0], 4))
                if r is False:
                    rep.bad("C07.distinct", "dict writer: names of %s and %s keys" % (ul[a][1], ul[b][1]), "templates %s can coincide" % what,
                            (row.create.a[0].relpath, row.create.a[0].lineno, row.create.a[0].qual))
                elif r:
                    rep.ok("C07.distinct", what)
                else:
                    rep.unknown("C07.distinct", what, "templates not comparable")
    with rep.guard("C07.distinct", "pairs"):
        i = fresh()
        keys = [S("key", "user.Object"), S("key2", "user.Object")]
        paths, _ = encode(i, row, keys, ["user.Object"] * 2)
        for fields, s in paths:
            if len(fields) == 2 and fields[0][0] is fields[1][0]:
                rep.bad("C07.distinct", "dict writer: key/value pairs", "two entries get the same node name %s" % pp(fields[0][0]),
                        (row.create.a[0].relpath, row.create.a[0].lineno, row.create.a[0].qual))
            elif len(fields) == 2:
                rep.ok("C07.distinct", "names of two key/value pairs: %s, %s" % (pp(fields[0][0]), pp(fields[1][0])))
