"""Hash-consed terms: the abstract value domain (provenance terms with light normalisation)."""

class T:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return pp(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}


def mk(op, *a):
    k = (op,) + tuple([x.id if x.__class__ is T else ("r", x) for x in a])
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        _tab[k] = t
    return t


def I(v):
    return mk("int", int(v))


TRUE = I(1)
FALSE = I(0)
UNIT = mk("tuple")


def is_int(t):
    return t.op == "int"


def srt(a, b):
    # commutative ordering that does not depend on creation order
    ka, kb = pp(a), pp(b)
    return (a, b) if ka <= kb else (b, a)


# ---------------------------------------------------------------- projection
def project(t, key):
    op = t.op
    if op == "agg":
        # ('agg', adt, variant, names, vals...)
        names = t.a[2]
        if key in names:
            return t.a[3 + names.index(key)]
        if isinstance(key, tuple):
            return mk("field", t, key)
        return mk("bottom")
    if op == "tuple":
        if isinstance(key, str) and key.isdigit() and int(key) < len(t.a):
            return t.a[int(key)]
        return mk("field", t, key)
    if op == "closure":
        if isinstance(key, str) and key.isdigit() and int(key) + 1 < len(t.a):
            return t.a[int(key) + 1]
        return mk("field", t, key)
    if op == "array":
        if isinstance(key, tuple) and key[0] == "#" and is_int(key[1]) and key[1].a[0] < len(t.a):
            return t.a[key[1].a[0]]
        if isinstance(key, tuple) and key[0] == "sub" and key[1] == 0 and key[2] is None:
            return t
        return mk("field", t, key)
    if op == "repeat":
        if isinstance(key, tuple) and key[0] == "#":
            return t.a[0]
    if op == "upd":
        base = t.a[0]
        for k, v in t.a[1]:
            if k == key:
                return v
        return project(base, key)
    if op == "ite":
        return mk_ite(t.a[0], project(t.a[1], key), project(t.a[2], key))
    if op == "bottom":
        return t
    if op == "ref":
        return t   # Box/Unique/NonNull internals: still the same pointer
    return mk("field", t, key)


def kid(k):
    if isinstance(k, tuple):
        return ("t",) + tuple(kid(x) for x in k)
    if k.__class__ is T:
        return ("T", k.id)
    return (k.__class__.__name__, k)


class PairList(tuple):
    """tuple of (key, term); hashable through ids"""
    __slots__ = ()

    def __hash__(self):
        return hash(tuple((k, v.id) for k, v in self))

    def __eq__(self, o):
        return len(self) == len(o) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(self, o))

    def __ne__(self, o):
        return not self == o


WIDTH = {"<impl u16>::to_le_bytes": 2, "<impl u32>::to_le_bytes": 4, "<impl u64>::to_le_bytes": 8}


def join_bytes(pairs):
    """bytes of one number written one after the other are that number's bytes written at once"""
    at = {}
    for k, v in pairs:
        i = k[1] if isinstance(k, tuple) and len(k) == 2 and k[0] == "#" else None
        i = i.a[0] if i.__class__ is T and is_int(i) else i
        if isinstance(i, int):
            at[i] = (k, v)
    gone, new = [], []
    for i, (k, v) in at.items():
        if not (v.op == "field" and isinstance(v.a[1], tuple) and v.a[1][0] == "#" and v.a[1][1] in (0, I(0)) and v.a[0].op == "call"):
            continue
        c = v.a[0]
        n = next((w for s, w in WIDTH.items() if str(c.a[0]).endswith(s)), None)
        if n and all(i + j in at and at[i + j][1].op == "field" and at[i + j][1].a[0] is c and at[i + j][1].a[1] in (("#", j), ("#", I(j))) for j in range(n)):
            gone += [at[i + j][0] for j in range(n)]
            new.append((("sub", i, i + n), c))
    return [(k, v) for k, v in pairs if k not in gone] + new


def mk_upd(base, pairs):
    pairs = [(k, v) for k, v in pairs if not (v.op == "field" and v.a[0] is base and v.a[1] == k)]
    if not pairs:
        return base
    if len(pairs) > 1:
        pairs = join_bytes(pairs)
    pl = PairList(sorted(pairs, key=lambda kv: repr(kid(kv[0]))))
    return mk("upd", base, pl)


def set_field(t, path, v):
    if not path:
        return v
    key, rest = path[0], path[1:]
    nv = set_field(project(t, key), rest, v) if rest else v
    op = t.op
    if op == "agg":
        names = t.a[2]
        if key in names:
            i = 3 + names.index(key)
            return mk("agg", *(t.a[:i] + (nv,) + t.a[i + 1:]))
    if op == "tuple" and isinstance(key, str) and key.isdigit() and int(key) < len(t.a):
        i = int(key)
        return mk("tuple", *(t.a[:i] + (nv,) + t.a[i + 1:]))
    if op == "closure" and isinstance(key, str) and key.isdigit() and int(key) + 1 < len(t.a):
        i = int(key) + 1
        return mk("closure", *(t.a[:i] + (nv,) + t.a[i + 1:]))
    if op == "array" and isinstance(key, tuple) and key[0] == "#" and is_int(key[1]) and key[1].a[0] < len(t.a):
        i = key[1].a[0]
        return mk("array", *(t.a[:i] + (nv,) + t.a[i + 1:]))
    if op == "upd":
        pairs = [(k, x) for k, x in t.a[1] if k != key and not _alias(k, key)]
        return mk_upd(t.a[0], pairs + [(key, nv)])
    return mk_upd(t, [(key, nv)])


def _alias(k1, k2):
    if isinstance(k1, tuple) and isinstance(k2, tuple) and k1[0] == "#" and k2[0] == "#":
        return not (is_int(k1[1]) and is_int(k2[1]))
    return False


# ---------------------------------------------------------------- booleans / comparisons
def mk_not(a):
    if is_int(a):
        return FALSE if a.a[0] else TRUE
    if a.op == "Not":
        return a.a[0]
    return mk("Not", a)


def mk_and(a, b):
    if is_int(a):
        return b if a.a[0] else FALSE
    if is_int(b):
        return a if b.a[0] else FALSE
    if a is b:
        return a
    return mk("And", a, b)


def mk_or(a, b):
    return mk_not(mk_and(mk_not(a), mk_not(b)))


def same_bytes(t):
    """bytes turned into an array of their length are the same bytes"""
    while t.op == "field" and t.a[1] == "Ok.0" and t.a[0].op == "call" and t.a[0].a[0] == "try_into":
        t = t.a[0].a[2]
    return t


def mk_eq(a, b):
    if a is b:
        return TRUE
    if a.op == "pubkey_of" or b.op == "pubkey_of":
        a, b = (same_bytes(x.a[0]) if x.op == "pubkey_of" else mk("bytes_of", x) for x in (a, b))
    elif a.op == "bytes_of" or b.op == "bytes_of":
        a, b = same_bytes(a), same_bytes(b)
    if a is b:
        return TRUE
    if is_int(a) and is_int(b):
        return TRUE if a.a[0] == b.a[0] else FALSE
    if is_int(a):
        a, b = b, a
    if is_int(b) and isboolish(a):
        return a if b.a[0] == 1 else (mk_not(a) if b.a[0] == 0 else FALSE)
    if a.op == "ite" and is_int(b) and (is_int(a.a[1]) or is_int(a.a[2])):
        return mk_ite(a.a[0], mk_eq(a.a[1], b), mk_eq(a.a[2], b))
    if a.op in ("agg",) and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] != b.a[1]:
        return FALSE
    if a.op in ("bytes", "str") and b.op == a.op:
        return FALSE
    if not is_int(b):
        a, b = srt(a, b)
    return mk("Eq", a, b)


BOOLOPS = {"Not", "And", "Eq", "Lt", "in", "ovf"}


def isboolish(t):
    return t.op in BOOLOPS or (t.op == "ite" and isboolish2(t.a[1]) and isboolish2(t.a[2]))


def isboolish2(t):
    return t.op in BOOLOPS or (is_int(t) and t.a[0] in (0, 1))


def mk_lt(a, b):
    if a is b:
        return FALSE
    if is_int(a) and is_int(b):
        return TRUE if a.a[0] < b.a[0] else FALSE
    # unsigned normalisation: x < 1 == (x == 0); 0 < x == (x != 0)
    if is_int(b) and b.a[0] == 1:
        return mk_eq(a, I(0))
    if is_int(b) and b.a[0] == 0:
        return FALSE
    if is_int(a) and a.a[0] == 0:
        return mk_not(mk_eq(b, I(0)))
    return mk("Lt", a, b)


def mk_in(x, vals):
    vals = frozenset(vals)
    if is_int(x):
        return TRUE if x.a[0] in vals else FALSE
    if len(vals) == 1 and x.op != "discr":
        return mk_eq(x, I(next(iter(vals))))
    return mk("in", x, vals)


def mk_ite(c, a, b):
    if a is b:
        return a
    if is_int(c):
        return a if c.a[0] else b
    if c.op == "Not":
        return mk_ite(c.a[0], b, a)
    if is_int(a) and is_int(b):
        if a.a[0] == 1 and b.a[0] == 0:
            return c
        if a.a[0] == 0 and b.a[0] == 1:
            return mk_not(c)
    if isboolish(a) and is_int(b) and b.a[0] == 0:
        return mk_and(c, a)
    if isboolish(b) and is_int(a) and a.a[0] == 0:
        return mk_and(mk_not(c), b)
    if isboolish(b) and is_int(a) and a.a[0] == 1:
        return mk_or(c, b)
    if isboolish(a) and is_int(b) and b.a[0] == 1:
        return mk_or(mk_not(c), a)
    # min / max
    if c.op == "Lt":
        x, y = c.a
        if a is x and b is y:
            return mk("min", *srt(x, y))
        if a is y and b is x:
            return mk("max", *srt(x, y))
        # x < y ? y - x : 0
        if is_int(b) and b.a[0] == 0 and a.op == "Sub" and a.a[0] is y and a.a[1] is x:
            return mk("ssub", y, x)
        if is_int(a) and a.a[0] == 0 and b.op == "Sub" and b.a[0] is x and b.a[1] is y:
            return mk("ssub", x, y)
    # x == 0 ? 0 : x  -> x
    if c.op == "Eq" and is_int(c.a[1]):
        if a is c.a[1] and b is c.a[0]:
            return b
        # x == 0 ? 1 : x  -> max(x, 1)   (unsigned)
        if c.a[1].a[0] == 0 and is_int(a) and a.a[0] == 1 and b is c.a[0] and not isboolish(b):
            return mk("max", *srt(b, a))
    if c.op == "in":
        pass
    # nested collapse
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk("ite", c, a, b)


def merge_val(c, a, b):
    if a is b:
        return a
    if a.op == "agg" and b.op == "agg" and a.a[:3] == b.a[:3]:
        return mk("agg", *(a.a[:3] + tuple(merge_val(c, x, y) for x, y in zip(a.a[3:], b.a[3:]))))
    if a.op == b.op and a.op in ("tuple",) and len(a.a) == len(b.a):
        return mk(a.op, *[merge_val(c, x, y) for x, y in zip(a.a, b.a)])
    if a.op == "closure" and b.op == "closure" and a.a[0] == b.a[0] and len(a.a) == len(b.a):
        return mk("closure", a.a[0], *[merge_val(c, x, y) for x, y in zip(a.a[1:], b.a[1:])])
    ab = a.a[0] if a.op == "upd" else a
    bb = b.a[0] if b.op == "upd" else b
    if ab is bb and (a.op == "upd" or b.op == "upd"):
        ka = dict(a.a[1]) if a.op == "upd" else {}
        kb = dict(b.a[1]) if b.op == "upd" else {}
        keys = set(ka) | set(kb)
        return mk_upd(ab, [(k, merge_val(c, ka[k] if k in ka else project(ab, k), kb[k] if k in kb else project(ab, k))) for k in keys])
    return mk_ite(c, a, b)


def sub_(t, m, cache=None):
    """substitute terms by map id->term"""
    if cache is None:
        cache = {}
    r = m.get(t.id)
    if r is not None:
        return r
    r = cache.get(t.id)
    if r is not None:
        return r
    ch = False
    na = []
    for x in t.a:
        if x.__class__ is T:
            y = sub_(x, m, cache)
            ch = ch or y is not x
            na.append(y)
        elif isinstance(x, PairList):
            y = PairList((k, sub_(v, m, cache)) for k, v in x)
            ch = ch or y != x
            na.append(y)
        else:
            na.append(x)
    r = rebuild(t.op, na) if ch else t
    cache[t.id] = r
    return r


def rebuild(op, a):
    if op == "ite":
        return mk_ite(*a)
    if op == "field":
        return project(*a)
    if op == "And":
        return mk_and(*a)
    if op == "Not":
        return mk_not(*a)
    if op == "Eq":
        return mk_eq(*a)
    if op == "Lt":
        return mk_lt(*a)
    if op in ("Add", "Sub", "Mul", "Div", "Rem"):
        return arith(op, *a)
    if op == "in":
        return mk_in(*a)
    if op == "upd":
        t = a[0]
        if t.op in ("agg", "tuple", "closure", "array", "upd"):
            for k, v in a[1]:
                if t.op == "agg" and isinstance(k, str) and "." in k and k.split(".")[0] != t.a[1] and k not in t.a[2]:
                    continue       # field of a variant the value is known not to be
                t = set_field(t, (k,), v)
            return t
        return mk_upd(t, a[1])
    return mk(op, *a)


def walk(t, seen=None):
    """all subterms"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for y in x.a:
            if y.__class__ is T:
                st.append(y)
            elif isinstance(y, PairList):
                st.extend(v for _, v in y)
            elif isinstance(y, tuple):
                st.extend(_tk(y))


def _tk(y):
    for z in y:
        if z.__class__ is T:
            yield z
        elif isinstance(z, tuple):
            yield from _tk(z)


# ---------------------------------------------------------------- arithmetic
def arith(op, a, b):
    if is_int(a) and is_int(b):
        x, y = a.a[0], b.a[0]
        if op == "Add":
            return I(x + y)
        if op == "Sub":
            return I(x - y)
        if op == "Mul":
            return I(x * y)
        if op == "Div" and y:
            return I(x // y)
        if op == "Rem" and y:
            return I(x % y)
        if op == "Shl":
            return I((x << y) & ((1 << 64) - 1))
        if op == "Shr":
            return I(x >> y)
        if op == "BitAnd":
            return I(x & y)
        if op == "BitOr":
            return I(x | y)
        if op == "BitXor":
            return I(x ^ y)
    if op == "Add":
        if is_int(a) and a.a[0] == 0:
            return b
        if is_int(b) and b.a[0] == 0:
            return a
        a, b = srt(a, b)
    elif op == "Sub":
        if is_int(b) and b.a[0] == 0:
            return a
        if a is b:
            return I(0)
    elif op == "Mul":
        if (is_int(a) and a.a[0] == 0) or (is_int(b) and b.a[0] == 0):
            return I(0)
        if is_int(a) and a.a[0] == 1:
            return b
        if is_int(b) and b.a[0] == 1:
            return a
        a, b = srt(a, b)
    elif op == "Div":
        if is_int(b) and b.a[0] == 1:
            return a
    elif op == "BitAnd" and isboolish2(a) and isboolish2(b):
        return mk_and(a, b)
    elif op == "BitOr" and isboolish2(a) and isboolish2(b):
        return mk_or(a, b)
    elif op in ("BitAnd", "BitOr", "BitXor"):
        a, b = srt(a, b)
    return mk(op, a, b)


def poly(t):
    """polynomial normal form over atoms: {monomial(tuple of atom ids sorted): coeff}"""
    r = _poly_cache.get(t.id)
    if r is None:
        r = _poly(t)
        _poly_cache[t.id] = r
    return r


_poly_cache = {}


def _poly(t):
    if is_int(t):
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "Add":
        return padd(poly(t.a[0]), poly(t.a[1]), 1)
    if t.op == "Sub":
        return padd(poly(t.a[0]), poly(t.a[1]), -1)
    if t.op == "Mul":
        return pmul(poly(t.a[0]), poly(t.a[1]))
    return {(t,): 1}


def padd(p, q, s):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0) + s * v
        if r[k] == 0:
            del r[k]
    return r


def pmul(p, q):
    r = {}
    for k1, v1 in p.items():
        for k2, v2 in q.items():
            k = tuple(sorted(k1 + k2, key=lambda t: t.id))
            r[k] = r.get(k, 0) + v1 * v2
            if r[k] == 0:
                del r[k]
    return r


def peq(a, b):
    return a is b or poly(a) == poly(b)


# ---------------------------------------------------------------- printing
def pk(k):
    if isinstance(k, tuple):
        if k[0] == "#":
            return "[%s]" % pp(k[1])
        if k[0] == "cast":
            return " as " + str(k[1]).split("::")[-1]
        if k[0] == "sub":
            return "[%s..%s]" % (_x(k[1]), _x(k[2]))
        return str(k)
    return "." + str(k)


def _x(v):
    if v.__class__ is T:
        return pp(v)
    return "" if v is None else str(v)


_ppc = {}


def pp(t):
    r = _ppc.get(t.id)
    if r is None:
        r = _pp(t)
        if len(r) > 4000:
            import hashlib
            r = r[:3900] + "~" + hashlib.sha1(r.encode()).hexdigest()[:12]
        _ppc[t.id] = r
    return r


def _pp(t):
    op = t.op
    if op == "int":
        return str(t.a[0])
    if op in ("str", "bytes"):
        return repr(t.a[0])
    if op == "field":
        return pp(t.a[0]) + pk(t.a[1])
    if op == "load":
        return "*" + pp(t.a[0])
    if op == "ref":
        return "&" + _root(t.a[0]) + "".join(pk(k) for k in t.a[1])
    if op == "agg":
        nm = t.a[0].split("::")[-1]
        v = t.a[1]
        return "%s%s{%s}" % (nm, "::" + v if v else "", ", ".join("%s:%s" % (n.split(".")[-1], pp(x)) for n, x in zip(t.a[2], t.a[3:])))
    if op == "tuple":
        return "(%s)" % ", ".join(pp(x) for x in t.a)
    if op == "array":
        return "[%s]" % ", ".join(pp(x) for x in t.a)
    if op == "discr":
        return "discr(%s)" % pp(t.a[0])
    if op == "in":
        return "%s in %s" % (pp(t.a[0]), sorted(t.a[1]))
    if op == "upd":
        return "%s{%s}" % (pp(t.a[0]), ", ".join("%s=%s" % (pk(k), pp(v)) for k, v in t.a[1]))
    if op == "call":
        return "%s(%s)%s" % ("::".join(str(t.a[0]).split("::")[-2:]), ", ".join(_x(x) for x in t.a[2:]), "#%s" % t.a[1] if t.a[1] else "")
    if op == "closure":
        return "closure<%s>" % t.a[0].split("::", 1)[-1]
    if op == "ite":
        return "(%s ? %s : %s)" % tuple(pp(x) for x in t.a)
    if op in ("Add", "Sub", "Mul", "Div", "Rem", "Lt", "Eq", "And"):
        s = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "Rem": "%", "Lt": "<", "Eq": "==", "And": "&&"}[op]
        return "(%s %s %s)" % (pp(t.a[0]), s, pp(t.a[1]))
    if op == "Not":
        return "!%s" % pp(t.a[0])
    if op == "arg":
        return str(t.a[0])
    return "%s(%s)" % (op, ", ".join(_x(x) for x in t.a))


def _root(r):
    if r[0] == "D":
        return "*" + pp(r[1])
    if r[0] == "V":
        return "val(" + pp(r[1]) + ")"
    return "%s%s" % (r[0], "_".join(str(x) for x in r[1:]))
