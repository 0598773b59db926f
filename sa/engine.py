"""Path-sensitive, interprocedural dataflow over the MIR dump.

Every local function is inlined at its call sites unless the analysis declares it opaque, so
extracting or merging helpers does not change what the analysis sees.  A state is
(store: root -> provenance term, facts: what the branches taken so far established, events:
the opaque/external calls made so far).  States that meet again with the same events and with
facts differing in one branch are merged exactly (values become if-then-else terms), so pure
diamonds do not multiply paths.  A loop is summarised: everything its body modifies is replaced
by a `loop(init)` term, and one arbitrary iteration is analysed.  Nothing is executed and no
solver is asked; infeasible branches are pruned only by facts already established on the path.
"""
import heapq
import json
import re
import sys
from terms import *

sys.setrecursionlimit(20000)


class Limit(Exception):
    pass


class Event:
    __slots__ = ("name", "fn", "args", "vals", "res", "site", "span", "facts", "stack", "inner", "n", "store", "src", "left", "kind", "found", "hit")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def __repr__(self):
        return "%s(%s) @%s" % (self.name, ", ".join(map(repr, self.vals or [])), self.span)


class St:
    __slots__ = ("store", "facts", "ev", "fh")

    def __init__(self):
        self.store = {}
        self.facts = {}
        self.ev = None
        self.fh = 0

    def copy(self):
        s = St()
        s.store = dict(self.store)
        s.facts = self.facts
        s.ev = self.ev
        s.fh = self.fh
        return s

    def events(self):
        r = []
        e = self.ev
        while e is not None:
            r.append(e[1])
            e = e[0]
        r.reverse()
        return r

    def setfact(self, k, v):
        f = dict(self.facts)
        o = f.get(k)
        if o is not None:
            self.fh ^= hash((k.id, o))
        f[k] = v
        self.fh ^= hash((k.id, v))
        self.facts = f


def strip_generics(p):
    """std::option::Option::<T>::map -> std::option::Option::map"""
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p.startswith("::<", i) and not p.startswith("::<impl", i):
            d = 0
            j = i + 2
            while j < n:
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


class Body:
    pass


class Program:
    def __init__(self, path):
        j = json.load(open(path))
        self.types = j["types"]
        self.adts = j["adts"]
        self.impls = j["impls"]
        self.raw = j["bodies"]
        self.lib = j.get("library", {})
        self._bodies = {}
        self._sp = {}
        self.by_name = {}
        for k, b in self.raw.items():
            self.by_name.setdefault(b["name"], []).append(k)
        # trait -> method -> [(self type id, def)]
        self.tm = {}
        for im in self.impls:
            for n, d in im["items"]:
                self.tm.setdefault((im["trait"], n), []).append((im["args"][0], d))
        self.newtypes = set()
        for p, a in self.adts.items():
            if a["local"] and a["kind"] == "struct":
                fs = a["variants"][0]["fields"]
                if len(fs) == 1 and self.types[fs[0][1]]["k"] in ("uint", "int"):
                    self.newtypes.add(p)
        self.discr = {}
        for p, a in self.adts.items():
            if a["kind"] == "enum":
                m = {}
                for i, v in enumerate(a["variants"]):
                    if p == "core::cmp::Ordering" and v["discr"] == "255":
                        v["discr"] = "-1"
                    m[i] = int(v["discr"])
                self.discr[p] = m

    def vname(self, adt, vi):
        return self.adts[adt]["variants"][vi]["name"]

    def variants(self, adt):
        """name -> discriminant"""
        return {v["name"]: int(v["discr"]) for v in self.adts[adt]["variants"]}

    def ty(self, i):
        return self.types[i]

    def deref_ty(self, i):
        t = self.types[i]
        while t["k"] in ("ref", "ptr"):
            i = t["t"]
            t = self.types[i]
        return i

    def find(self, name, adt=None, trait=None, path=None):
        r = []
        for k in self.by_name.get(name, []):
            b = self.raw[k]
            if b["kind"] not in ("Fn", "AssocFn"):
                continue
            if adt is not None and not (b.get("impl_adt", "").endswith("::" + adt)):
                continue
            if trait is not None and not (b.get("impl_trait", "").endswith("::" + trait) or b.get("trait_default", "").endswith("::" + trait)):
                continue
            if path is not None and path not in k and path not in b["path"]:
                continue
            r.append(k)
        return r

    def one(self, name, **kw):
        r = self.find(name, **kw)
        if len(r) != 1:
            raise MissingAnchor("expected exactly one function %s %s, found %s" % (name, kw, r))
        return r[0]

    # -------------------------------------------------- body preprocessing
    def body(self, key, promoted=None):
        k = (key, promoted)
        b = self._bodies.get(k)
        if b is None:
            raw = self.raw.get(key) or self.lib[key]
            rb = raw["body"] if promoted is None else raw["promoted"][promoted]
            b = self._prep(key, promoted, rb, raw)
            self._bodies[k] = b
        return b

    def _place(self, rb, p):
        """-> (local, projs, typeid)"""
        ti = rb["locals"][p[0]]
        t = self.types[ti]
        projs = []
        variant = None
        for e in p[1:]:
            k = e[0]
            if k == "*":
                projs.append("*")
                if t["k"] in ("ref", "ptr"):
                    ti = t["t"]
                elif t["k"] == "adt" and t.get("args"):
                    ti = t["args"][0]
                t = self.types[ti]
                variant = None
            elif k == "d":
                variant = e[1]
            elif k == "f":
                if t["k"] == "adt":
                    a = self.adts[t["def"]]
                    vi = variant if variant is not None else 0
                    fname = a["variants"][vi]["fields"][e[1]][0]
                    if a["kind"] == "enum":
                        projs.append(a["variants"][vi]["name"] + "." + fname)
                    elif t["def"] in self.newtypes:
                        pass
                    else:
                        projs.append(fname)
                else:
                    projs.append(str(e[1]))
                ti = e[2]
                t = self.types[ti]
                variant = None
            elif k == "i":
                projs.append(("idx", e[1]))
                ti = t.get("t", 0)
                t = self.types[ti]
            elif k == "c":
                projs.append(("#", I(e[1])) if not e[3] else ("#end", e[1]))
                ti = t.get("t", 0)
                t = self.types[ti]
            elif k == "s":
                projs.append(("sub", e[1], None if e[2] == 0 and e[3] else (("-", e[2]) if e[3] else e[2])))
            else:
                projs.append(("?",))
        return (p[0], tuple(projs), ti)

    def _operand(self, rb, o):
        if o[0] == "p":
            return ("p", self._place(rb, o[1]))
        if o[0] == "k":
            return ("k", o[1])
        return ("rc",)

    def _prep(self, key, promoted, rb, raw):
        b = Body()
        b.key = key
        b.promoted = promoted
        b.raw = raw
        b.argc = rb["argc"]
        b.locals = rb["locals"]
        b.spread = rb["spread"]
        b.names = {}
        for n, p in rb["names"]:
            if len(p) == 1:
                b.names[p[0]] = n
        b.blocks = []
        for bl in rb["blocks"]:
            if bl["cleanup"]:
                b.blocks.append(None)
                continue
            st = []
            for s in bl["s"]:
                if s[0] == "=":
                    r = s[2]
                    k = r[0]
                    if k == "use":
                        rv = ("use", self._operand(rb, r[1]))
                    elif k == "rep":
                        rv = ("rep", self._operand(rb, r[1]), r[2])
                    elif k == "ref":
                        rv = ("ref", self._place(rb, r[1]), r[2])
                    elif k == "cast":
                        o = self._operand(rb, r[2])
                        rv = ("cast", r[1], o, r[3], self._opty(rb, o))
                    elif k == "bin":
                        o1 = self._operand(rb, r[2])
                        rv = ("bin", r[1], o1, self._operand(rb, r[3]), self._opty(rb, o1))
                    elif k == "un":
                        o = self._operand(rb, r[2])
                        rv = ("un", r[1], o, self._opty(rb, o))
                    elif k == "discr":
                        rv = ("discr", self._place(rb, r[1]))
                    elif k == "agg":
                        rv = ("agg", r[1], [self._operand(rb, x) for x in r[2]])
                    else:
                        rv = ("other", r)
                    st.append(("=", self._place(rb, s[1]), rv, s[3]))
                elif s[0] == "sd":
                    st.append(("sd", self._place(rb, s[1]), s[2]))
            t = bl["t"]
            if t[0] == "switch":
                tt = ("switch", self._operand(rb, t[1]), [(int(v), tg) for v, tg in t[2]], t[3], t[4], t[5])
            elif t[0] == "call":
                tt = ("call", self._operand(rb, t[1]), [self._operand(rb, x) for x in t[2]], self._place(rb, t[3]), t[4], t[5], t[6], t[7])
            elif t[0] == "assert":
                tt = ("assert", self._operand(rb, t[1]), t[2], t[3], t[4], t[5])
            elif t[0] == "drop":
                tt = ("goto", t[2])
            else:
                tt = tuple(t)
            b.blocks.append((st, tt))
        self._cfg(b)
        return b

    def _opty(self, rb, o):
        if o[0] == "p":
            return o[1][2]
        if o[0] == "k":
            return o[1].get("t")
        return None

    def succs(self, b, i):
        bl = b.blocks[i]
        if bl is None:
            return []
        t = bl[1]
        if t[0] == "goto":
            return [t[1]]
        if t[0] == "switch":
            return [x for _, x in t[2]] + [t[3]]
        if t[0] == "call":
            return [t[4]] if t[4] is not None else []
        if t[0] == "assert":
            return [t[4]]
        return []

    def _cfg(self, b):
        n = len(b.blocks)
        order = []
        seen = [0] * n
        # iterative DFS postorder; drop edges into unwind blocks
        stack = [(0, iter(self.succs(b, 0)))]
        seen[0] = 1
        back = set()
        onst = {0}
        while stack:
            x, it = stack[-1]
            for y in it:
                if b.blocks[y] is None:
                    continue
                if not seen[y]:
                    seen[y] = 1
                    stack.append((y, iter(self.succs(b, y))))
                    onst.add(y)
                    break
                elif y in onst:
                    back.add((x, y))
            else:
                order.append(x)
                onst.discard(x)
                stack.pop()
        order.reverse()
        b.rpo = {x: i for i, x in enumerate(order)}
        preds = {x: [] for x in order}
        for x in order:
            for y in self.succs(b, x):
                if y in preds:
                    preds[y].append(x)
        b.loops = {}
        for (x, h) in back:
            body = b.loops.setdefault(h, {h})
            st = [x]
            while st:
                y = st.pop()
                if y in body:
                    continue
                body.add(y)
                st.extend(preds[y])
        # liveness
        use = {}
        deff = {}
        addr = set()

        def uop(o, u):
            if o[0] == "p":
                u.add(o[1][0])
                for pj in o[1][1]:
                    if isinstance(pj, tuple) and pj[0] == "idx":
                        u.add(pj[1])

        def upl(p, u):
            u.add(p[0])
            for pj in p[1]:
                if isinstance(pj, tuple) and pj[0] == "idx":
                    u.add(pj[1])

        for i in order:
            ups, dfs = set(), set()
            sts, t = b.blocks[i]
            for s in sts:
                u = set()
                d = None
                if s[0] == "=":
                    rv = s[2]
                    if rv[0] in ("use", "rep"):
                        uop(rv[1], u)
                    elif rv[0] == "ref":
                        upl(rv[1], u)
                        if "*" not in rv[1][1]:
                            addr.add(rv[1][0])
                    elif rv[0] == "cast":
                        uop(rv[2], u)
                    elif rv[0] == "bin":
                        uop(rv[2], u)
                        uop(rv[3], u)
                    elif rv[0] == "un":
                        uop(rv[2], u)
                    elif rv[0] == "discr":
                        upl(rv[1], u)
                    elif rv[0] == "agg":
                        for o in rv[2]:
                            uop(o, u)
                    if s[1][1]:
                        upl(s[1], u)
                    else:
                        d = s[1][0]
                else:
                    upl(s[1], u)
                ups |= u - dfs
                if d is not None:
                    dfs.add(d)
            u = set()
            d = None
            if t[0] == "switch" or t[0] == "assert":
                uop(t[1], u)
            elif t[0] == "call":
                uop(t[1], u)
                for o in t[2]:
                    uop(o, u)
                if t[3][1]:
                    upl(t[3], u)
                else:
                    d = t[3][0]
            elif t[0] == "return":
                u.add(0)
            ups |= u - dfs
            if d is not None:
                dfs.add(d)
            use[i] = ups
            deff[i] = dfs
        live = {i: set() for i in order}
        ch = True
        while ch:
            ch = False
            for i in reversed(order):
                out = set()
                for y in self.succs(b, i):
                    if y in live:
                        out |= live[y]
                n_ = use[i] | (out - deff[i])
                if n_ != live[i]:
                    live[i] = n_
                    ch = True
        b.live = live
        b.addr = addr


class MissingAnchor(Exception):
    pass


class CallInfo:
    __slots__ = ("fn", "args", "tys", "dty", "site", "span", "path", "stack", "depth", "tenv")


class Path:
    __slots__ = ("kind", "st", "ret", "stack", "span", "why", "loop", "it")

    def __init__(self, kind, st, ret=None, stack=(), span=None, why=None):
        self.kind = kind
        self.st = st
        self.ret = ret
        self.stack = stack
        self.span = span
        self.why = why
        self.loop = None      # back path of a loop: (site, frame, function, state at the loop head, marker)
        self.it = None        # back path of an iterator consumed as a whole: the same

    @property
    def facts(self):
        return self.st.facts

    def events(self):
        return self.st.events()


class Engine:
    def __init__(self, prog, opaque=None, watch=None, max_states=200000, dead_errors=False):
        self.p = prog
        self.opaque = opaque or (lambda eng, fn, key: False)
        self.watch = watch or (lambda fn, key: False)
        self.ends = []
        self.quiet = 0
        self.nfid = 0
        self.steps = 0
        self.max_steps = 6_000_000
        self.sites = {}
        self.siteinfo = {}
        self.unknown = {}
        self.inlined = set()
        self.max_depth = 60
        self.loop_ctx = 0
        self.nev = 0
        self.tenvs = {}
        import models
        self.models = models

    # ------------------------------------------------------------ helpers
    def site(self, stack, bb):
        k = (stack, bb)
        r = self.sites.get(k)
        if r is None:
            r = len(self.sites) + 1
            self.sites[k] = r
            self.siteinfo[r] = k
        return r

    def made_within(self, t, inside):
        """t names an element drawn by an iteration at a place for which inside(stack, block) holds"""
        for x in walk(t):
            if x.op in ("elem", "elemkey", "elemval") and isinstance(x.a[-1], int):
                k = self.siteinfo.get(x.a[-1])
                while k is not None and k[0] == "again":
                    k = self.siteinfo.get(k[1][1])
                if k is not None and inside(*k):
                    return True
        return False

    def rd(self, st, ptr):
        """value behind a pointer term"""
        if ptr.op == "ref":
            v = self.root(st, ptr.a[0])
            for k in ptr.a[1]:
                v = project(v, k)
            return self.simp(st, v)
        if ptr.op == "ite":
            k = self.truth(st, ptr.a[0])
            if k is not None:
                return self.rd(st, ptr.a[1] if k else ptr.a[2])
            return mk_ite(ptr.a[0], self.rd(st, ptr.a[1]), self.rd(st, ptr.a[2]))
        return self.simp(st, self.root(st, ("D", ptr)))

    def root(self, st, r):
        v = st.store.get(r)
        if v is None:
            if r[0] == "D":
                v = mk("load", r[1])
            elif r[0] == "V":
                v = r[1]
            else:
                v = mk("undef", str(r))
        return v

    def ref(self, root, projs):
        if root[0] == "D" and not projs:
            return root[1]
        return mk("ref", root, tuple(projs))

    def vref(self, v):
        """pointer to an immutable temporary holding v"""
        return mk("ref", ("V", v), ())

    def ptr_proj(self, ptr, *keys):
        """pointer + projection"""
        if ptr.op == "ref":
            return mk("ref", ptr.a[0], ptr.a[1] + tuple(keys))
        return mk("ref", ("D", ptr), tuple(keys))

    def wr(self, st, ptr, v):
        """write through pointer (ptr must not be ite)"""
        if ptr.op == "ref":
            root, path = ptr.a
        else:
            root, path = ("D", ptr), ()
        if root[0] == "V":
            return
        st.store[root] = set_field(self.root(st, root), path, v)

    def simp(self, st, v):
        while v.op == "ite":
            k = self.truth(st, v.a[0])
            if k is None:
                break
            v = v.a[1] if k else v.a[2]
        return v

    # ------------------------------------------------------------ facts
    def fact(self, st, k):
        """known value set of an integer/bool/discr term: ('in', S) | ('notin', S) | None"""
        return st.facts.get(k)

    def truth(self, st, t):
        """1/0/None"""
        op = t.op
        if op == "int":
            return 1 if t.a[0] else 0
        if op == "Not":
            r = self.truth(st, t.a[0])
            return None if r is None else 1 - r
        if op == "And":
            a = self.truth(st, t.a[0])
            if a == 0:
                return 0
            b = self.truth(st, t.a[1])
            if b == 0:
                return 0
            if a == 1 and b == 1:
                return 1
            return None
        f = st.facts.get(t)
        if f is not None:
            if f[0] == "in" and len(f[1]) == 1:
                return 1 if next(iter(f[1])) else 0
            if f[0] == "notin" and 0 in f[1]:
                return 1
        if op == "Eq":
            x, c = t.a
            if is_int(c):
                return self.inset(st, x, frozenset([c.a[0]]))
            fx, fc = st.facts.get(x), st.facts.get(c)
            if fx and fc and fx[0] == "in" and fc[0] == "in":
                if len(fx[1]) == 1 and fx[1] == fc[1]:
                    return 1
                if not (fx[1] & fc[1]):
                    return 0
            if isboolish(x) or isboolish(c):
                vx, vc = self.cval(st, x), self.cval(st, c)
                if vx is not None and vc is not None:
                    return 1 if vx == vc else 0
            l1 = st.facts.get(mk("Lt", x, c))
            l2 = st.facts.get(mk("Lt", c, x))
            if (l1 and 1 in l1[1]) or (l2 and 1 in l2[1]):
                return 0
            if l1 and l2:
                return 1
            return None
        if op == "in":
            return self.inset(st, t.a[0], t.a[1])
        if op == "Lt":
            a, b = t.a
            for k in (mk_lt(b, a), mk_eq(a, b)):
                f = st.facts.get(k)
                if f is not None and f[0] == "in" and 1 in f[1] and len(f[1]) == 1:
                    return 0
            # constant on one side with known value on the other
            va, vb = self.cval(st, a), self.cval(st, b)
            if va is not None and vb is not None:
                return 1 if va < vb else 0
            return None
        if op == "ite":
            c = self.truth(st, t.a[0])
            if c is not None:
                return self.truth(st, t.a[1] if c else t.a[2])
        return None

    def cval(self, st, t):
        if is_int(t):
            return t.a[0]
        f = st.facts.get(t)
        if f is not None and f[0] == "in" and len(f[1]) == 1:
            return next(iter(f[1]))
        if t.op in ("Not", "And", "Eq", "Lt", "Le", "in"):
            return self.truth(st, t)
        return None

    def domain(self, x):
        if x.op == "discr":
            d = self.p.discr.get(x.a[1])
            if d:
                return frozenset(d.values())
        if isboolish(x):
            return frozenset((0, 1))
        return None

    def inset(self, st, x, S):
        """is x in S known?"""
        if is_int(x):
            return 1 if x.a[0] in S else 0
        f = st.facts.get(x)
        if f is None:
            d = self.domain(x)
            if d is not None:
                if d <= S:
                    return 1
                if not (d & S):
                    return 0
            if x.op in ("Not", "And", "Eq", "Lt", "Le") and (v := self.truth(st, x)) is not None:
                return 1 if v in S else 0
            return None
        if f[0] == "in":
            if f[1] <= S:
                return 1
            if not (f[1] & S):
                return 0
            return None
        if S <= f[1]:
            return 0
        return None

    def assume(self, st, t, v):
        """states refined by boolean term t == v (v in 0,1); [] if infeasible"""
        k = self.truth(st, t)
        if k is not None:
            return [st] if k == v else []
        op = t.op
        if op == "Not":
            return self.assume(st, t.a[0], 1 - v)
        if op == "And":
            if v:
                r = []
                for s in self.assume(st, t.a[0], 1):
                    r += self.assume(s, t.a[1], 1)
                return r
            r = self.assume(st.copy(), t.a[0], 0)
            for s in self.assume(st.copy(), t.a[0], 1):
                r += self.assume(s, t.a[1], 0)
            return r
        if op == "Eq" and is_int(t.a[1]):
            return self.assume_set(st, t.a[0], frozenset([t.a[1].a[0]]), v)
        if op == "Eq" and isboolish(t.a[0]) and isboolish(t.a[1]):
            r = []
            for xv in (1, 0):
                for s in self.assume(st.copy(), t.a[0], xv):
                    r += self.assume(s, t.a[1], xv if v else 1 - xv)
            return r
        if op == "in":
            return self.assume_set(st, t.a[0], t.a[1], v)
        if op == "ite":
            r = []
            for cv in (1, 0):
                for s in self.assume(st.copy(), t.a[0], cv):
                    r += self.assume(s, t.a[1] if cv else t.a[2], v)
            return r
        st.setfact(t, ("in", frozenset([v])))
        return [st]

    def assume_set(self, st, x, S, pos):
        """x in S (pos) or x not in S"""
        k = self.inset(st, x, S)
        if k is not None:
            return [st] if k == pos else []
        if x.op == "ite":
            r = []
            for cv in (1, 0):
                for s in self.assume(st.copy(), x.a[0], cv):
                    r += self.assume_set(s, x.a[1] if cv else x.a[2], S, pos)
            return r
        if isboolish(x):
            vals = [v for v in (0, 1) if (v in S) == bool(pos)]
            if len(vals) == 2:
                return [st]
            if not vals:
                return []
            return self.assume(st, x, vals[0])
        if x.op == "discr" and x.a[0].op == "cmp":
            a, b = x.a[0].a
            lt, gt = mk_lt(a, b), mk_lt(b, a)
            vals = [v for v in (255, -1, 0, 1) if (v in S) == bool(pos)]
            vals = {(-1 if v == 255 else v) for v in vals} if (255 in S or -1 in S or True) else set()
            # -1 may be written as 255 in switches
            neg = (255 in S) or (-1 in S)
            allowed = set()
            for v in (-1, 0, 1):
                inS = neg if v == -1 else (v in S)
                if inS == bool(pos):
                    allowed.add(v)
            if allowed == {-1}:
                return self.assume(st, lt, 1)
            if allowed == {1}:
                return self.assume(st, gt, 1)
            if allowed == {0}:
                return self.assume(st, mk_eq(a, b), 1)
            if allowed == {0, 1}:
                return self.assume(st, lt, 0)
            if allowed == {-1, 0}:
                return self.assume(st, gt, 0)
            if allowed == {-1, 1}:
                return self.assume(st, mk_eq(a, b), 0)
            return [st] if allowed else []
        f = st.facts.get(x)
        if f is None:
            d = self.domain(x)
            if d is not None:
                f = ("in", d)
        if pos:
            if f is None:
                n = ("in", S)
            elif f[0] == "in":
                n = ("in", f[1] & S)
            else:
                n = ("in", S - f[1])
            if not n[1]:
                return []
        else:
            if f is None:
                n = ("notin", S)
            elif f[0] == "in":
                n = ("in", f[1] - S)
                if not n[1]:
                    return []
            else:
                n = ("notin", f[1] | S)
        st.setfact(x, n)
        return [st]

    def split(self, st, t):
        """[(state, 0/1)] for boolean term"""
        k = self.truth(st, t)
        if k is not None:
            return [(st, k)]
        r = [(s, 1) for s in self.assume(st.copy(), t, 1)]
        r += [(s, 0) for s in self.assume(st.copy(), t, 0)]
        return r

    # ------------------------------------------------------------ discriminants
    def discr(self, v, adt):
        while v.op == "upd":
            v = v.a[0]   # overwriting payload fields keeps the variant
        if v.op == "agg":
            a = self.p.adts.get(v.a[0])
            if a and a["kind"] == "enum":
                return I(self.p.variants(v.a[0])[v.a[1]])
        if v.op == "ite":
            return mk_ite(v.a[0], self.discr(v.a[1], adt), self.discr(v.a[2], adt))
        if v.op == "cmp" and is_int(v.a[0]) and is_int(v.a[1]):
            x, y = v.a[0].a[0], v.a[1].a[0]
            return I(-1 if x < y else (1 if x > y else 0))
        return mk("discr", v, adt)

    # enum constructors / views
    def agg(self, adt, variant, *vals):
        a = self.p.adts[adt]
        if a["kind"] == "enum":
            for v in a["variants"]:
                if v["name"] == variant:
                    names = tuple(variant + "." + f[0] for f in v["fields"])
                    return mk("agg", adt, variant, names, *vals)
            raise KeyError(variant)
        if adt in self.p.newtypes:
            return vals[0]
        names = tuple(f[0] for f in a["variants"][0]["fields"])
        return mk("agg", adt, "", names, *vals)

    OPT = "core::option::Option"
    RES = "core::result::Result"
    CF = "core::ops::control_flow::ControlFlow"

    def some(self, v):
        return self.agg(self.OPT, "Some", v)

    def none(self):
        return self.agg(self.OPT, "None")

    def ok(self, v):
        return self.agg(self.RES, "Ok", v)

    def err(self, v):
        return self.agg(self.RES, "Err", v)

    def cases(self, st, v, adt):
        """split on enum value: [(state, variantname, value)]"""
        v = self.simp(st, v)
        if v.op == "agg":
            return [(st, v.a[1], v)]
        if v.op == "ite":
            r = []
            for cv in (1, 0):
                for s in self.assume(st.copy(), v.a[0], cv):
                    r += self.cases(s, v.a[1] if cv else v.a[2], adt)
            return r
        d = self.discr(v, adt)
        r = []
        for name, val in self.p.variants(adt).items():
            for s in self.assume_set(st.copy(), d, frozenset([val]), 1):
                r.append((s, name, v))
        return r

    # ------------------------------------------------------------ constants
    def const(self, c, st, stack, depth):
        k = c["k"]
        if k == "int":
            return I(int(c["v"]))
        if k == "str":
            return self.vref(mk("str", c["v"]))
        if k == "bytes":
            return self.vref(mk("bytes", bytes(c["v"])))
        if k == "fn":
            f = c["fn"]
            return mk("fn", f.get("rdef", f["def"]), f["path"], _Frozen(f))
        if k == "agg":
            t = self.p.types[c["t"]]
            fs = [self.const(x, st, stack, depth) for x in c["fields"]]
            if t["k"] == "tuple":
                return mk("tuple", *fs)
            if t["k"] == "array":
                el = self.p.types[t["t"]]
                if el["k"] == "uint" and el["bits"] == 8:
                    return mk("bytes", bytes(f.a[0] for f in fs))
                return mk("array", *fs)
            a = self.p.adts[t["def"]]
            if t["def"] in self.p.newtypes:
                return fs[0]
            if a["kind"] == "enum":
                return self.agg(t["def"], a["variants"][c["variant"]]["name"], *fs)
            return self.agg(t["def"], "", *fs)
        if k == "promoted":
            key = c["of"]
            b = self.p.body(key, c["i"])
            r = self.run_pure(b, [], stack + (("promoted", key, c["i"]),), depth)
            return r if r is not None else mk("const", "promoted %s %d" % (key, c["i"]))
        if k == "uneval":
            it = c.get("item")
            if it and it in self.p.raw:
                b = self.p.body(it)
                r = self.run_pure(b, [], stack + (("const", it),), depth)
                if r is not None:
                    return r
            ta = tuple(self.p.types[x]["s"] for x in c.get("targs", []))
            return mk("const", c["s"], *[mk("tyname", x) for x in ta])
        if k == "refval":
            return self.vref(self.const(c["v"], st, stack, depth))
        if k == "static":
            if c.get("v") and c["v"]["k"] != "opaque":
                return self.vref(self.const(c["v"], st, stack, depth))
            p = c["path"]
            if p.endswith("::ID"):
                return self.vref(mk("extid", p[:-4]))
            return self.vref(mk("static", p))
        return mk("const", re.sub(r"alloc\d+", "alloc", c.get("s", "?")))

    _pure = {}

    def run_pure(self, b, args, stack, depth):
        k = (b.key, b.promoted)
        if k in self._pure:
            return self._pure[k]
        st = St()
        self.quiet += 1
        try:
            rs = self.run_body(st, b, args, stack, depth + 1, keep_frame=True)
        finally:
            self.quiet -= 1
        r = None
        if len(rs) == 1:
            s, v = rs[0]
            r = self.freeze(s, v)
        self._pure[k] = r
        return r

    def freeze(self, st, v):
        """replace refs to frame locals by refs to immutable values"""
        if v.op == "ref" and v.a[0][0] in ("L", "K"):
            return self.vref(self.freeze(st, self.rd(st, v)))
        if v.op in ("tuple", "array"):
            return mk(v.op, *[self.freeze(st, x) for x in v.a])
        if v.op == "agg":
            return mk("agg", *(v.a[:3] + tuple(self.freeze(st, x) for x in v.a[3:])))
        return v

    # ------------------------------------------------------------ places
    class NeedSplit(Exception):
        def __init__(self, cond):
            self.cond = cond

    def resolve(self, st, fid, pl):
        """place -> (root, path)"""
        root = ("L", fid, pl[0])
        path = []
        for pj in pl[1]:
            if pj == "*":
                v = self.root(st, root)
                for k in path:
                    v = project(v, k)
                v = self.simp(st, v)
                if v.op == "ite":
                    raise Engine.NeedSplit(v.a[0])
                if v.op == "ref":
                    root, path = v.a[0], list(v.a[1])
                else:
                    root, path = ("D", v), []
            elif isinstance(pj, tuple) and pj[0] == "idx":
                path.append(("#", self.root(st, ("L", fid, pj[1]))))
            else:
                path.append(pj)
        return root, tuple(path)

    def readp(self, st, fid, pl):
        root, path = self.resolve(st, fid, pl)
        v = self.root(st, root)
        for k in path:
            v = project(v, k)
        return self.simp(st, v)

    def oper(self, st, fid, o, stack, depth):
        if o[0] == "p":
            return self.readp(st, fid, o[1])
        if o[0] == "k":
            return self.const(o[1], st, stack, depth)
        return FALSE

    # ------------------------------------------------------------ statements
    def rvalue(self, st, fid, rv, stack, depth):
        k = rv[0]
        if k == "use":
            return self.oper(st, fid, rv[1], stack, depth)
        if k == "ref":
            root, path = self.resolve(st, fid, rv[1])
            return self.ref(root, path)
        if k == "bin":
            return self.binop(rv[1], self.oper(st, fid, rv[2], stack, depth), self.oper(st, fid, rv[3], stack, depth), rv[4])
        if k == "un":
            a = self.oper(st, fid, rv[2], stack, depth)
            if rv[1] == "Not":
                t = self.p.types[rv[3]] if rv[3] is not None else {"k": "?"}
                if t["k"] == "bool":
                    return mk_not(a)
                if t["k"] == "uint" and is_int(a):
                    return I(a.a[0] ^ ((1 << t["bits"]) - 1))
                if a.op == "BitNot":
                    return a.a[0]
                return mk("BitNot", a)
            if rv[1] == "Neg":
                return mk("Neg", a)
            if rv[1] == "PtrMetadata":
                v = self.rd(st, a) if a.op in ("ref", "ite") else self.root(st, ("D", a))
                return self.models.length(self, st, v)
            return mk(rv[1], a)
        if k == "discr":
            v = self.readp(st, fid, rv[1])
            t = self.p.types[rv[1][2]]
            return self.discr(v, t.get("def", t["s"]))
        if k == "cast":
            a = self.oper(st, fid, rv[2], stack, depth)
            return self.cast(st, rv[1], a, rv[3], rv[4])
        if k == "agg":
            vals = [self.oper(st, fid, x, stack, depth) for x in rv[2]]
            kk = rv[1][0]
            if kk == "tuple":
                return mk("tuple", *vals)
            if kk == "array":
                return mk("array", *vals)
            if kk == "closure":
                return mk("closure", rv[1][1], *vals)
            if kk == "adt":
                adt = rv[1][1]
                a = self.p.adts[adt]
                if adt in self.p.newtypes:
                    return vals[0]
                if a["kind"] == "enum":
                    return self.agg(adt, a["variants"][rv[1][2]]["name"], *vals)
                if a["kind"] == "struct":
                    return self.agg(adt, "", *vals)
            return mk("aggother", *vals)
        if k == "rep":
            a = self.oper(st, fid, rv[1], stack, depth)
            return mk("repeat", a, rv[2])
        return mk("unk_rvalue", str(rv[1])[:80])

    def cast(self, st, kind, a, to, frm):
        t = self.p.types[to]
        if kind == "IntToInt":
            f = self.p.types[frm] if frm is not None else None
            if is_int(a) and t["k"] == "uint":
                return I(a.a[0] & ((1 << t["bits"]) - 1))
            if f and f["k"] in ("uint", "int") and t["k"] in ("uint", "int") and t["bits"] < f["bits"]:
                return mk("trunc", a, t["bits"])
            return a
        if kind.startswith("PointerCoercion"):
            return a
        if kind in ("PtrToPtr", "Transmute", "Subtype", "FnPtrToPtr", "BoxDerefTransmute"):
            return a
        return mk("castk", kind, a, t["s"])

    CMP = {"Lt", "Le", "Gt", "Ge", "Eq", "Ne"}

    def binop(self, op, a, b, ty):
        if op == "Lt":
            return mk_lt(a, b)
        if op == "Gt":
            return mk_lt(b, a)
        if op == "Ge":
            return mk_not(mk_lt(a, b))
        if op == "Le":
            return mk_not(mk_lt(b, a))
        if op == "Eq":
            return mk_eq(a, b)
        if op == "Ne":
            return mk_not(mk_eq(a, b))
        if op.endswith("WithOverflow"):
            o = op[:-12]
            return mk("tuple", arith(o, a, b), mk("ovf", mk(o, a, b)))
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op == "Cmp":
            return mk("cmp", a, b)
        if op == "BitXor" and isboolish2(a) and isboolish2(b):
            return mk_ite(a, mk_not(b), b)
        return arith(op, a, b)

    # ------------------------------------------------------------ running bodies
    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit("step limit")

    def run_body(self, st, b, args, stack, depth, keep_frame=False, tenv=None):
        """-> [(state, retval)]"""
        if depth > self.max_depth:
            raise Limit("depth limit at %s" % b.key)
        self.nfid += 1
        fid = self.nfid
        if tenv:
            self.tenvs[fid] = tenv
        n = b.argc
        for i, v in enumerate(args):
            st.store[("L", fid, i + 1)] = v
        rets = []
        exits, backs = self.region(b, fid, [(0, st)], None, None, stack, depth, rets)
        out = []
        for s, v in rets:
            if not keep_frame:
                for i in range(len(b.locals)):
                    s.store.pop(("L", fid, i), None)
            out.append((s, v))
        if len(out) > 1:
            out = self.merge_rets(out)
        return out

    def merge_rets(self, out):
        RET = ("R",)
        ss = []
        for s, v in out:
            s.store[RET] = v
            ss.append(s)
        ss = self.merge(ss)
        return [(s, s.store.pop(RET)) for s in ss]

    def region(self, b, fid, starts, allowed, header, stack, depth, rets):
        """run blocks from starts; allowed: set of blocks (loop body) or None.
        -> (exits [(block, st)], backs [st])"""
        pend = {}
        heap = []
        exits, backs = [], []

        def push(blk, s, frm):
            if b.blocks[blk] is None:
                return
            if header is not None and blk == header and frm is not None:
                backs.append(s)
                return
            if allowed is not None and blk not in allowed:
                exits.append((blk, s))
                return
            if blk not in pend:
                pend[blk] = []
                heapq.heappush(heap, (b.rpo[blk], blk))
            pend[blk].append(s)

        for blk, s in starts:
            push(blk, s, None)
        while heap:
            _, blk = heapq.heappop(heap)
            ss = pend.pop(blk)
            if len(ss) > 1:
                live = b.live[blk]
                for s in ss:
                    for i in range(len(b.locals)):
                        if i not in live and i not in b.addr:
                            s.store.pop(("L", fid, i), None)
                ss = self.merge(ss)
            if blk in b.loops and blk != header:
                for s in ss:
                    for (x, s2) in self.loop(b, fid, blk, s, stack, depth, rets):
                        push(x, s2, blk)
                continue
            for s in ss:
                for (nx, s2) in self.block(b, fid, blk, s, stack, depth, rets):
                    push(nx, s2, blk)
        return exits, backs

    # ------------------------------------------------------------ loops
    def loop(self, b, fid, h, st, stack, depth, rets):
        body = b.loops[h]
        n = self.finite_iter(b, fid, h, st)
        if n is not None:
            # iterating over an exact short array: follow every iteration
            cur, out = [st], []
            for k in range(n + 1):
                # each iteration is its own context: what it calls is told apart from the other iterations
                ex, cur = self.region(b, fid, [(h, s) for s in cur], body, h, stack + (("", "iteration %s.%d.%d" % (b.key, h, k), ""),), depth, rets)
                out += ex
                if not cur:
                    return out
                if len(cur) > 1:
                    cur = self.merge(cur)
            raise Limit("unrolled loop does not end in %s" % b.key)
        site = self.site(stack, h)
        mods = {}
        entry = st
        nq = len(self.ends)
        inner = []

        def inside(sk, bb):
            if sk == stack:
                return isinstance(bb, tuple) and bb[0] == b.key and bb[2] in body
            return len(sk) > len(stack) and sk[:len(stack)] == stack and sk[len(stack)][0] == b.key and sk[len(stack)][1] in body
        shrunk = False
        for it in range(16):
            touched = set()
            s0 = self.havoc(entry, mods, site)
            lev = Event(name="loop", site=site, inner=inner, facts=s0.facts, stack=stack, vals=[])
            s0.ev = (s0.ev, lev)
            self.quiet += 1
            try:
                exits, backs = self.region(b, fid, [(h, s0.copy())], body, h, stack, depth, [])
            finally:
                self.quiet -= 1
            new = False
            for bs in backs:
                for root in set(bs.store) | set(s0.store):
                    if root[0] == "L" and root[1] > fid:
                        continue
                    if root[0] == "L" and root[1] == fid and root[2] not in b.live[h] and root[2] not in b.addr:
                        continue
                    va = s0.store.get(root)
                    vb = bs.store.get(root)
                    if va is vb:
                        continue
                    if va is None:
                        if root[0] in ("D",):
                            if any(x.op == "loop" and x.a[0] == site for x in walk(root[1])) or self.made_within(root[1], inside):
                                continue        # reached through this iteration's values: a place of its own in every iteration
                            va = self.root(s0, root)
                        else:
                            continue
                    if vb is None:
                        continue
                    for path, x, y in diff(va, vb):
                        cur = mods.setdefault(root, {})
                        touched.add((root, path))
                        if path not in cur:
                            cur[path] = None
                            new = True
                        g = self.models.generalise(self, x, y)
                        if g is not None and cur[path] is not g:
                            if cur[path] is not None:
                                g = self.models.generalise(self, cur[path], g) or g
                            if cur[path] is not g:
                                cur[path] = g
                                new = True
            # drop sub-paths of modified prefixes
            for root, ps in mods.items():
                for p in list(ps):
                    for q in list(ps):
                        if p != q and p[:len(q)] == q and p in ps:
                            del ps[p]
            if not new:
                if not shrunk and shrink(mods, touched):
                    shrunk = True
                    continue
                break
        else:
            raise Limit("loop does not stabilise in %s bb%d" % (b.key, h))
        inner2 = []
        lev.inner = inner2
        s1 = s0
        if not backs:
            # body never comes back: no earlier iterations
            s1.ev = s1.ev[0]
        exits, backs = self.region(b, fid, [(h, s1)], body, h, stack, depth, rets)
        base = s1.ev
        for bs in backs:
            e = bs.ev
            evs = []
            while e is not None and e[1] is not lev:
                evs.append(e[1])
                e = e[0]
            inner2.extend(reversed(evs))
            self.end("back", bs, None, stack, self.where(b, h))
            if not self.quiet:
                self.ends[-1].loop = (site, fid, b.key, s1.store, lev)
        if backs and not inner2:
            # nothing happened in earlier iterations: the marker carries no information; keep
            pass
        return exits

    def finite_iter(self, b, fid, h, st):
        for i in b.live[h] | b.addr:
            v = st.store.get(("L", fid, i))
            if v is None or v.op != "iter" or not is_int(v.a[1]):
                continue
            if any(k not in ("map", "enumerate", "cloned", "copied", "filter", "inspect") for k, _ in v.a[2]):
                continue
            src = v.a[0]
            c = None
            if src.op == "slice_src":
                c = self.rd(st, src.a[0])
            elif src.op == "vec_src":
                c = src.a[0]
            if c is not None and c.op == "array" and len(c.a) <= 6:
                # the loop must be driven by this iterator: it is borrowed inside the body
                for blk in b.loops[h]:
                    for s in b.blocks[blk][0]:
                        if s[0] == "=" and s[2][0] == "ref" and s[2][1][0] == i and not s[2][1][1]:
                            return len(c.a) + 1
        return None

    def havoc(self, st, mods, site):
        s = st.copy()
        for root, ps in mods.items():
            v = s.store.get(root)
            if v is None:
                if root[0] == "D":
                    v = self.root(s, root)
                else:
                    continue
            for p, g in ps.items():
                old = v
                for k in p:
                    old = project(old, k)
                nv = g if g is not None else mk("loop", site, self.pname(root, p), old)
                v = set_field(v, p, nv)
            s.store[root] = v
        return s

    def pname(self, root, p):
        if root[0] == "L":
            return "L%d" % root[2] + "".join(pk(k) for k in p)
        return _root_s(root) + "".join(pk(k) for k in p)

    def where(self, b, blk):
        bl = b.blocks[blk]
        for s in bl[0]:
            if s[0] == "=":
                return s[3]
        t = bl[1]
        if t[0] in ("call",):
            return t[5]
        return b.raw["span"]

    # ------------------------------------------------------------ merging
    def merge(self, ss):
        if len(ss) < 2:
            return ss
        groups = {}
        for s in ss:
            groups.setdefault(id(s.ev), []).append(s)
        out = []
        for g in groups.values():
            out += self.merge_group(g) if len(g) > 1 else g
        return out

    def merge_group(self, g):
        changed = True
        while changed and len(g) > 1:
            changed = False
            common = set(g[0].facts.items())
            for s in g[1:]:
                common &= set(s.facts.items())
            ck = {k for k, _ in common}
            idx = {}
            dead = set()
            for i, s in enumerate(g):
                if i in dead:
                    continue
                hit = None
                # identical facts
                key0 = ("=", s.fh)
                for j in idx.get(key0, []):
                    if j not in dead and g[j].facts == s.facts and self.same_store(g[j], s):
                        hit = (j, None)
                        break
                if hit is None:
                    for k, v in s.facts.items():
                        if k in ck:
                            continue
                        hk = (k.id, s.fh ^ hash((k.id, v)))
                        for j in idx.get(hk, []):
                            if j in dead:
                                continue
                            o = g[j]
                            if len(o.facts) == len(s.facts) and k in o.facts and self._only_diff(o.facts, s.facts, k):
                                if self.mergeable(o, s):
                                    hit = (j, k)
                                    break
                        if hit:
                            break
                if hit is None:
                    # subsumption: other has no fact on k at all and same store
                    pass
                if hit is not None:
                    j, k = hit
                    if k is not None:
                        m = self.do_merge(g[j], s, k)
                        g[j] = m
                        dead.add(i)
                        changed = True
                        break
                    dead.add(i)
                    changed = True
                    continue
                idx.setdefault(key0, []).append(i)
                for k, v in s.facts.items():
                    if k in ck:
                        continue
                    idx.setdefault((k.id, s.fh ^ hash((k.id, v))), []).append(i)
            g = [s for i, s in enumerate(g) if i not in dead]
        return g

    def _only_diff(self, a, b, k):
        for x, v in a.items():
            if x is k:
                continue
            w = b.get(x)
            if w != v:
                return False
        return True

    def same_store(self, a, b):
        if len(a.store) != len(b.store):
            return False
        for k, v in a.store.items():
            if b.store.get(k) is not v:
                return False
        return True

    def mergeable(self, a, b):
        # keep pointer-valued / closure-valued differences apart (they steer the analysis)
        for k, v in a.store.items():
            w = b.store.get(k)
            if w is None or w is v:
                continue
            if v.op in ("ref", "closure", "iter") or w.op in ("ref", "closure", "iter"):
                return False
            if v.op == "agg" and w.op == "agg" and v.a[0] == self.RES and v.a[1] != w.a[1]:
                return False
        return True

    def do_merge(self, a, b, k):
        va, vb = a.facts[k], b.facts[k]
        if va[0] == "in":
            c = mk_in(k, va[1]) if not (isboolish(k) or va[1] <= {0, 1} and k.op != "discr" and len(va[1]) == 1 and vb[0] == "in" and vb[1] <= {0, 1}) else (k if 1 in va[1] else mk_not(k))
        elif vb[0] == "in":
            c = mk_not(mk_in(k, vb[1]))
        else:
            c = mk_not(mk_in(k, va[1]))
        m = a.copy()
        # union fact
        f = dict(a.facts)
        del f[k]
        m.facts = f
        m.fh = a.fh ^ hash((k.id, va))
        dom = self.domain(k)
        u = None
        if va[0] == "in" and vb[0] == "in":
            u = ("in", va[1] | vb[1])
            if (dom is not None and dom <= u[1]) or (u[1] == frozenset((0, 1)) and k.op not in ("discr",)):
                u = None
        elif va[0] == "notin" and vb[0] == "notin":
            u = ("notin", va[1] & vb[1])
        elif va[0] == "in":
            u = ("notin", vb[1] - va[1])
        else:
            u = ("notin", va[1] - vb[1])
        if u is not None and u[1]:
            m.setfact(k, u)
        for r, w in b.store.items():
            v = m.store.get(r)
            if v is None:
                if r[0] == "D":
                    v = self.root(a, r)
                else:
                    m.store[r] = w
                    continue
            if v is not w:
                m.store[r] = merge_val(c, v, w)
        for r, v in a.store.items():
            if r not in b.store and r[0] == "D":
                w = self.root(b, r)
                if v is not w:
                    m.store[r] = merge_val(c, v, w)
        return m

    # ------------------------------------------------------------ blocks
    def end(self, kind, st, ret, stack, span, why=None):
        if not self.quiet:
            self.ends.append(Path(kind, st, ret, stack, span, why))

    def block(self, b, fid, blk, st, stack, depth, rets):
        self.tick()
        sts, t = b.blocks[blk]
        states = [st]
        for s in sts:
            nxt = []
            for x in states:
                nxt += self.stmt(b, fid, s, x, stack, depth)
            states = nxt
        out = []
        for x in states:
            out += self.term(b, fid, blk, t, x, stack, depth, rets)
        return out

    def stmt(self, b, fid, s, st, stack, depth):
        try:
            if s[0] == "=":
                v = self.rvalue(st, fid, s[2], stack, depth)
                root, path = self.resolve(st, fid, s[1])
                if not path:
                    st.store[root] = v
                elif root[0] != "V":
                    st.store[root] = set_field(self.root(st, root), path, v)
            elif s[0] == "sd":
                root, path = self.resolve(st, fid, s[1])
                t = self.p.types[s[1][2]]
                name = self.p.vname(t["def"], s[2])
                nf = len(self.p.adts[t["def"]]["variants"][s[2]]["fields"])
                old = self.readp(st, fid, s[1])
                vals = [project(old, name + "." + f[0]) for f in self.p.adts[t["def"]]["variants"][s[2]]["fields"]]
                st.store[root] = set_field(self.root(st, root), path, self.agg(t["def"], name, *vals))
            return [st]
        except Engine.NeedSplit as ns:
            r = []
            for x, _ in self.split(st, ns.cond):
                r += self.stmt(b, fid, s, x, stack, depth)
            return r

    def term(self, b, fid, blk, t, st, stack, depth, rets):
        try:
            return self._term(b, fid, blk, t, st, stack, depth, rets)
        except Engine.NeedSplit as ns:
            r = []
            for x, _ in self.split(st, ns.cond):
                r += self.term(b, fid, blk, t, x, stack, depth, rets)
            return r

    def _term(self, b, fid, blk, t, st, stack, depth, rets):
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            v = self.root(st, ("L", fid, 0))
            if v.op == "undef":
                v = UNIT
            rets.append((st, v))
            return []
        if k == "switch":
            x = self.oper(st, fid, t[1], stack, depth)
            ty = self.p.types[t[4]]
            out = []
            if ty["k"] == "bool":
                for v, tg in t[2]:
                    for s in self.assume(st.copy(), x, v):
                        out.append((tg, s))
                vs = [v for v in (0, 1) if v not in [a for a, _ in t[2]]]
                for v in vs:
                    for s in self.assume(st.copy(), x, v):
                        out.append((t[3], s))
                return out
            bits = ty.get("bits", 64)
            vals = []
            for v, tg in t[2]:
                if ty["k"] == "int" and v >= 1 << (bits - 1):
                    v -= 1 << bits
                vals.append(v)
                for s in self.assume_set(st.copy(), x, frozenset([v]), 1):
                    out.append((tg, s))
            ob = b.blocks[t[3]]
            if not (ob is not None and not ob[0] and ob[1][0] == "unreachable"):
                for s in self.assume_set(st.copy(), x, frozenset(vals), 0):
                    out.append((t[3], s))
            return out
        if k == "assert":
            # overflow / bounds panics abort the transaction: only the passing side goes on
            return [(t[4], st)]
        if k == "call":
            return self.call(b, fid, blk, t, st, stack, depth)
        if k == "unreachable":
            return []
        if k in ("unwind", "other"):
            return []
        raise Exception("terminator " + k)

    # ------------------------------------------------------------ calls
    def call(self, b, fid, blk, t, st, stack, depth):
        fv = self.oper(st, fid, t[1], stack, depth)
        args = [self.oper(st, fid, o, stack, depth) for o in t[2]]
        ci = CallInfo()
        ci.args = args
        ci.tys = t[6]
        ci.dty = t[7]
        ci.span = t[5]
        ci.site = self.site(stack, (b.key, b.promoted, blk))
        ci.stack = stack + ((b.key, blk, t[5]),)
        ci.depth = depth
        ci.tenv = self.tenvs.get(fid)
        rs = self.dispatch(st, fv, ci)
        out = []
        if t[4] is None:
            for s, v in rs:
                self.end("panic", s, v, ci.stack, t[5])
            return []
        for s, v in rs:
            root, path = self.resolve(s, fid, t[3])
            if not path:
                s.store[root] = v
            elif root[0] != "V":
                s.store[root] = set_field(self.root(s, root), path, v)
            out.append((t[4], s))
        return out

    def dispatch(self, st, fv, ci):
        if fv.op == "fn":
            fn = fv.a[2].d
            return self.callfn(st, fn, ci)
        # indirect: function pointer / closure value
        if fv.op == "closure":
            return self.call_closure(st, fv, ci.args, ci)
        if fv.op == "ite":
            r = []
            for s, v in self.split(st, fv.a[0]):
                r += self.dispatch(s, fv.a[1] if v else fv.a[2], ci)
            return r
        return self.unknown_call(st, {"path": "indirect", "name": "indirect"}, ci, callee=fv)

    def target(self, fn, ci, st):
        """local def key to inline, or None"""
        rdef = fn.get("rdef")
        if rdef in self.p.raw and fn.get("rk") == "item" and not ("trait" in fn and rdef == fn["def"] and not self._default_ok(fn, rdef)):
            return rdef
        if "trait" in fn and (fn.get("rk") in (None, "virtual") or rdef == fn["def"]):
            tr = fn["trait"]
            cands = self.p.tm.get((tr, fn["name"]), [])
            if len(cands) == 1:
                return cands[0][1]
            if len(cands) > 1 and fn["targs"]:
                st_ = self.p.types[fn["targs"][0]]
                m = [d for s, d in cands if self.p.types[s]["s"] == st_["s"] or (st_["k"] == "adt" and self.p.types[s].get("def") == st_["def"])]
                if len(m) == 1:
                    return m[0]
                if tr.endswith("WrapperU64"):
                    return cands[0][1]
            if not cands and fn["def"] in self.p.raw:
                return fn["def"]
        return None

    def _default_ok(self, fn, rdef):
        # resolved to the trait's own default body: prefer an overriding unique impl
        cands = self.p.tm.get((fn["trait"], fn["name"]), [])
        return not cands

    def callfn(self, st, fn, ci):
        path = strip_generics(fn["path"])
        ci.path = path
        ci.fn = fn
        f = self.models.FIRST.get(path)
        if f is not None:
            r = f(self, st, ci)
            if r is not None:
                return r
        key = self.target(fn, ci, st)
        # std trait method implemented locally
        if key is None or key not in self.p.raw:
            m = self.models.lookup(path, fn)
            if m is not None:
                r = m(self, st, ci)
                if r is not None:
                    return r
            lib = fn.get("rdef")
            if lib in self.p.lib and fn.get("rk") == "item" and self.models.follow(path, fn):
                b = self.p.body(lib)
                if b.argc == len(ci.args) and sum(1 for f in ci.stack if f[0] == lib) <= 2:
                    return self.run_body(st, b, ci.args, ci.stack, ci.depth + 1, tenv=self.tenv_for(fn, b, ci))
            return self.unknown_call(st, fn, ci)
        if self.p.raw[key]["kind"] == "Closure":
            # a direct call of a closure passes its arguments as one tuple
            return self.models.lookup(path, fn)(self, st, ci)
        if self.opaque(self, fn, key):
            return self.unknown_call(st, fn, ci, key=key)
        m = self.models.lookup_local(key, fn)
        if m is not None:
            r = m(self, st, ci)
            if r is not None:
                return r
        b = self.p.body(key)
        self.inlined.add(key)
        if self.watch(fn, key):
            self.emit(st, "enter:" + fn["name"], fn, ci, key=key)
        stack = ci.stack
        if sum(1 for f in stack if f[0] == key) > 2:
            raise Limit("recursion " + key)
        return self.run_body(st, b, ci.args, stack, ci.depth + 1, tenv=self.tenv_for(fn, b, ci))

    def tenv_for(self, fn, b, ci):
        gs = b.raw.get("generics") or []
        ta = fn.get("targs") or []
        if fn.get("rdef") and fn.get("rdef") != fn.get("def"):
            ta = fn.get("rtargs") or []
        if not gs or len(gs) != len(ta):
            return ci.tenv
        return {g: self.tsub(t, ci.tenv) for g, t in zip(gs, ta)}

    def tsub(self, t, tenv):
        if tenv:
            ty = self.p.types[t]
            if ty["k"] == "param":
                return tenv.get(ty["s"], t)
        return t

    def call_closure(self, st, clos, args, ci):
        """clos: closure value, or pointer to one, or fn item"""
        c = clos
        hops = 0
        while c.op == "ref" or c.op in ("load", "field", "arg") and hops < 3:
            if c.op == "ref":
                c2 = self.rd(st, c)
            else:
                break
            clos, c = c, c2
            hops += 1
        if c.op == "fn":
            return self.callfn_with(st, c, args, ci)
        if c.op == "ite":
            r = []
            for s, v in self.split(st, c.a[0]):
                r += self.call_closure(s, c.a[1] if v else c.a[2], args, ci)
            return r
        if c.op != "closure":
            return self.unknown_call(st, {"path": "dyncall", "name": "dyncall"}, self._ci(ci, args), callee=c)
        key = c.a[0]
        b = self.p.body(key)
        self.inlined.add(key)
        t1 = self.p.types[b.locals[1]]
        tmp = None
        if t1["k"] in ("ref", "ptr"):
            if clos.op == "ref":
                selfv = clos
            else:
                self.nfid += 1
                tmp = ("K", self.nfid)
                st.store[tmp] = c
                selfv = mk("ref", tmp, ())
        else:
            selfv = c
        a = list(args)
        rs = self.run_body(st, b, [selfv] + a, ci.stack + ((key, "closure", ci.span),), ci.depth + 1, tenv=ci.tenv)
        return rs

    def _ci(self, ci, args):
        c = CallInfo()
        c.tenv = None
        for s in CallInfo.__slots__:
            try:
                setattr(c, s, getattr(ci, s))
            except AttributeError:
                pass
        c.args = args
        c.tys = []
        return c

    def callfn_with(self, st, f, args, ci):
        c = self._ci(ci, args)
        fn = f.a[2].d
        key = self.target(fn, c, st)
        if key is not None and key in self.p.raw and not self.opaque(self, fn, key):
            b = self.p.body(key)
            if b.argc == len(args):
                c.tys = [b.locals[i + 1] for i in range(len(args))]
        return self.callfn(st, fn, c)

    def snap(self, st, v, ty=None, d=0):
        """argument snapshot: pointers replaced by the value they point to (shallow)"""
        if v.op == "ref":
            return mk("at", self.rd(st, v))
        return v

    def emit(self, st, name, fn, ci, res=None, key=None):
        self.nev += 1
        e = Event(name=name, fn=fn, args=list(ci.args), vals=[self.snapv(st, a) for a in ci.args], res=res, site=ci.site, span=ci.span, facts=st.facts, stack=ci.stack, n=self.nev, store=st.store)
        st.store = dict(st.store)
        st.ev = (st.ev, e)
        return e

    def snapv(self, st, a, d=0):
        """pointers replaced by what they point to at this moment, also inside aggregates"""
        if d > 12:
            return a
        if a.op == "ref":
            return self.snapv(st, self.rd(st, a), d + 1)
        if a.op in ("tuple", "array") and len(a.a) < 40:
            return mk(a.op, *[self.snapv(st, x, d + 1) for x in a.a])
        if a.op == "agg":
            return mk("agg", *(a.a[:3] + tuple(self.snapv(st, x, d + 1) for x in a.a[3:])))
        if a.op in ("bytes_of",):
            return mk(a.op, *[self.snapv(st, x, d + 1) for x in a.a])
        return a

    def unknown_call(self, st, fn, ci, key=None, callee=None):
        """opaque call: result is a term over its arguments; memory behind &mut arguments is havocked"""
        name = key or fn.get("path")
        path = strip_generics(fn.get("path", "?"))
        nm = fn.get("name") or path
        pure = self.models.is_pure(path, fn) if key is None else False
        if key is None and not pure and fn.get("rk") != "virtual":
            self.unknown[path] = self.unknown.get(path, 0) + 1
        vals = [self.snapv(st, a) for a in ci.args]
        tt = ()
        if fn.get("targs") and (nm in ("try_from_slice", "size_of", "from_bytes", "default", "load_bytes", "load_mut_bytes", "type_name")):
            tt = (mk("tyname", self.p.types[self.tsub(fn["targs"][-1] if nm.startswith("load") else fn["targs"][0], ci.tenv)]["s"]),)
        site = 0 if pure else ci.site
        label = path
        if callee is not None:
            res = mk("call", label, site, callee, *vals)
        else:
            res = mk("call", label, site, *(tuple(vals) + tt))
        if not pure:
            self.emit(st, nm, fn, ci, res=res, key=key)
            # closures handed to unknown code may run: analyse them for their events
            for i, a in enumerate(ci.args):
                ty = self.p.types[ci.tys[i]] if i < len(ci.tys) else None
                if ty is not None and ty["k"] == "ref" and ty["mut"] and a.op in ("ref",):
                    if self.p.types[ty["t"]]["k"] in ("dyn", "closure"):
                        continue
                    self.wr(st, a, mk("after", res, i))
                elif ty is not None and ty["k"] == "ref" and ty["mut"] and not is_int(a):
                    if self.p.types[ty["t"]]["k"] in ("dyn", "closure"):
                        continue
                    st.store[("D", a)] = mk("after", res, i)
        dt = self.p.types[ci.dty]
        if dt["k"] == "never":
            return [(st, mk("never"))]
        if dt["k"] == "tuple" and not dt["args"]:
            return [(st, UNIT)]
        return [(st, res)]


class _Frozen:
    """hashable wrapper for the callee description"""
    _t = {}

    def __new__(cls, d):
        k = json.dumps(d, sort_keys=True)
        o = cls._t.get(k)
        if o is None:
            o = object.__new__(cls)
            o.d = d
            cls._t[k] = o
        return o


def _root_s(r):
    if r[0] == "D":
        return "*" + pp(r[1])
    return str(r[0])


def shrink(mods, touched):
    """forget places that an earlier, less general round saw modified and the general one does not (what the iterations do from the more
    general state covers all of them, so places untouched there stay as they were on entry)"""
    r = False
    for root in list(mods):
        if root[0] != "D":
            continue
        for p in list(mods[root]):
            if not any(t == root and (q[:len(p)] == p or p[:len(q)] == q) for t, q in touched):
                del mods[root][p]
                r = True
        if not mods[root]:
            del mods[root]
    return r


def diff(a, b, path=()):
    """leaf paths where b differs from a"""
    if a is b:
        return
    if a.op == "agg" and b.op == "agg" and a.a[:3] == b.a[:3]:
        for n, x, y in zip(a.a[2], a.a[3:], b.a[3:]):
            yield from diff(x, y, path + (n,))
        return
    if a.op == b.op == "tuple" and len(a.a) == len(b.a):
        for i, (x, y) in enumerate(zip(a.a, b.a)):
            yield from diff(x, y, path + (str(i),))
        return
    if a.op == b.op == "closure" and a.a[0] == b.a[0] and len(a.a) == len(b.a):
        for i, (x, y) in enumerate(zip(a.a[1:], b.a[1:])):
            yield from diff(x, y, path + (str(i),))
        return
    ab = a.a[0] if a.op == "upd" else a
    bb = b.a[0] if b.op == "upd" else b
    if ab is bb and (a.op == "upd" or b.op == "upd"):
        ka = dict(a.a[1]) if a.op == "upd" else {}
        kb = dict(b.a[1]) if b.op == "upd" else {}
        for k in sorted(set(ka) | set(kb), key=lambda k: repr(kid(k))):
            x = ka[k] if k in ka else project(ab, k)
            y = kb[k] if k in kb else project(ab, k)
            yield from diff(x, y, path + (k,))
        return
    if a.op == "agg" and b.op == "upd" and b.a[0].op == "agg":
        pass
    yield (path, a, b)


def explore(prog, key, args=None, opaque=None, watch=None, facts=None, setup=None, max_steps=None):
    """analyse one entry function -> (engine, [Path])"""
    eng = Engine(prog, opaque, watch)
    if max_steps:
        eng.max_steps = max_steps
    b = prog.body(key)
    st = St()
    if args is None:
        args = []
        for i in range(b.argc):
            nm = b.names.get(i + 1, "arg%d" % i)
            args.append(mk("arg", nm))
    for k, v in (facts or {}).items():
        st.setfact(k, v)
    if setup:
        setup(eng, st, args)
    rs = eng.run_body(st, b, args, ((key, "entry", b.raw["span"]),), 0)
    for s, v in rs:
        eng.ends.append(Path("ret", s, v, (), b.raw["span"]))
    return eng, eng.ends
