"""Segment summaries of the matching engine: what one stretch of execution (function entry to a loop, one loop iteration, last loop to return) does to
balances, orders and counters, as exact differences in a polynomial normal form."""
import os
import pickle
import sys
import traceback

from ctx import *
from terms import T as Term
from rules_e import Fx
import engine as _eng
from engine import MissingAnchor, Limit, diff
from models import node_of, addr_of, extreme_entry


# ---------------------------------------------------------------- many explorations at once
def parallel(R, jobs, width=8):
    """run jobs [(label, f(R))] in forked children and merge their obligations into R"""
    pend = list(jobs)
    run = {}
    sys.stdout.flush()
    sys.stderr.flush()
    err = None
    while pend or run:
        while pend and len(run) < width:
            label, f = pend.pop(0)
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(rd)
                    r = Run(R.pid, R.p)
                    r.repo = getattr(R, "repo", "/repo")
                    out = ("ok", None)
                    try:
                        f(r)
                    except MissingAnchor as ex:
                        out = ("anchor", str(ex))
                    except Limit as ex:
                        out = ("limit", "%s: %s" % (label, ex))
                    except Exception:
                        out = ("crash", "%s: %s" % (label, traceback.format_exc()))
                    data = pickle.dumps((out, r.obl, r.ok, r.by, r.viol, r.samples, r.cov, list(r.notes), sorted(r.fns)))
                    with os.fdopen(wr, "wb") as fh:
                        fh.write(data)
                finally:
                    os._exit(0)
            os.close(wr)
            run[rd] = (label, pid)
        import select
        rs, _, _ = select.select(list(run), [], [])
        for fd in rs:
            label, pid = run.pop(fd)
            with os.fdopen(fd, "rb") as fh:
                data = fh.read()
            os.waitpid(pid, 0)
            if not data:
                err = err or ("crash", "%s: child died" % label)
                continue
            out, obl, ok, by, viol, samples, cov, notes, fns = pickle.loads(data)
            R.obl += obl
            R.ok += ok
            for k, (a, b) in by.items():
                c = R.by.setdefault(k, [0, 0])
                c[0] += a
                c[1] += b
            for k, v in viol.items():
                if k in R.viol:
                    R.viol[k]["count"] += v["count"]
                else:
                    R.viol[k] = v
            R.samples += [s for s in samples if len(R.samples) < 40]
            for k, v in cov.items():
                R.cov[k] = R.cov.get(k, 0) + v if isinstance(v, int) else v
            R.notes += [n for n in notes if n not in R.notes]
            R.fns |= set(fns)
            if out[0] != "ok":
                err = err or out
    if err:
        if err[0] == "anchor":
            raise MissingAnchor(err[1])
        if err[0] == "limit":
            raise Limit(err[1])
        raise RuntimeError(err[1])


# ---------------------------------------------------------------- the market's vocabulary
class Market:
    """the fields of FIFOMarket behind its public getters"""

    def __init__(self, ctx):
        self.ctx = ctx
        p = ctx.p
        self.side = ctx.adt("state::enums::Side")
        self.sides = p.variants(self.side)
        self.pkt = ctx.adt("order_schema::order_packet::OrderPacket")
        self.kinds = p.variants(self.pkt)
        self.traders = self.getter("get_registered_traders")
        self.books = {s: self.getter("get_book", {("side",): (self.side, v)}) for s, v in self.sides.items()}
        self.seq = self.getter("get_sequence_number")
        self.fee_bps = self.getter("get_taker_fee_bps")
        self.tick = self.getter("get_tick_size")
        self.blpbu = self.getter("get_base_lots_per_base_unit")
        self.collected = self.getter("get_collected_fee_amount")
        self.unclaimed = self.getter("get_uncollected_fee_amount")
        names = [self.traders] + list(self.books.values()) + [self.seq, self.fee_bps, self.tick, self.blpbu, self.collected, self.unclaimed]
        if len(set(names)) != len(names):
            raise MissingAnchor("the market's getters do not answer from distinct fields (%s)" % names)

    def fn(self, name):
        return self.ctx.p.one(name, adt="FIFOMarket", trait="WritableMarket")

    def argnames(self, key):
        b = self.ctx.p.body(key)
        return [b.names.get(i + 1, "arg%d" % i) for i in range(b.argc)]

    def getter(self, name, facts=None):
        key = self.ctx.p.one(name, adt="FIFOMarket", trait="Market")
        f = {}
        an = self.argnames(key)
        for (a,), (adt, v) in (facts or {}).items():
            f[mk("discr", mk("arg", an[-1]), adt)] = ("in", frozenset([v]))
        fx = Fx(self.ctx, key, facts=f)
        r = {q.p.ret for q in fx.rets}
        if len(r) != 1:
            raise MissingAnchor("%s does not answer with one field" % name)
        t = r.pop()
        if t.op == "field" and t.a[0] is mk("load", mk("arg", an[0])):
            return t.a[1]
        if t.op == "ref" and t.a[0] == ("D", mk("arg", an[0])) and len(t.a[1]) == 1:
            return t.a[1][0]
        raise MissingAnchor("%s does not answer with a field (%s)" % (name, pp(t)))


# ---------------------------------------------------------------- canonical terms
class Canon:
    """polynomial normal form under the facts of one path. quo: terms known to be multiples of base_lots_per_base_unit."""

    def __init__(self, eng, st, tick=None, blpbu=None, mult=()):
        self.eng = eng
        self.st = st
        self.tick = tick
        self.B = blpbu
        self.q = mk("tickquo") if tick is not None else None
        self.mult = set(mult)
        self.memo = {}
        self.par = {}
        self._edges = None
        for k, v in st.facts.items():
            if k.op == "Eq" and v[0] == "in" and v[1] == frozenset([1]) or k.op == "Sub" and v[0] == "in" and v[1] == frozenset([0]):
                a, b = self.find(unt(k.a[0])), self.find(unt(k.a[1]))
                if a is not b and a.op not in SUMS and b.op not in SUMS:
                    # the simpler spelling represents both
                    if (len(pp(a)), pp(a)) > (len(pp(b)), pp(b)):
                        a, b = b, a
                    self.par[b] = a

    def find(self, x):
        while x in self.par:
            x = self.par[x]
        return x

    def p(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._p(t)
            self.memo[t.id] = r
        return r

    def _p(self, t, raw=False):
        if is_int(t):
            return {(): t.a[0]} if t.a[0] else {}
        u = self.find(t)
        if u is not t and not raw:
            return self.p(u)
        op = t.op
        c = self.eng.cval(self.st, t) if not raw else None
        if c is not None:
            return {(): c} if c else {}
        if op == "Add":
            return self.nm(padd(self.p(t.a[0]), self.p(t.a[1]), 1))
        if op == "Sub":
            return self.nm(padd(self.p(t.a[0]), self.p(t.a[1]), -1))
        if op == "Mul":
            return self.nm(pmul(self.p(t.a[0]), self.p(t.a[1])))
        if op == "Div":
            return self.div(self.p(t.a[0]), self.p(t.a[1]))
        if op == "ite":
            k = self.truth(t.a[0])
            if k is not None:
                return self.p(t.a[1] if k else t.a[2])
            return {(t,): 1}
        if op in ("min", "max"):
            return self.minmax(op, [self.p(x) for x in t.a])
        if op == "ssub":
            a, b = self.p(t.a[0]), self.p(t.a[1])
            if self.le(b, a):
                return self.nm(padd(a, b, -1))
            if self.le(a, b):
                return {}
            return {(mk("ssubp", self.t(a), self.t(b)),): 1}
        if op == "trunc":
            return {(mk("trunc", self.t(self.p(t.a[0])), t.a[1]),): 1}
        if op == "Rem":
            return {(mk("remp", self.t(self.p(t.a[0])), self.t(self.p(t.a[1]))),): 1}
        return {(t,): 1}

    def truth(self, c):
        k = self.eng.truth(self.st, c)
        if k is not None:
            return k
        if c.op == "Not":
            k = self.truth(c.a[0])
            return None if k is None else 1 - k
        if c.op == "Lt":
            a, b = self.p(c.a[0]), self.p(c.a[1])
            if self.lt(a, b):
                return 1
            if self.le(b, a):
                return 0
        if c.op == "Eq":
            a, b = self.p(c.a[0]), self.p(c.a[1])
            if a == b:
                return 1
            d = padd(a, b, -1)
            if set(d) == {()}:
                return 0
        return None

    def t(self, p):
        """a term standing for a polynomial"""
        if not p:
            return I(0)
        if len(p) == 1:
            (m, c), = p.items()
            if not m:
                return I(c)
            if len(m) == 1 and c == 1:
                return m[0]
        return mk("poly", tuple(sorted(p.items(), key=lambda mc: tuple(x.id for x in mc[0]))))

    def unp(self, t):
        """the polynomial of a canonical term"""
        if is_int(t):
            return {(): t.a[0]} if t.a[0] else {}
        if t.op == "poly":
            return dict(t.a[0])
        return {(t,): 1}

    def nm(self, p):
        """T/B * B = T ; quo(A) * B = A"""
        if self.B is None or not any(self.B in m for m in p):
            return p
        r = {}
        for m, c in p.items():
            m = list(m)
            while self.B in m:
                x = next((x for x in m if x is self.q or x.op == "quo"), None)
                if x is None:
                    break
                m.remove(x)
                m.remove(self.B)
                m.append(self.tick if x is self.q else x.a[0])
            m = tuple(sorted(m, key=lambda z: z.id))
            r[m] = r.get(m, 0) + c
            if not r[m]:
                del r[m]
        return r

    def quo(self, p):
        """p / base_lots_per_base_unit when p is a known multiple of it"""
        r = {}
        for m, c in p.items():
            m = list(m)
            if self.B in m:
                m.remove(self.B)
            elif self.tick in m:
                m.remove(self.tick)
                m.append(self.q)
            else:
                x = next((x for x in m if x in self.mult), None)
                if x is None:
                    return None
                m.remove(x)
                m.append(mk("quo", x))
            m = tuple(sorted(m, key=lambda z: z.id))
            r[m] = r.get(m, 0) + c
            if not r[m]:
                del r[m]
        return r

    def div(self, n, d):
        if not n:
            return {}
        if set(d) == {()}:
            k = d[()]
            if k == 1:
                return n
            if set(n) == {()}:
                return self.unp(I(n[()] // k))
        if len(d) == 1:
            (dm, dc), = d.items()
            if dc == 1 and dm:
                if self.B is not None and dm == (self.B,):
                    r = self.quo(n)
                    if r is not None:
                        return r
                    # (x + B - 1) / B with x a multiple of B
                    m = padd(n, {(self.B,): 1, (): -1}, -1)
                    r = self.quo(m)
                    if r is not None:
                        return r
                out = {}
                for m, c in n.items():
                    m = list(m)
                    ok = True
                    for x in dm:
                        if x in m:
                            m.remove(x)
                        else:
                            ok = False
                            break
                    if not ok:
                        out = None
                        break
                    out[tuple(m)] = out.get(tuple(m), 0) + c
                if out is not None:
                    return out
        return {(mk("divp", self.t(n), self.t(d)),): 1}

    def minmax(self, op, ps):
        xs = []
        for p in ps:
            if len(p) == 1:
                (m, c), = p.items()
                if c == 1 and len(m) == 1 and m[0].op == op + "s":
                    xs += [self.unp(x) for x in m[0].a]
                    continue
            xs.append(p)
        keep = []
        for i, x in enumerate(xs):
            if any(x == y for y in keep):
                continue
            keep.append(x)
        drop = set()
        for i, x in enumerate(keep):
            for j, y in enumerate(keep):
                if i != j and i not in drop and j not in drop:
                    # x is redundant when y is at least as extreme
                    if self.le(y, x) if op == "min" else self.le(x, y):
                        drop.add(i)
        keep = [x for i, x in enumerate(keep) if i not in drop]
        if op == "min" and len(keep) > 1:
            # what exceeds the least of the others is redundant
            for y in list(keep):
                rest = [x for x in keep if x is not y]
                for mm, c in y.items():
                    if c >= 1 and len(mm) == 1 and mm[0].op == "mins" and all(self.unp(a) in rest for a in mm[0].a):
                        if all(k >= 0 for k in padd(y, {mm: 1}, -1).values()):
                            keep = rest
                            break
        if len(keep) == 1:
            return keep[0]
        return {(mk(op + "s", *sorted((self.t(x) for x in keep), key=lambda z: z.id)),): 1}

    # ---- order
    def edges(self):
        if self._edges is None:
            # the first pass sees no orderings; what it kept in normal form is redone with them
            self._edges = []
            self._edges = self._order()
            self.memo = {}
            more = [e for e in self._order() if e not in self._edges and e[0] != e[1]]
            if more:
                self._edges = self._edges + more
                self.memo = {}
        return self._edges

    def _order(self):
        e = []
        for k, v in self.st.facts.items():
            if (k.op == "Eq" and v == ("in", frozenset([1])) or k.op == "Sub" and v == ("in", frozenset([0]))) and (k.a[0].op in CUTS or k.a[1].op in CUTS):
                a, b = self._p(k.a[0], True), self._p(k.a[1], True)
                e += [(a, b, False), (b, a, False)]
            if k.op != "Lt" or v[0] != "in" or len(v[1]) != 1:
                continue
            a, b = self.p(k.a[0]), self.p(k.a[1])
            if 1 in v[1]:
                e.append((a, b, True))
            else:
                e.append((b, a, False))
        return e

    def le(self, x, y, d=0, strict=False):
        df = padd(y, x, -1)
        if all(c >= 0 for c in df.values()):
            if not strict:
                return True
            if df.get((), 0) >= 1:
                return True
            if any(len(m) == 1 and self.nz(m[0]) for m in df):
                return True
        if d > 3:
            return False
        for a, b, s in self.edges():
            if a == x and self.le(b, y, d + 1, strict and not s):
                return True
        if d == 0:
            # whole numbers: what is less is less by one at least
            for a, b, s in self.edges():
                k = padd(df, padd(b, a, -1), -1)
                if all(m == () for m in k) and (1 if s else 0) + k.get((), 0) >= (1 if strict else 0):
                    return True
        if len(y) == 1 and not strict:
            (m, c), = y.items()
            if c == 1 and len(m) == 1 and m[0].op == "divp" and self.le(self.nm(pmul(x, self.unp(m[0].a[1]))), self.unp(m[0].a[0]), d + 1):
                return True
        if len(x) == 1:
            (m, c), = x.items()
            if c >= 1:
                for k, a in enumerate(m):
                    rest = {m[:k] + m[k + 1:]: c}
                    if len(m) > 1:
                        for u, b, st in self.edges():
                            if len(u) == 1 and u.get((a,)) == 1 and self.le(self.nm(pmul(b, rest)), y, d + 1, strict):
                                return True
                    if a.op == "mins":
                        for z in a.a:
                            if self.le(self.nm(pmul(self.unp(z), rest)), y, d + 1, strict):
                                return True
                    if a.op == "divp" and self.unp(a.a[1]) == rest and not strict:
                        if self.le(self.unp(a.a[0]), y, d + 1):
                            return True
                    if a.op == "divp" and rest == {(): 1} and self.le(self.unp(a.a[0]), self.nm(pmul(y, self.unp(a.a[1]))), d + 1, strict):
                        return True
                    if a.op == "ssubp" and self.le(pmul(self.unp(a.a[0]), rest), y, d + 1, strict):
                        return True
                if len(m) == 1 and m[0].op == "maxs" and c == 1:
                    if all(self.le(self.unp(z), y, d + 1, strict) for z in m[0].a):
                        return True
        if len(y) == 1:
            (m, c), = y.items()
            if c == 1 and len(m) == 1:
                if m[0].op == "mins" and all(self.le(x, self.unp(z), d + 1, strict) for z in m[0].a):
                    return True
                if m[0].op == "maxs" and any(self.le(x, self.unp(z), d + 1, strict) for z in m[0].a):
                    return True
        return False

    def nz(self, a):
        """the atom is known to be nonzero"""
        f = self.st.facts.get(a)
        if f is not None and (f[0] == "notin" and 0 in f[1] or f[0] == "in" and 0 not in f[1]):
            return True
        for u, v, s in self.edges():
            if s and v == {(a,): 1}:
                return True
        if a.op == "maxs":
            return any(self.nonzero(self.unp(x)) for x in a.a)
        return False

    def nonzero(self, p):
        if not p:
            return False
        k = p.get((), 0)
        if k < 0 and len(p) > 1 and self.le({(): -k}, padd(p, {(): -k}, 1), 0, True):
            return True
        if all(c >= 0 for c in p.values()) and (p.get((), 0) > 0 or any(m and all(self.nz(x) for x in m) for m in p)):
            return True
        return any(s and v == p for u, v, s in self.edges()) or (len(p) == 1 and any(
            k.op == "Eq" and v == ("in", frozenset([0])) and is_int(k.a[1]) and k.a[1].a[0] == 0 and self.p(k.a[0]) == p for k, v in self.st.facts.items())) or any(
            v[0] == "notin" and 0 in v[1] and k.op in ("min", "max", "Div", "Sub", "Add", "Mul", "ssub") and self.p(k) == p for k, v in self.st.facts.items())

    def lt(self, x, y):
        return self.le(x, y, 0, True) or (self.le(x, y) and (self.differ(x, y) or self.nonzero(padd(y, x, -1))))

    def differ(self, x, y):
        for k, v in self.st.facts.items():
            if k.op == "Eq" and v[0] == "in" and v[1] == frozenset([0]):
                a, b = self.p(k.a[0]), self.p(k.a[1])
                if (a == x and b == y) or (a == y and b == x):
                    return True
        if not y and self.nonzero(x) or not x and self.nonzero(y):
            return True
        return False

    def zero(self, p):
        """p is known to be zero"""
        if not p:
            return True
        n = padd({}, p, -1)
        for k, v in self.st.facts.items():
            if k.op == "Eq" and v[0] == "in" and v[1] == frozenset([1]):
                d = self.nm(padd(self.p(k.a[0]), self.p(k.a[1]), -1))
                if d == p or d == n:
                    return True
            elif k.op in ("min", "max", "Div", "ssub") and v[0] == "in" and v[1] == frozenset([0]) and self.le(p, self._p(k, True)):
                return True
        return self.le(p, {})

    def eq(self, a, b):
        x, y = self.p(a), self.p(b)
        return x == y or (self.le(x, y) and self.le(y, x))


def absurd(st):
    """facts no run can have: equal terms without a value in common; a maximum below one of its terms; the owner of an order, put there as a 32-bit index (checked where orders are added),
    not being one; a register of 2^32 entries"""
    for k, (w, vs) in st.facts.items():
        if w == "in" and k.op == "Eq" and vs == frozenset([1]):
            a, b = (("in", frozenset(x.a)) if is_int(x) else st.facts.get(x) for x in k.a)
            if a and b and (a[0] == "in" and not (a[1] & b[1] if b[0] == "in" else a[1] - b[1]) or a[0] != "in" and b[0] == "in" and not b[1] - a[1]):
                return True
        if w == "in" and k.op == "max" and any(is_int(x) and all(v < x.a[0] for v in vs) for x in k.a):
            return True
        if w == "in" and vs == frozenset([0xffffffff]) and k.op == "call" and str(k.a[0]).endswith("get_addr"):
            return True
        if w == "in" and k.op == "Eq" and vs == frozenset([0]):
            for x, y in (k.a, k.a[::-1]):
                if y.op == "trunc" and y.a[1] == 32 and y.a[0] is x and x.op == "field" and x.a[1] == "trader_index":
                    return True
    return False


CUTS = ("min", "max", "ssub", "Div")
SUMS = ("Add", "Sub", "Mul", "Div")


def unt(t):
    """a trader's index is stored in 64 bits and used in 32"""
    while t.op == "trunc" and t.a[1] == 32:
        t = t.a[0]
    return t


def show(p):
    if not p:
        return "0"
    return " + ".join("%s%s" % ("" if c == 1 and m else str(c) + ("*" if m else ""), "*".join(short(pp(x)) for x in m)) for m, c in p.items())[:400]


# ---------------------------------------------------------------- segments
def undecided(eng, st, terms, limit=400):
    """conditions of choices the path's facts leave open, outermost first"""
    out = []
    seen = set()
    todo = list(terms)
    while todo:
        t = todo.pop(0)
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "loop":
            continue
        if t.op == "ite":
            k = eng.truth(st, t.a[0])
            if k is None:
                out.append(t.a[0])
                return out
            todo.append(t.a[1] if k else t.a[2])
            continue
        for x in t.a:
            if x.__class__ is Term:
                todo.append(x)
            elif isinstance(x, PairList):
                todo.extend(v for _, v in x)
    return out


class Seg:
    def __init__(self, sc, kind, p, start, end, evs, st, site=None, ret=None, to=None, head=None, tohead=None):
        self.sc = sc
        self.head = head        # the visit of that loop (one loop is entered in several ways)
        self.tohead = tohead
        self.to = to            # loop whose head a "pre" segment ends at
        self.kind = kind        # "pre" (up to a loop), "step" (one iteration), "final" (to the return)
        self.p = p
        self.start = start      # {root: value} at the start; None: function entry
        self.end = end
        self.evs = evs
        self.st = st
        self.site = site        # loop whose head the segment starts at
        self.ret = ret
        self.c = Canon(sc.fx.eng, st, sc.tick, sc.blpbu, sc.mult)

    @property
    def eng(self):
        return self.sc.fx.eng

    def under(self, st):
        s = Seg(self.sc, self.kind, self.p, self.start, self.end, self.evs, st, self.site, self.ret, self.to, self.head, self.tohead)
        return s

    def simp(self, t):
        if not hasattr(self, "_sc"):
            self._sc = {}
        return dsimp(self.eng, self.st, t, self._sc)

    def at_start(self, root):
        if self.start is not None and root in self.start:
            return self.start[root]
        return mk("load", root[1]) if root[0] == "D" else None

    # ---- the market's own fields
    def fld(self, name, end=True):
        r = ("D", self.sc.self_)
        v = self.end.get(r) if end else None
        if v is None:
            v = self.at_start(r)
        return project(v, name)

    def dfield(self, name):
        return self.c.nm(padd(self.c.p(self.simp(self.fld(name))), self.c.p(self.simp(self.fld(name, False))), -1))

    def origin(self, tree):
        """the market field a version of a tree goes back to"""
        n = 0
        while n < 60:
            n += 1
            if tree.op == "loop":
                tree = tree.a[2]
            elif tree.op == "after":
                tree = tree.a[0].a[2]
            elif tree.op == "ite":
                tree = tree.a[1]
            elif tree.op == "field" and tree.a[0].op == "load" and tree.a[0].a[0] is self.sc.self_:
                return tree.a[1]
            elif tree.op == "field" and tree.a[0].op == "field" and False:
                pass
            else:
                return None
        return None

    def nodes(self, field):
        """[(root, index term)] of the nodes of a tree touched by the end of the segment"""
        for r in self.end:
            if r[0] == "D" and r[1].op == "call" and str(r[1].a[0]).endswith("RedBlackTree::get_node") and self.origin(r[1].a[2]) == field:
                yield r, r[1].a[3]

    def idx(self, t):
        return self.c.t(self.c.p(unt(self.simp(t))))

    FIELDS = ("quote_lots_locked", "quote_lots_free", "base_lots_locked", "base_lots_free")

    def traders(self):
        """{trader index: {field: change}}"""
        if hasattr(self, "_tr"):
            return self._tr
        r = {}
        for root, i in self.nodes(self.sc.m.traders):
            a, b = project(self.at_start(root), "value"), project(self.end[root], "value")
            if a is b:
                continue
            for f in self.FIELDS:
                x, y = self.simp(project(a, f)), self.simp(project(b, f))
                if x is y:
                    continue
                d = self.c.nm(padd(self.c.p(y), self.c.p(x), -1))
                if d:
                    q = r.setdefault(self.idx(i), {})
                    q[f] = padd(q.get(f, {}), d, 1)
                    if not q[f]:
                        del q[f]
        self._tr = r
        return r

    def removed(self, side):
        """[(tree, key)] taken out of a book"""
        return [(t, k, e) for e, t, k in self._rm(self.sc.m.books[side])]

    def _rm(self, field):
        for e in self.evs:
            if e.name == "remove" and self.origin(self.simp(e.res.a[2])) == field:
                t, k = self.simp(e.res.a[2]), self.simp(e.res.a[3])
                if self.present(e.res.a[2], e.res.a[3]):
                    yield e, t, k

    def present(self, tree, key):
        if extreme_entry(key, tree) is not None:
            return True
        return self.eng.truth(self.st, mk_eq(addr_of(tree, key), I(0))) != 1

    def inserted(self, field):
        """[(key, value, event)] put into a tree"""
        r = []
        for e in self.evs:
            if e.name == "insert" and self.origin(self.simp(e.res.a[2])) == field:
                d = self.eng.discr(e.res, self.eng.OPT)
                if self.eng.inset(self.st, d, frozenset([0])) != 1:
                    r.append((self.simp(e.res.a[3]), self.simp(e.res.a[4]), e))
        return r

    def entry0(self, tree, key):
        """an order at the start of the segment"""
        x = extreme_entry(key, tree)
        if x is not None:
            return x
        root = ("D", node_of(tree, addr_of(tree, key)))
        return project(self.at_start(root), "value")

    def orders(self, side):
        """[Order] resting orders of a book changed in the segment"""
        key = "_o" + side
        if hasattr(self, key):
            return getattr(self, key)
        field = self.sc.m.books[side]
        r = {}
        for root, a in self.nodes(field):
            if a.op == "call" and str(a.a[0]).endswith("get_addr"):
                tree, k = a.a[2], a.a[3]
                v0 = self.entry0(tree, k)
                v1 = project(self.end[root], "value")
                ch = [(pth, x, y) for pth, x, y in diff(v0, v1) if self.simp(x) is not self.simp(y)] if v0 is not v1 else []
                if ch:
                    kk = self.okey(k)
                    r[kk] = Order(self, side, tree, k, v0, v1, False, None)
            else:
                v0, v1 = project(self.at_start(root), "value"), project(self.end[root], "value")
                if v0 is not v1 and list(diff(v0, v1)):
                    r[("?", a)] = Order(self, side, root[1].a[2], mk("unknownkey", a), v0, v1, False, None)
        for t, k, e in self.removed(side):
            kk = self.okey(k)
            o = r.get(kk)
            if o is not None and not o.gone:
                o.gone, o.ev = True, e
            else:
                r[(kk, len(r))] = Order(self, side, t, k, self.entry0(t, k), None, True, e)
        out = list(r.values())
        setattr(self, key, out)
        return out

    def owner_term(self, o):
        return self.simp(project(o.v0, "trader_index"))

    def okey(self, k):
        return (self.c.t(self.c.p(self.simp(project(k, "price_in_ticks")))), self.c.t(self.c.p(self.simp(project(k, "order_sequence_number")))))

    def worth(self, side, price, lots):
        """what an order of this size locks: quote lots for a bid, base lots for an ask (as polynomials)"""
        if side == "Ask":
            return lots
        return self.c.div(self.c.nm(pmul(pmul(self.c.p(price), {(self.sc.tick,): 1}), lots)), {(self.sc.blpbu,): 1})

    def records(self):
        """market events recorded in the segment"""
        return [e for e in self.evs if e.name == "dyncall" and e.vals and e.vals[0].op == "agg"]

    def trace(self):
        r = ["%s of %s:" % ({"pre": "from entry to a loop", "step": "one loop iteration", "final": "last stretch to the return"}[self.kind], self.sc.label)]
        for k, v in self.st.facts.items():
            r.append("  %s %s %s" % (short(pp(k))[:300], v[0], sorted(v[1])))
        for e in self.evs:
            if e.name != "search":
                r.append("  event %s(%s) at %s" % (e.name, ", ".join(short(pp(x))[:200] for x in e.vals), e.span))
        for i, d in self.traders().items():
            for f, q in d.items():
                r.append("  trader %s: %s += %s" % (short(pp(i))[:120], f, show(q)))
        for s in self.sc.m.books:
            for o in self.orders(s):
                r.append("  %s order %s: %s" % (s, short(pp(o.key))[:160], "removed" if o.gone else "changed"))
        return r


class Order:
    def __init__(self, seg, side, tree, key, v0, v1, gone, ev):
        self.seg, self.side, self.tree, self.key, self.v0, self.v1, self.gone, self.ev = seg, side, tree, key, v0, v1, gone, ev

    @property
    def price(self):
        return self.seg.simp(project(self.key, "price_in_ticks"))

    @property
    def seqno(self):
        return self.seg.simp(project(self.key, "order_sequence_number"))

    @property
    def owner(self):
        return self.seg.idx(project(self.v0, "trader_index"))

    @property
    def lots0(self):
        return self.seg.c.p(self.seg.simp(project(self.v0, "num_base_lots")))

    @property
    def lots1(self):
        return {} if self.gone else self.seg.c.p(self.seg.simp(project(self.v1, "num_base_lots")))

    @property
    def change(self):
        return padd(self.lots1, self.lots0, -1)

    def best(self):
        """it is the first order of its book"""
        c = self.key
        return c.op == "field" and c.a[1] == "0" and any(x.op == "call" and str(x.a[0]).endswith("get_min") and x.a[2] is self.tree for x in (c.a[0], c.a[0].a[0] if c.a[0].a and c.a[0].a[0].__class__ is Term else c.a[0]))

    def worst(self):
        c = self.key
        return c.op == "field" and c.a[1] == "0" and any(x.op == "call" and str(x.a[0]).endswith("get_max") and x.a[2] is self.tree for x in (c.a[0], c.a[0].a[0] if c.a[0].a and c.a[0].a[0].__class__ is Term else c.a[0]))


class Scenario:
    """one exploration of a market method, cut into segments"""

    def __init__(self, m, name, label=None, facts=None, key=None):
        self.m = m
        self.name = name
        self.label = label or name
        self.key = key or m.fn(name)
        self.an = m.argnames(self.key)
        self.self_ = mk("arg", self.an[0])
        me = mk("load", self.self_)
        self.tick = project(me, m.tick)
        self.blpbu = project(me, m.blpbu)
        self.mult = ()
        self.fx = Fx(m.ctx, self.key, facts=facts)
        self.where = self.key
        self.segs = []
        self.cut()
        self.mult = self.multiples()
        for s in self.segs:
            s.c = Canon(s.eng, s.st, self.tick, self.blpbu, self.mult)

    def arg(self, i):
        return mk("arg", self.an[i])

    def cut(self):
        heads = {}
        ends = self.fx.ends
        for p in ends:
            h = p.loop or p.it
            if h is not None:
                heads[id(h[4])] = h
        self.heads = heads
        looked = self.lookups()
        pre = {}
        for p in ends:
            if p.kind not in ("ret", "back") or id((p.loop or p.it or (0,) * 5)[4]) in looked:
                continue
            chain = p.st.events()
            cur = []
            last = None
            marks = []
            for e in chain:
                if e.name == "loop" and e.fn is None and id(e) in looked:
                    cur.append(looked[id(e)])
                elif e.name == "loop" and e.fn is None and id(e) in heads:
                    marks.append((last, e, cur))
                    last, cur = e, []
                elif e.name == "loop" and e.fn is None:
                    # an inner sequence whose iterations leave nothing behind
                    cur = cur + list(flat([e]))
                else:
                    cur.append(e)
            for a, e, evs in marks:
                pre.setdefault((id(a) if a is not None else None, id(e)), (a, e, evs))
            start = heads[id(last)][3] if last is not None else None
            self.segs += self.split(Seg(self, "step" if p.kind == "back" else "final", p, start, p.st.store, cur, p.st, heads[id(last)][0] if last is not None else None, p.ret, head=id(last) if last is not None else None))
        for (a, e, evs) in pre.values():
            h = heads[id(e)]
            st = _eng.St()
            st.facts = dict(e.facts or {})
            st.store = h[3]
            end = {r: deinit(v, h[0]) for r, v in h[3].items()}
            self.segs += self.split(Seg(self, "pre", None, heads[id(a)][3] if a is not None else None, end, evs, st, heads[id(a)][0] if a is not None else None, to=h[0], head=id(a) if a is not None else None, tohead=id(e)))

    def lookups(self):
        """loops that only look: iterations over a book that go on to the next order leave nothing behind; such a loop is a search whose result
        is the order at which it was left. {loop marker: search event}"""
        by = {}
        for p in self.fx.ends:
            if p.kind == "back" and p.loop:
                by.setdefault(id(p.loop[4]), []).append(p)
        r = {}
        for i, backs in by.items():
            site, _, _, store, ev = backs[0].loop[:5]
            has, left, ok = {}, [], True
            for p in backs:
                x = p.st.ev
                while x is not None and x[1] is not ev:
                    ok = ok and x[1].name == "search"
                    x = x[0]
                for root, v in p.st.store.items():
                    a = store.get(root)
                    ok = ok and (v is a or a is None and root[0] != "D" or v.op == "iter" and a is not None and a.op == "iter" and v.a[0] is a.a[0] and v.a[2] == a.a[2]
                                 or a is None and v.op == "load" and v.a[0] is root[1])
                f0 = ev.facts or {}
                new = {k: w for k, w in p.st.facts.items() if f0.get(k) != w}
                mine = {k for k, w in new.items() if k.op == "discr" and k.a[0].op == "call" and k.a[0].a[0] == "has_elem" and k.a[0].a[2].op == "tree_src" and w == ("in", frozenset([1]))}
                ok = ok and len(mine) == 1
                for k in mine:
                    has[k] = 1
                left.append({k: w for k, w in new.items() if k not in mine})
            ok = ok and len(has) == 1 and not any(x.op == "loop" and x.a[0] == site for v in store.values() for x in walk(v))
            if not ok:
                continue
            (d,) = has
            src, pos = d.a[0].a[2], d.a[0].a[3]
            its = [v for v in store.values() if v.op == "iter" and v.a[0] is src]
            if pos is not mk("any") or not any(v.a[1] is pos for v in its) or any(v.a[2] for v in its):
                continue
            at = d.a[0].a[1]
            el = mk("tuple", mk("elemkey", src.a[0], at), mk("elemval", src.a[0], at))
            eng = self.fx.eng
            found = mk("ite", mk_in(d, frozenset([1])), eng.some(el), eng.none())
            e = _eng.Event(name="search", site=site, span=ev.span, src=src, left=left, kind="find", facts=ev.facts, stack=ev.stack, vals=[], found=found, hit=False)
            e.fn = None
            r[i] = e
        return r

    def split(self, s):
        """decide the choices left open by merged paths"""
        out, todo = [], [s]
        n = 0
        while todo:
            s = todo.pop()
            terms = []
            for r, v in s.end.items():
                if r[0] != "D":
                    continue
                a = s.at_start(r)
                if a is not v:
                    for pth, x, y in diff(a, v):
                        terms += [x, y]
            if s.kind == "step" and s.start:
                for r, v in s.end.items():
                    if r[0] == "L" and r in s.start and s.start[r] is not v:
                        for pth, x, y in diff(s.start[r], v):
                            if x.op == "loop" and (x.a[0] == s.site):
                                terms.append(y)
            if s.ret is not None:
                terms.append(s.ret)
            for e in s.evs:
                if e.name in ("insert", "remove", "dyncall"):
                    terms += list(e.vals)
                    terms.append(e.res)
            for r in s.end:
                if r[0] == "D" and has_ite(r[1]):
                    terms.append(r[1])
            und = undecided(s.eng, s.st, terms)
            if not und:
                out += self.tidy(s)
                continue
            n += 1
            if n > 4000:
                raise Limit("too many cases in %s" % self.label)
            for v in (1, 0):
                for st in s.eng.assume(s.st.copy(), und[0], v):
                    todo.append(s.under(st))
        return out

    def tidy(self, s):
        """restate the segment with the decided choices made; nothing when its facts contradict one another"""
        sts = [s.st]
        for k, v in list(s.st.facts.items()):
            if not has_ite(k):
                continue
            nx = []
            for st in sts:
                k2 = dsimp(s.eng, st, k)
                if k2 is k:
                    nx.append(st)
                    continue
                st = st.copy()
                st.facts = {a: b for a, b in st.facts.items() if a is not k}
                nx += s.eng.assume_set(st, k2, v[1], 1 if v[0] == "in" else 0)
            sts = nx
        out = []
        for st in sts:
            if absurd(st):
                continue
            t = s.under(st)
            if t.kind == "final" and t.ret is not None and has_ite(t.ret):
                t.ret = t.simp(t.ret)
            if any(r[0] == "D" and has_ite(r[1]) for r in list(s.end) + list(s.start or ())):
                t.start = {} if s.start is not None else None
                t.end = {}
                at = {}
                for r in dict.fromkeys(list(s.end) + list(s.start or ())):
                    r2 = ("D", t.simp(r[1])) if r[0] == "D" else r
                    a, b = s.at_start(r), s.end.get(r)
                    if r2 in at:
                        # one place under two spellings: only one of them may have been written in this segment
                        a0, b0 = at[r2]
                        if b is None or b is a or (s.start is not None and r in s.start and s.start[r] is b):
                            continue
                        if b0 is not None and b0 is not a0:
                            raise Limit("%s: one place written under two names (%s)" % (self.label, pp(r2[1])[:200]))
                    at[r2] = (a, b)
                    if b is not None:
                        t.end[r2] = b
                    if s.start is not None and r in s.start:
                        t.start[r2] = s.start[r]
            out.append(t)
        return out

    def acc(self, s):
        """{loop term: value at the end of the iteration} of a step"""
        r = {}
        if s.kind != "step" or s.start is None:
            return r
        for root, v in s.end.items():
            a = s.start.get(root)
            if a is None or a is v:
                continue
            for pth, x, y in diff(a, v):
                if x.op == "loop":
                    leaves(x, s.simp(y), r)
        h = s.p.loop or s.p.it
        if h is not None and len(h) > 5 and h[5] is not None and s.p.ret is not None:
            for pth, x, y in diff(h[5], s.p.ret) if h[5] is not s.p.ret else []:
                if x.op == "loop":
                    leaves(x, s.simp(y), r)
        return r

    def multiples(self):
        """loop variables that stay multiples of base_lots_per_base_unit (tick size is one: checked where it is set)"""
        cand = {}
        steps = [s for s in self.segs if s.kind == "step"]
        ac = [(s, self.acc(s)) for s in steps]
        for s, a in ac:
            for x in a:
                cand.setdefault(x, None)
        mult = set(cand)
        while True:
            bad = set()
            for x in mult:
                c0 = Canon(self.fx.eng, steps[0].st, self.tick, self.blpbu, mult) if steps else None
                if not _num(init_of(x)) or c0.quo(c0.p(init_of(x))) is None:
                    bad.add(x)
            for s, a in ac:
                c = Canon(s.eng, s.st, self.tick, self.blpbu, mult)
                for x, y in a.items():
                    if x in mult and x not in bad and c.quo(c.p(y)) is None:
                        bad.add(x)
            if not bad:
                return mult
            mult -= bad


_ite = {}


def has_ite(t):
    r = _ite.get(t.id)
    if r is None:
        r = any(x.op == "ite" for x in walk(t))
        _ite[t.id] = r
    return r


def _num(t):
    return t.op in ("int", "field", "Add", "Sub", "Mul", "Div", "min", "max", "ite", "load")


def leaves(x, y, r):
    """the numbers a loop variable is made of"""
    i = init_of(x)
    if i.op == "tuple":
        ks = [str(k) for k in range(len(i.a))]
    elif i.op == "agg" and not isinstance(i.a[1], type(None)) and i.a[1] == "" or i.op == "agg" and len(i.a) > 2 and i.a[1] is None:
        ks = [k for k, _ in i.a[2]]
    else:
        r[x] = y
        return
    for k in ks:
        leaves(project(x, k), project(y, k), r)


def init_of(x):
    """what a loop variable starts from"""
    return x.a[2] if x.op == "loop" else project(init_of(x.a[0]), x.a[1])


def site_of(x):
    """the loop a term is a variable of, or None"""
    while x.op == "field":
        x = x.a[0]
    return x.a[0] if x.op == "loop" else None


def deinit(t, site):
    m = {}
    for x in walk(t):
        if x.op == "loop" and x.a[0] == site:
            m[x.id] = x.a[2]
    return sub_(t, m) if m else t
