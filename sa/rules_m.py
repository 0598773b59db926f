"""Rules on the matching engine: what every stretch of every market operation does to orders, balances, fees and counters."""
from ctx import *
from terms import T as Term
from rulebase import rule
from rules_e import Fx
from seg import *
import engine as _eng

LOCKED = {"Bid": "quote_lots_locked", "Ask": "base_lots_locked"}
FREE = {"Bid": "quote_lots_free", "Ask": "base_lots_free"}
OPP = {"Bid": "Ask", "Ask": "Bid"}
REMOVING = ("reduce_order", "cancel_all_orders", "cancel_up_to", "cancel_multiple_orders_by_id")
ONE = {(): 1}


class Place(Scenario):
    """place_order of one kind of order on one side"""

    def __init__(self, m, kind, side):
        key = m.fn("place_order")
        an = m.argnames(key)
        self.pk = mk("arg", an[2])
        self.kind, self.side, self.opp = kind, side, OPP[side]
        Scenario.__init__(self, m, "place_order", "place_order(%s %s)" % (kind, side), {
            mk("discr", self.pk, m.pkt): ("in", frozenset([m.kinds[kind]])),
            mk("discr", project(self.pk, kind + ".side"), m.side): ("in", frozenset([m.sides[side]]))})
        self.clocks = {}
        for p in self.fx.ends:
            for e in p.st.events():
                if e.name == "dyncall" and not e.vals:
                    self.clocks[e.res.id] = e.res

    def fld(self, name):
        return project(self.pk, self.kind + "." + name)

    def is_taker(self, s, t):
        """an index that is the taker's own"""
        t = unt(t)
        if is_int(t):
            return t.a[0] == 0xffffffff
        return t.op == "call" and str(t.a[0]).endswith("get_addr") and s.origin(t.a[2]) == self.m.traders and s.simp(t.a[3]) is mk("load", mk("arg", self.an[1]))

    def own(self, s, o):
        """1: the order is the taker's own, 0: it is not, None: undetermined"""
        i = s.owner_term(o)
        if self.kind == "ImmediateOrCancel" and s.c.p(unt(i)) == {(): 0xffffffff}:
            return 1
        if self.is_taker(s, s.c.find(unt(i))) or self.is_taker(s, unt(i)):
            return 1
        r = None
        for k, v in s.st.facts.items():
            if k.op == "Eq" and v[0] == "in" and len(v[1]) == 1:
                a, b = unt(k.a[0]), unt(k.a[1])
                for x, y in ((a, b), (b, a)):
                    if s.simp(x) is s.simp(i) and self.is_taker(s, s.simp(y)):
                        if 1 in v[1]:
                            return 1
                        r = 0
        f = s.st.facts.get(i)
        if f is not None and f[0] == "notin" and 0xffffffff in f[1] and self.kind == "ImmediateOrCancel":
            r = 0
        return r

    def live(self, s, v):
        """1: an order with these contents has not expired, 0: it has, None: undetermined"""
        r = 1
        for f, i in (("last_valid_slot", "0"), ("last_valid_unix_timestamp_in_seconds", "1")):
            t = s.simp(project(v, f))
            z = s.c.truth(mk_eq(t, I(0)))
            if z is None and s.c.nonzero(s.c.p(t)):
                z = 0
            ls = [s.c.truth(mk("Lt", t, project(c, i))) for c in self.clocks.values()]
            l = next((x for x in ls if x is not None), None)
            if z == 0 and l == 1:
                return 0
            if not (z == 1 or l == 0):
                r = None
        return r

    def packet_live(self, s):
        r = 1
        for f, i in (("last_valid_slot", "0"), ("last_valid_unix_timestamp_in_seconds", "1")):
            o = self.fld(f)
            d = s.eng.discr(o, s.eng.OPT)
            z = s.eng.inset(s.st, d, frozenset([0]))
            ls = [s.c.truth(mk("Lt", project(o, "Some.0"), project(c, i))) for c in self.clocks.values()]
            l = next((x for x in ls if x is not None), None)
            if z == 0 and l == 1:
                return 0
            if not (z == 1 or l == 0):
                r = None
        return r

    @property
    def steps(self):
        return [s for s in self.segs if s.kind == "step"]

    @property
    def finals(self):
        """returns with an answer"""
        return [s for s in self.segs if s.kind == "final" and not is_none(s.ret)]

    def roles(self, s):
        """the loop variables of the visit of the matching loop a segment starts from"""
        if not hasattr(self, "_roles"):
            self._roles = {}
        h = s.tohead if s.kind == "pre" else s.head
        if h not in self._roles:
            self._roles[h] = Roles(self, h)
        return self._roles[h]

    def heads_of(self):
        """{visit of the loop: one of its iterations}"""
        r = {}
        for s in self.steps:
            r.setdefault(s.head, s)
        return r

    def resp(self, s, name):
        return s.c.p(s.simp(project(response(s), name)))

    def placed(self, s):
        return s.simp(project(project(s.ret, "Some.0"), "0"))


def response(s):
    """the matching engine response a final segment answers with"""
    t = project(s.ret, "Some.0")
    return project(t, "1") if s.sc.name == "place_order" else t


def is_none(t):
    return t is not None and t.op == "agg" and t.a[1] == "None"


def places(R, ctx, body, kinds=None, more=()):
    m = Market(ctx)
    jobs = []
    for k in (kinds or m.kinds):
        if k not in m.kinds:
            raise MissingAnchor("order kind " + k)
        for sd in m.sides:
            jobs.append(("%s %s" % (k, sd), lambda R, k=k, sd=sd: scen(R, Place(m, k, sd), body)))
    for n in more:
        jobs.append((n, lambda R, n=n: scen(R, Scenario(m, n), body)))
    jobs.sort(key=lambda j: not j[0].startswith("Limit"))
    parallel(R, jobs)
    return m


def scen(R, sc, body):
    R.fns.add(sc.key)
    R.count("scenarios")
    R.count("segments", len(sc.segs))
    R.count("paths", len(sc.fx.ends))
    body(R, sc)


def at(s):
    """where a segment's last recorded happening is"""
    for e in reversed(s.evs):
        if e.span:
            return e.span
    return s.sc.where


# ------------------------------------------------------------------ what a step does
class Step:
    """effect of one stretch on the opposite (or given) book: none | empty | refund | fill | bad"""

    def __init__(self, s, o, side):
        self.s, self.o, self.side = s, o, side
        self.m = padd({}, o.change, -1)
        tr = s.traders()
        d = tr.get(o.owner, {})
        self.w = s.worth(side, o.price, self.m)
        self.x = s.worth(OPP[side], o.price, self.m)
        if not self.m:
            self.kind = "none" if not tr else "bad"
            if self.kind == "none" and o.gone:
                self.kind = "empty" if not o.lots0 else "none"
        elif d == {LOCKED[side]: neg(self.w), FREE[side]: self.w}:
            self.kind = "refund"
        elif d == {LOCKED[side]: neg(self.w), FREE[OPP[side]]: self.x}:
            self.kind = "fill"
        else:
            self.kind = "bad"
        if self.m and len(tr) != 1:
            self.kind = "bad"

    @property
    def whole(self):
        return not self.o.lots1


def neg(p):
    return padd({}, p, -1)


def steps_of(sc, s):
    """[Step] of one segment over both books"""
    return [Step(s, o, side) for side in sc.m.books for o in s.orders(side)]


def order_steps(sc):
    """[(segment, Step or None)] of the loop iterations of a place_order scenario"""
    r = []
    for s in sc.steps:
        st = steps_of(sc, s)
        r += [(s, x) for x in st] or [(s, None)]
    return r


def delta(s, acc, x):
    """change of a loop variable over an iteration"""
    y = acc.get(x)
    return {} if y is None else s.c.nm(padd(s.c.p(y), s.c.p(s.simp(x)), -1))


class Roles:
    """the loop variables of the matching loop, found by what fills do to them"""

    def __init__(self, sc, head):
        self.sc = sc
        self.head = head
        self.steps = [(s, x, sc.acc(s)) for s, x in order_steps(sc) if s.head == head]
        vs = {}
        for s, x, a in self.steps:
            for v in a:
                vs[v] = 1
        self.vars = list(vs)
        self.fills = [(s, x, a) for s, x, a in self.steps if x is not None and x.kind == "fill"]
        T_ = {(sc.tick,): 1}
        self.B, self.Q, self.matched, self.total, self.limit = [], [], [], [], []
        for v in self.vars:
            ds = []
            for s, x, a in self.fills:
                ds.append((delta(s, a, v), x.m, s.c.nm(pmul(pmul(s.c.p(x.o.price), T_), x.m))))
            if not ds:
                continue
            if all(d == neg(m) for d, m, q in ds):
                self.B.append(v)
            if all(d == neg(q) for d, m, q in ds):
                self.Q.append(v)
            if all(d == {(): -1} for d, m, q in ds):
                self.limit.append(v)
            rest = [(s, x, a) for s, x, a in self.steps if x is None or x.kind != "fill"]
            if all(d == m for d, m, q in ds) and all(not delta(s, a, v) for s, x, a in rest):
                self.matched.append(v)
            if all(d == q for d, m, q in ds) and all(not delta(s, a, v) for s, x, a in rest):
                self.total.append(v)
        known = self.B + self.Q + self.matched + self.total + self.limit
        self.flags = [v for v in self.vars if v not in known and is_int(init_of(v)) and init_of(v).a[0] in (0, 1)
                      and all(a.get(v, v) is v or boolean(a[v]) for s, x, a in self.steps)]


def boolean(t):
    return is_int(t) and t.a[0] in (0, 1) or t.op in ("Lt", "Eq", "Not", "discr") or t.op == "ite" and boolean(t.a[1]) and boolean(t.a[2])


# ------------------------------------------------------------------ M01
@rule("M01", how="Every market operation is cut at its loops into stretches (entry to loop, one iteration, last loop to return), each path of each stretch analysed from an arbitrary "
      "state: per trader entry, the exact change of its locked balance must equal what the orders it owns that were added, reduced or removed in the stretch lock (size for an ask, "
      "price x tick size x size / base lots per unit for a bid), as polynomials in normal form.")
def m01(R, ctx):
    def body(R, sc):
        for s in sc.segs:
            if s.kind == "final" and is_none(s.ret) and sc.name == "place_order":
                continue
            need = {}
            for side in sc.m.books:
                for o in s.orders(side):
                    k = (side, o.owner)
                    need[k] = padd(need.get(k, {}), s.worth(side, o.price, o.change), 1)
                for k, v, e in s.inserted(sc.m.books[side]):
                    q = (side, s.idx(project(v, "trader_index")))
                    need[q] = padd(need.get(q, {}), s.worth(side, s.simp(project(k, "price_in_ticks")), s.c.p(s.simp(project(v, "num_base_lots")))), 1)
            have = {}
            for i, d in s.traders().items():
                for side, f in LOCKED.items():
                    if f in d:
                        have[(side, i)] = d[f]
            for k in sorted(set(need) | set(have), key=lambda z: (z[0], z[1].id)):
                a, b = need.get(k, {}), have.get(k, {})
                R.count("locked balances compared")
                R.req(a == b, "locked", sc.label, "a trader's locked %s lots change by exactly what its orders lock" % ("quote" if k[0] == "Bid" else "base"), at(s),
                      lambda: s.trace() + ["orders need: " + show(a), "locked balance: " + show(b), "trader: " + short(pp(k[1]))[:300]])
    places(R, ctx, body, more=REMOVING + ("claim_funds", "collect_fees"))
    R.floor("locked balances compared", R.cov.get("locked balances compared", 0), 100)


# ------------------------------------------------------------------ M02
RESP = ("num_quote_lots_in", "num_base_lots_in", "num_quote_lots_out", "num_base_lots_out", "num_quote_lots_posted", "num_base_lots_posted", "num_free_quote_lots_used", "num_free_base_lots_used")


def imbalance(s, asset):
    """deposit - withdrawal - change of balances and fees over the segment; zero over a whole operation"""
    r = {}
    for i, d in s.traders().items():
        for f in ("locked", "free"):
            r = padd(r, d.get("%s_lots_%s" % (asset, f), {}), -1)
    if asset == "quote":
        r = padd(r, s.dfield(s.sc.m.unclaimed), -1)
    if s.kind == "final":
        if s.sc.name == "collect_fees":
            if asset == "quote":
                r = padd(r, s.c.p(s.simp(s.ret)), -1)
        else:
            ans = response(s)
            g = lambda n: s.c.p(s.simp(project(ans, n % asset)))
            for n, c in (("num_%s_lots_in", 1), ("num_%s_lots_posted", 1), ("num_free_%s_lots_used", -1), ("num_%s_lots_out", -1)):
                r = padd(r, g(n), c)
    return s.c.nm(r)


def subst(s, p, val):
    """p with loop variables replaced by val(x) (a polynomial)"""
    out = {}
    for m, c in p.items():
        t = {(): c}
        for x in m:
            if site_of(x) is not None:
                v = val(x)
                t = pmul(t, {(x,): 1} if v is None else v)
            elif x.op == "quo" and site_of(x.a[0]) is not None:
                v = val(x.a[0])
                q = {(x,): 1} if v is None else s.c.quo(v)
                if q is None:
                    return None
                t = pmul(t, q)
            elif any(site_of(y) is not None and val(y) is not None for y in walk(x)):
                return None
            else:
                t = pmul(t, {(x,): 1})
        out = padd(out, t, 1)
    return s.c.nm(out)


def conserve(R, sc, asset):
    F = {}
    why = {}

    def add(site, p, s):
        k = tuple(sorted(p.items(), key=lambda mc: tuple(x.id for x in mc[0])))
        F.setdefault(site, {})
        if k not in F[site]:
            F[site][k] = p
            why[(site, k)] = s
            return True
        return False

    def settled(p, s, k=None):
        R.count("balanced stretches")
        R.req(not p, "conserved " + asset, sc.label, "%s lots taken in, paid out, credited, locked and charged as fees add up" % asset, at(s),
              lambda: s.trace() + ["left over: " + show(p)] + (["for the ending:"] + why[k].trace() if k in why else []))
    new = []
    for s in sc.segs:
        if s.kind != "final" or is_none(s.ret) or (sc.name == "collect_fees" and False):
            continue
        p = imbalance(s, asset)
        if s.head is None:
            settled(p, s)
        elif add(s.head, p, s):
            new.append(s.head)
    # potentials of loops reached through other loops
    pres = [s for s in sc.segs if s.kind == "pre"]
    for _ in range(6):
        more = False
        for s in pres:
            if s.head is None:
                continue
            for p in list(F.get(s.tohead, {}).values()):
                q = subst(s, p, lambda x: s.c.p(s.simp(init_of(x))) if site_of(x) == s.to else None)
                if q is not None and add(s.head, padd(q, imbalance(s, asset), 1), s):
                    more = True
        if not more:
            break
    for s in pres:
        if s.head is None:
            for k, p in F.get(s.tohead, {}).items():
                q = subst(s, p, lambda x: s.c.p(s.simp(init_of(x))) if site_of(x) == s.to else None)
                settled(padd(q, imbalance(s, asset), 1) if q is not None else {(mk("unsettled"),): 1}, s, (s.tohead, k))
    for s in sc.segs:
        if s.kind != "step":
            continue
        a = sc.acc(s)
        g = imbalance(s, asset)
        for k, p in F.get(s.head, {}).items():
            q = subst(s, p, lambda x: s.c.p(a[x]) if x in a else None)
            settled(s.c.nm(padd(padd(q, p, -1), g, 1)) if q is not None else {(mk("unsettled"),): 1}, s, (s.head, k))


@rule("M02", how="Potential argument over the stretches of every market operation: what the last stretch leaves unaccounted for (deposits required minus withdrawals minus balance changes minus "
      "fees) is a polynomial in the loop variables that must start at zero and change in every loop iteration by exactly what the iteration moved between balances.")
def m02(R, ctx):
    import shared
    shared.registration(R, ctx)
    def body(R, sc):
        for asset in ("base", "quote"):
            conserve(R, sc, asset)
    places(R, ctx, body, more=REMOVING + ("claim_funds", "collect_fees"))
    R.floor("balanced stretches", R.cov.get("balanced stretches", 0), 100)


# ------------------------------------------------------------------ M03
def only_size(o):
    """nothing but the size of a reduced order changes"""
    return o.gone or all(pth and pth[-1] == "num_base_lots" for pth, x, y in _eng.diff(o.v0, o.v1) if o.seg.simp(x) is not o.seg.simp(y))


@rule("M03", how="Every iteration of the matching loop of every order kind and side: at most one resting order may change, on the opposite side only; its owner's balances must change by "
      "exactly a refund of the size taken off it or the exchange of that size at its own price (polynomial equality), no other trader's may change, and an order must leave the "
      "book exactly when nothing of it remains.")
def m03(R, ctx):
    def body(R, sc):
        for s in sc.steps:
            st = steps_of(sc, s)
            R.req(len(st) <= 1, "one order", sc.label, "an iteration of matching changes at most one resting order", at(s), s.trace)
            R.req(not s.inserted(sc.m.books["Bid"]) and not s.inserted(sc.m.books["Ask"]), "no order added", sc.label, "matching adds no order to a book", at(s), s.trace)
            if not st:
                R.req(not s.traders(), "idle", sc.label, "balances move only with an order", at(s), s.trace)
            for x in st:
                R.count("order changes judged")
                R.req(x.side == sc.opp, "opposite", sc.label, "only orders of the opposite side are taken", at(s), s.trace)
                R.req(x.kind != "bad", "exchange", sc.label, "the owner of a resting order is refunded, or exchanges, exactly what is taken off the order at the order's own price", at(s), s.trace)
                R.req(only_size(x.o), "contents", sc.label, "matching changes nothing of a resting order but its size", at(s), s.trace)
                R.req(x.o.gone or x.o.lots1 == x.o.lots0 or s.c.lt(x.m, x.o.lots0), "leaves book", sc.label, "an order of which nothing remains leaves the book", at(s), s.trace)
                if x.o.gone:
                    R.req(x.m == x.o.lots0, "leaves book", sc.label, "an order leaves the book with its whole size", at(s), s.trace)
                if x.kind == "fill":
                    R.count("fills judged")
        # the taker's side of the exchange
        if sc.kind != "PostOnly":
            nf = 0
            for h, s in sc.heads_of().items():
                r = sc.roles(s)
                nf += len(r.fills)
                R.req(len(r.matched) >= 1 and len(r.total) >= 1, "totals", sc.label, "the base lots and the value of all fills are added up", sc.where)
            for s in sc.finals:
                if s.site is None:
                    continue
                r = sc.roles(s)
                q, b = taken(s, "quote"), taken(s, "base")
                ms = [{(v,): 1} for v in r.matched]
                R.req(any(b == x for x in ms), "taker base", sc.label, "the taker's base lots are the total of its fills", at(s), lambda: s.trace() + ["base: " + show(b)])
                fee = s.dfield(sc.m.unclaimed)
                ts = [s.c.quo({(v,): 1}) for v in r.total if v in sc.mult]
                R.req(any(q == padd(x, fee, 1 if sc.side == "Bid" else -1) for x in ts), "taker quote", sc.label,
                      "the taker's quote lots are the value of its fills, plus the fee when buying and less the fee when selling", at(s), lambda: s.trace() + ["quote: " + show(q)])
                R.count("taker totals judged")
            R.floor("fills judged " + sc.label, nf, 1)
    places(R, ctx, body)
    R.floor("order changes judged", R.cov.get("order changes judged", 0), 50)


def taken(s, asset):
    """what the taker gives or receives of an asset by matching, whether settled with its wallet or its free balance"""
    sc = s.sc
    r = {}
    tr = s.traders()
    if (asset == "base") == (sc.side == "Bid"):
        # received
        r = sc.resp(s, "num_%s_lots_out" % asset)
        for i, d in tr.items():
            if sc.is_taker(s, i):
                r = padd(r, d.get("%s_lots_free" % asset, {}), 1)
        return s.c.nm(r)
    return s.c.nm(sc.resp(s, "num_%s_lots_in" % asset))


# ------------------------------------------------------------------ M04
@rule("M04", how="Every iteration of matching that changes a resting order: the order must be the first of its book as it stands at that moment; where the iteration exchanges balances (a fill) "
      "the path's conditions must entail that the order has not expired, is not empty and that its price is within the taker's limit.")
def m04(R, ctx):
    def body(R, sc):
        for s, x in order_steps(sc):
            if x is None:
                continue
            R.count("order changes judged")
            R.req(x.o.best(), "best first", sc.label, "only the first order of the opposite book is touched by matching", at(s), s.trace)
            if x.kind in ("fill", "bad"):
                R.count("fills judged")
                R.req(sc.live(s, x.o.v0) == 1, "live", sc.label, "an order is filled only if it has not expired", at(s), s.trace)
                R.req(s.c.nonzero(x.o.lots0), "size", sc.label, "an empty order is never filled", at(s), s.trace)
                R.req(within_limit(sc, s, x.o.price), "limit", sc.label, "an order is filled only at a price within the taker's limit", at(s), s.trace)
    places(R, ctx, body)
    R.floor("fills judged", R.cov.get("fills judged", 0), 20)


def within_limit(sc, s, price):
    lim = sc.fld("price_in_ticks")
    cs = [(s.st, s.c, lim)] if sc.kind != "ImmediateOrCancel" else [(st, c, v) for st, c, v in cases(sc, s, lim) if v is not None]
    for st, c, l in cs:
        pr, l2 = c.p(dsimp(s.eng, st, price)), c.p(l)
        if sc.side == "Bid":
            ok = c.le(pr, l2)
        else:
            ok = c.le(l2, pr) or c.le(c.p(mk("max", l, I(1))), pr)
        if not ok:
            return False
    return True


# ------------------------------------------------------------------ M05
def fee_of(sc, s, total):
    """ceil(total x bps / 10000), rounded up to whole quote lots"""
    m = sc.m
    me = mk("load", sc.self_)
    f = mk("Div", mk("Sub", mk("Add", mk("Mul", total, project(me, m.fee_bps)), I(10000)), I(1)), I(10000))
    out = []
    for t in (f, mk("trunc", f, 64)):
        out.append(s.c.p(mk("Div", mk("Add", t, mk("Sub", sc.blpbu, I(1))), sc.blpbu)))
    return out


@rule("M05", how="On every return of every order kind and side the uncollected fees must have grown by exactly the taker fee rate applied to the accumulated value of all fills, rounded up twice (term "
      "equality in normal form), the accumulator growing by price x tick x size in every fill and nowhere else; no other stretch of any operation may change the fee fields, except "
      "that collecting moves the uncollected fees to the collected ones and answers with them.")
def m05(R, ctx):
    def body(R, sc):
        m = sc.m
        for s in sc.segs:
            if s.kind == "final" and is_none(s.ret) and sc.name == "place_order":
                continue
            du, dc, db = s.dfield(m.unclaimed), s.dfield(m.collected), s.dfield(m.fee_bps)
            R.count("stretches judged")
            R.req(not db, "rate", sc.label, "the fee rate does not change", at(s), s.trace)
            if sc.name == "collect_fees":
                u0 = s.c.p(s.fld(m.unclaimed, False))
                ans = s.c.p(s.simp(s.ret)) if s.kind == "final" else {}
                R.req(s.kind == "final" and not s.c.p(s.simp(s.fld(m.unclaimed))) and dc == u0 and ans == u0, "collect", sc.label,
                      "collecting pays out all uncollected fees and books them as collected", at(s), s.trace)
                continue
            R.req(not dc, "collected", sc.label, "only collecting changes the collected fees", at(s), s.trace)
            if sc.name != "place_order" or s.kind != "final" or s.site is None or sc.kind == "PostOnly":
                R.req(not du, "uncollected", sc.label, "fees are charged once, at the end of matching", at(s), s.trace)
                continue
            r = sc.roles(s)
            R.count("fees judged")
            R.req(any(du in fee_of(sc, s, v) for v in r.total if is_int(init_of(v)) and not init_of(v).a[0]), "fee", sc.label,
                  "the fee is the fee rate applied to the total value of the fills, rounded up", at(s), lambda: s.trace() + ["fee: " + show(du)])
    places(R, ctx, body, more=REMOVING + ("claim_funds", "collect_fees"))
    R.floor("fees judged", R.cov.get("fees judged", 0), 20)


# ------------------------------------------------------------------ M06
def stb(sc, s):
    """self-trade behaviours possible on the path"""
    adt = sc.m.ctx.adt("state::enums::SelfTradeBehavior")
    vs = sc.m.ctx.p.variants(adt)
    d = mk("discr", sc.fld("self_trade_behavior"), adt)
    return [n for n, v in vs.items() if s.eng.inset(s.st, d, frozenset([v])) != 0]


@rule("M06", how="Every iteration of matching: a fill's path conditions must entail that the resting order is not the taker's own; an iteration on the taker's own order must be a pure refund "
      "matching the packet's self-trade behaviour (cancel: whole order, budgets untouched; decrement: the size taken off also comes off both budgets), and an aborting order may have no "
      "such iteration at all.")
def m06(R, ctx):
    def body(R, sc):
        n = 0
        for s, x in order_steps(sc):
            if x is None:
                continue
            r = sc.roles(s)
            own = sc.own(s, x.o)
            if x.kind in ("fill", "bad"):
                R.count("fills judged")
                R.req(own == 0, "not own", sc.label, "a taker never fills its own order", at(s), s.trace)
            if x.kind != "refund" or sc.live(s, x.o.v0) == 0:
                continue
            n += 1
            R.count("self trades judged")
            R.req(own == 1, "own", sc.label, "matching cancels only expired orders and the taker's own", at(s), s.trace)
            b = stb(sc, s)
            acc = sc.acc(s)
            q = s.c.nm(pmul(pmul(s.c.p(x.o.price), {(sc.tick,): 1}), x.m))
            R.req("Abort" not in b, "abort", sc.label, "an order that aborts on self trade never gets past its own order", at(s), s.trace)
            R.req(len(b) == 1, "behaviour", sc.label, "what happens on a self trade follows the order's self-trade behaviour", at(s), s.trace)
            dB = {v: delta(s, acc, v) for v in r.B}
            dQ = {v: delta(s, acc, v) for v in r.Q}
            if b == ["CancelProvide"]:
                R.req(x.whole, "cancel", sc.label, "cancel-provide cancels the whole resting order", at(s), s.trace)
                R.req(not any(dB.values()) and not any(dQ.values()), "cancel", sc.label, "cancel-provide leaves the taker's budgets alone", at(s), s.trace)
            elif b == ["DecrementTake"]:
                R.req(any(d == neg(x.m) for d in dB.values()), "decrement", sc.label, "decrement-take takes the cancelled size off the taker's size", at(s), s.trace)
                R.req(any(d == neg(q) for d in dQ.values()), "decrement", sc.label, "decrement-take takes the cancelled value off the taker's quote budget", at(s), s.trace)
                R.req(any(s.c.le(x.m, {(v,): 1}) for v in r.B) and any(s.c.le(q, {(v,): 1}) for v in r.Q), "decrement", sc.label, "decrement-take cancels no more than the taker's budgets", at(s), s.trace)
                R.req(any(x.m == mins3(s, vb, vq, sc, x.o) for vb in r.B for vq in r.Q), "decrement", sc.label, "decrement-take cancels as much as budgets and order allow", at(s), s.trace)
        for s in sc.segs:
            # an order that aborts is void as a whole: it does not just stop at its trader's own order
            if s.kind == "final" and s.site is not None and not is_none(s.ret) and "Abort" in stb(sc, s) and any(sc.own(s, o) == 1 for o in looked_at(sc, s)):
                R.count("exits at own orders judged")
                R.req(any(stopped(sc, s, sc.roles(s))), "abort", sc.label, "an order that aborts on self trade is refused as a whole", at(s), s.trace)
        if sc.kind != "PostOnly":
            R.floor("self trades judged " + sc.label, n, 2)
    places(R, ctx, body)
    R.floor("fills judged", R.cov.get("fills judged", 0), 20)


def mins3(s, vb, vq, sc, o, order=True):
    """min(base budget, quote budget / price per lot, size of the order)"""
    per = s.c.nm(pmul(s.c.p(o.price), {(sc.tick,): 1}))
    xs = [s.c.p(vb), s.c.div(s.c.p(vq), per)] + ([o.lots0] if order else [])
    return s.c.minmax("min", xs)


# ------------------------------------------------------------------ M07
@rule("M07", how="Every iteration of matching and every return: where the path's conditions entail that the resting order looked at has expired, the iteration must remove it whole, refund its owner, "
      "report it and leave the taker's totals alone; every refund of an order not the taker's own must be of an expired order; on paths where the placed order itself has expired "
      "nothing may change at all.")
def m07(R, ctx):
    def body(R, sc):
        n = 0
        for s, x in order_steps(sc):
            if x is None or not x.m:
                continue
            r = sc.roles(s)
            lv = sc.live(s, x.o.v0)
            R.req(lv is not None, "settled", sc.label, "an order met in matching is filled or cancelled only once it is settled whether it has expired", at(s), s.trace)
            if x.kind == "refund" and sc.own(s, x.o) != 1:
                R.req(lv == 0, "expired", sc.label, "an order of another trader is cancelled in matching only after it has expired", at(s), s.trace)
            if lv == 0:
                n += 1
                R.count("expired orders judged")
                R.req(x.kind == "refund" and x.o.gone, "removed", sc.label, "an expired order is removed whole and its owner refunded", at(s), s.trace)
                ev = [e.vals[0] for e in s.records()]
                R.req(len(ev) == 1 and ev[0].a[1] == "ExpiredOrder", "reported", sc.label, "the removal of an expired order is reported", at(s), s.trace)
                acc = sc.acc(s)
                R.req(not any(delta(s, acc, v) for v in r.B + r.Q + r.matched + r.total), "budgets", sc.label, "an expired order does not count as traded", at(s), s.trace)
        R.floor("expired orders judged " + sc.label, n, 2)
        k = 0
        for s in sc.segs:
            lv = sc.packet_live(s)
            if lv == 0 and s.kind == "final" and not is_none(s.ret):
                k += 1
                R.count("expired packets judged")
                R.req(s.site is None and not s.records() and untouched(s), "packet", sc.label, "an order that has expired when placed is neither matched nor posted", at(s), s.trace)
                R.req(is_none(sc.placed(s)) and not any(sc.resp(s, n) for n in RESP), "packet", sc.label, "an order that has expired when placed moves no funds", at(s), s.trace)
            elif s.kind in ("step", "final") and not is_none(s.ret):
                R.req(lv == 1, "packet", sc.label, "only an order that has not expired is matched or posted", at(s), s.trace)
        R.floor("expired packets judged " + sc.label, k, 1)
    places(R, ctx, body)


def untouched(s, books=True):
    """neither balances nor books change"""
    return not s.traders() and not any(s.orders(b) or s.inserted(s.sc.m.books[b]) for b in s.sc.m.books)


# ------------------------------------------------------------------ M08
@rule("M08", how="The loop variables of matching are identified by what fills do to them. Required of every iteration: the size taken is exactly the least of the size budget, the whole "
      "lots the quote budget buys at that price, and the resting order's size; both budgets start at what the packet allows and fall by exactly what was taken; the count of orders touched "
      "falls by one. Required of every exit: a budget, the count or the book is exhausted, the best price is beyond the limit, or the stop mark is set, which only a step that exhausts a budget may do.")
def m08(R, ctx):
    def body(R, sc):
        size, ml = sc.fld("num_base_lots"), sc.fld("match_limit")
        for h, s in sc.heads_of().items():
            r = sc.roles(s)
            for n, vs in (("size budget", r.B), ("quote budget", r.Q), ("order count", r.limit)):
                R.req(len(vs) >= 1, "bounded", sc.label, "matching is bounded by its %s" % n, sc.where)
        if sc.kind == "ImmediateOrCancel":
            budget_start(R, sc)
        for s in sc.segs:
            if s.kind != "pre":
                continue
            r = sc.roles(s)
            for v in r.B:
                got = s.c.p(s.simp(init_of(v)))
                # an order sized in quote lots has no bound in base lots
                z = sc.kind == "ImmediateOrCancel" and s.c.truth(mk_eq(size, I(0))) == 1
                R.req(got == ({(): 2 ** 64 - 1} if z else s.c.p(size)), "size", sc.label, "the size budget is the order's size, unlimited only if it gives none", at(s), lambda: s.trace() + ["budget: " + show(got)])
            for v in r.limit:
                for d in (0, 1):
                    for st2 in s.eng.assume_set(s.st.copy(), s.eng.discr(ml, s.eng.OPT), frozenset([d]), 1):
                        g = dsimp(s.eng, st2, init_of(v))
                        R.req(g is (project(ml, "Some.0") if d else I(2 ** 64 - 1)), "match limit", sc.label, "the number of orders touched is bounded by the match limit when one is given", at(s), s.trace)
        for s, x in order_steps(sc):
            r = sc.roles(s)
            if not (r.B and r.Q and r.limit):
                continue
            acc = sc.acc(s)
            R.count("iterations judged")
            R.req(any(delta(s, acc, v) == {(): -1} for v in r.limit), "match limit", sc.label, "every order touched counts towards the match limit", at(s), s.trace)
            R.req(any(s.c.nonzero({(v,): 1}) for v in r.limit), "match limit", sc.label, "no order is touched once the match limit is used up", at(s), s.trace)
            if x is not None and x.kind in ("fill", "bad"):
                R.count("fills judged")
                q = s.c.nm(pmul(pmul(s.c.p(x.o.price), {(sc.tick,): 1}), x.m))
                for v in r.B:
                    R.req(s.c.le(x.m, {(v,): 1}), "size", sc.label, "no fill exceeds the remaining size", at(s), s.trace)
                for v in r.Q:
                    R.req(s.c.le(q, {(v,): 1}), "quote", sc.label, "no fill exceeds the remaining quote budget", at(s), s.trace)
                R.req(any(x.m == mins3(s, vb, vq, sc, x.o) for vb in r.B for vq in r.Q), "as much as possible", sc.label,
                      "a fill takes as much as the budgets and the resting order allow", at(s), lambda: s.trace() + ["taken: " + show(x.m), "possible: " + show(mins3(s, r.B[0], r.Q[0], sc, x.o))])
            elif x is not None and x.kind == "none" and r.matched:
                R.req(any(s.c.zero(mins3(s, vb, vq, sc, x.o)) for vb in r.B for vq in r.Q), "as much as possible", sc.label,
                      "nothing is taken only if the budgets allow nothing", at(s), s.trace)
            # the stop mark
            for v in r.flags:
                y = acc.get(v)
                if y is None or y is init_of(v) or y is v:
                    continue
                for c in marked(sc, s, y, 1 - init_of(v).a[0]):
                    ok = x is not None and (c.lt(x.m, x.o.lots0) or any(x.m == mins3(s, vb, vq, sc, x.o, False) for vb in r.B for vq in r.Q))
                    R.req(ok, "stop mark", sc.label, "matching is told to stop only by a step that exhausts a budget", at(s), s.trace)
        for s in sc.segs:
            if s.kind == "final" and s.site is not None and not is_none(s.ret):
                R.count("exits judged")
                R.req(any(stopped(sc, s, sc.roles(s))), "exit", sc.label, "matching stops only when a budget, the match limit or the book is exhausted or the best price is beyond the limit", at(s), s.trace)
    places(R, ctx, body, kinds=["Limit", "ImmediateOrCancel"])
    R.floor("fills judged", R.cov.get("fills judged", 0), 20)
    R.floor("exits judged", R.cov.get("exits judged", 0), 20)


def marked(sc, s, y, v):
    """normal forms of the cases in which a yes-or-no value is v"""
    if is_int(y):
        return [s.c] if y.a[0] == v else []
    k = s.c.truth(y)
    if k is not None:
        return [s.c] if k == v else []
    return [Canon(s.eng, st, sc.tick, sc.blpbu, sc.mult) for st in s.eng.assume(s.st.copy(), y, v)]


def looked_at(sc, s):
    """best orders of the opposite book that a stretch looked at"""
    from seg import Order
    book = s.start.get(("D", sc.self_)) if s.start else None
    tree = project(book, sc.m.books[sc.opp]) if book is not None else None
    for k in {x for f in s.st.facts for x in walk(f) if x.op == "call" and str(x.a[0]).endswith("get_min") and x.a[2] is tree}:
        e = project(k, "Some.0")
        yield Order(s, sc.opp, tree, project(e, "0"), project(e, "1"), project(e, "1"), False, None)


def stopped(sc, s, r):
    for v in r.B + r.Q + r.limit:
        yield s.c.truth(mk_eq(v, I(0))) == 1 or not s.c.p(v)
    for v in r.flags:
        yield s.eng.truth(s.st, v) == 1 - init_of(v).a[0]
    book = s.start.get(("D", sc.self_)) if s.start else None
    tree = project(book, sc.m.books[sc.opp]) if book is not None else None
    for k, f in s.st.facts.items():
        if k.op == "discr" and k.a[0].op == "call" and str(k.a[0].a[0]).endswith("get_min") and k.a[0].a[2] is tree and f == ("in", frozenset([0])):
            yield True
    if tree is not None:
        for k in {x for f in s.st.facts for x in walk(f) if x.op == "call" and str(x.a[0]).endswith("get_min") and x.a[2] is tree}:
            price = project(project(project(k, "Some.0"), "0"), "price_in_ticks")
            yield beyond(sc, s, price)


def beyond(sc, s, price):
    lim = sc.fld("price_in_ticks")
    cs = [(s.st, s.c, lim)]
    if sc.kind == "ImmediateOrCancel":
        cs = []
        for st, c, v in cases(sc, s, lim):
            cs.append((st, c, I(2 ** 64 - 1 if sc.side == "Bid" else 0) if v is None else v))
    for st, c, l in cs:
        pr, l2 = c.p(dsimp(s.eng, st, price)), c.p(l)
        if sc.side == "Bid":
            ok = c.lt(l2, pr)
        else:
            ok = c.lt(pr, l2) or sc.kind == "Limit" and c.lt(pr, c.p(mk("max", l, I(1))))
        if not ok:
            return False
    return True


def cases(sc, s, opt):
    """[(state, normal form, contents or None)] of an optional value on a segment"""
    r = []
    for v in (0, 1):
        for st in s.eng.assume_set(s.st.copy(), s.eng.discr(opt, s.eng.OPT), frozenset([v]), 1):
            c = s.c if st.facts == s.st.facts else Canon(s.eng, st, sc.tick, sc.blpbu, sc.mult)
            r.append((st, c, project(opt, "Some.0") if v else None))
    return r


# ------------------------------------------------------------------ M09
def searches(sc, s):
    """[(search event, result known to be: None or the key found)] over the opposite book as the segment finds it"""
    book = s.fld(sc.m.books[sc.opp])
    for e in s.evs:
        if e.name != "search" or e.kind not in ("find", "any", "all", "position") or e.src.op != "tree_src":
            continue
        t = e.src.a[0]
        t = t.a[0] if t.op == "at" and t.a[0].__class__ is Term else t
        if s.simp(t) is not s.simp(book):
            continue
        if e.hit is not False:
            yield e, s.simp(e.hit) if e.hit is not None else None
            continue
        found = s.simp(e.found)
        d = s.eng.inset(s.st, s.eng.discr(found, s.eng.OPT), frozenset([1]))
        if d is not None:
            yield e, project(found, "Some.0") if d else None


def elem_of(key):
    """(contents of) the order a key of an iterated book belongs to"""
    return mk("elemval", *key.a) if key.op == "elemkey" else None


def dead(sc, s, left, price=None):
    """what a search passed over has expired or is empty, or is not reached by the price"""
    st = s.st.copy()
    st.facts = dict(left)
    t = s.under(st)
    vs = {x for k in left for x in walk(k) if x.op == "elemval"}
    if len(vs) != 1:
        return False
    ev = vs.pop()
    v = mk("load", ev)
    if t.c.zero(t.c.p(project(v, "num_base_lots"))) or sc.live(t, v) == 0:
        return True
    return price is not None and short_of(sc, t, t.c.p(price), t.c.p(project(mk("load", mk("elemkey", *ev.a)), "price_in_ticks")))


def short_of(sc, s, p, k):
    """a price p (polynomial) does not reach a price k of the opposite side"""
    return s.c.lt(p, k) if sc.side == "Bid" else s.c.lt(k, p)


def reaches(sc, s, p, k):
    return s.c.le(k, p) if sc.side == "Bid" else s.c.le(p, k)


def best_of(sc, s):
    """[(key, value) or None] what the path found out about the best opposite order"""
    tree = s.simp(s.fld(sc.m.books[sc.opp]))
    out = []
    for k in {x for f in s.st.facts for x in walk(f) if x.op == "call" and str(x.a[0]).endswith("get_min") and s.simp(x.a[2]) is tree}:
        d = s.eng.inset(s.st, s.eng.discr(k, s.eng.OPT), frozenset([1]))
        if d == 0:
            out.append(None)
        elif d == 1:
            e = project(k, "Some.0")
            out.append((project(e, "0"), project(e, "1")))
    return out


def posted(sc, s):
    """[(key, contents)] put on the order's own side"""
    return [(k, v) for k, v, e in s.inserted(sc.m.books[sc.side])]


def asked_price(sc, s):
    """an ask is placed at one tick at least"""
    p = sc.fld("price_in_ticks")
    return s.c.p(p if sc.side == "Bid" else mk("max", p, I(1)))


@rule("M09", how="Every return that leaves a new order on a book: the path must have found the opposite book empty or established that the new order's price lies strictly short of the best live order's; "
      "what a search passed over must have expired or be empty. A post-only order's stretches may contain no fill, its answer no traded lots, and its price may differ from the one asked for only "
      "by being moved one tick short of a live order it would have reached, if the order allows it.")
def m09(R, ctx):
    def body(R, sc):
        n = 0
        if sc.kind == "PostOnly":
            for s, x in order_steps(sc):
                if x is None:
                    continue
                R.count("post-only steps judged")
                R.req(x.kind == "empty" or x.kind == "refund" and sc.live(s, x.o.v0) == 0 and x.o.gone, "no taking", sc.label, "placing a post-only order takes nothing and removes only expired orders", at(s), s.trace)
        for s in sc.finals:
            if sc.kind == "PostOnly":
                R.req(not any(sc.resp(s, k) for k in RESP[:4]), "no taking", sc.label, "a post-only order trades nothing", at(s), s.trace)
            for k, v in posted(sc, s):
                n += 1
                R.count("posted orders judged")
                p = s.c.p(s.simp(project(k, "price_in_ticks")))
                if sc.kind == "Limit":
                    R.req(p == asked_price(sc, s), "price", sc.label, "a limit order rests at its own price", at(s), s.trace)
                    fs = list(searches(sc, s))
                    R.req(len(fs) >= 1, "crossing", sc.label, "the best live order of the opposite side is looked up before an order is left on the book", at(s), s.trace)
                    for e, found in fs:
                        for left in e.left:
                            R.count("orders passed over")
                            R.req(dead(sc, s, left, s.simp(project(k, "price_in_ticks"))), "crossing", sc.label, "only expired and empty orders are passed over in looking for the best opposite order", e.span or at(s), lambda: s.trace() + ["passed over: " + "; ".join("%s %s %s" % (short(pp(a))[:200], w[0], sorted(w[1])) for a, w in left.items())])
                        if found is not None:
                            q = s.c.p(s.simp(project(mk("load", project(found, "0")), "price_in_ticks")))
                            R.req(short_of(sc, s, p, q), "crossing", sc.label, "what is left of a limit order rests only strictly short of the best live opposite order", at(s), s.trace)
                    continue
                bs = best_of(sc, s)
                ok = False
                for b in bs:
                    ok = ok or b is None or short_of(sc, s, p, s.c.p(s.simp(project(b[0], "price_in_ticks"))))
                R.req(ok, "crossing", sc.label, "a post-only order rests only strictly short of the best live opposite order", at(s), s.trace)
                if p != asked_price(sc, s):
                    R.count("amended orders judged")
                    ok = False
                    for b in bs:
                        if b is None:
                            continue
                        q = s.c.p(s.simp(project(b[0], "price_in_ticks")))
                        ok = ok or sc.live(s, s.simp(b[1])) == 1 and reaches(sc, s, asked_price(sc, s), q) and p == padd(q, {(): 1}, -1 if sc.side == "Bid" else 1)
                    R.req(ok, "amended", sc.label, "a post-only order is moved only to one tick short of the live order it would have reached", at(s), s.trace)
                    R.req(s.c.truth(sc.fld("reject_post_only")) == 0 or s.eng.truth(s.st, sc.fld("reject_post_only")) == 0, "amended", sc.label, "an order that is to be rejected when it would cross is not moved", at(s), s.trace)
        R.floor("posted orders judged " + sc.label, n, 2)
    places(R, ctx, body, kinds=["Limit", "PostOnly"])
    R.floor("amended orders judged", R.cov.get("amended orders judged", 0), 2)


# ------------------------------------------------------------------ M10
def own_index(sc, s, t):
    """the index of the trader the order is placed for, in the register as the segment leaves it"""
    return sc.is_taker(s, t) or sc.is_taker(s, s.c.find(unt(t)))


@rule("M10", how="Every return and every loop iteration of order placement: an order may be added only on the packet's own side, by one insertion; its key must be the price and the next sequence number "
      "(complemented for a bid), its owner the placing trader, its size what is left of the order and its expiry the packet's, and its id must be the one answered. The sequence number must rise by one "
      "exactly when an order was added. An order with size left may go unposted only if the path established that a live opposite order is reached.")
def m10(R, ctx):
    def body(R, sc):
        m = sc.m
        for s in sc.segs:
            if s.kind == "final" and is_none(s.ret):
                continue
            ins = {sd: s.inserted(m.books[sd]) for sd in m.books}
            dseq = s.dfield(m.seq)
            R.count("stretches judged")
            if s.kind != "final" or sc.name != "place_order":
                R.req(not any(ins.values()) and not dseq, "only placing", sc.label, "orders are added and numbered only when one is placed", at(s), s.trace)
                continue
            new = ins[sc.side]
            R.req(not ins[sc.opp], "side", sc.label, "an order is added only on its own side", at(s), s.trace)
            R.req(len(new) <= 1, "one", sc.label, "at most one order is added", at(s), s.trace)
            R.req(dseq == ({(): 1} if new else {}), "sequence", sc.label, "the sequence number rises by one exactly when an order is added", at(s), lambda: s.trace() + ["change: " + show(dseq)])
            ans = sc.placed(s)
            if not new:
                R.req(is_none(ans), "answer", sc.label, "no id is answered when no order was added", at(s), s.trace)
            for k, v, e in new:
                R.count("posted orders judged")
                R.req(sc.kind != "ImmediateOrCancel", "never rests", sc.label, "an immediate-or-cancel order never rests", at(s), s.trace)
                seq = s.simp(s.fld(m.seq, False))
                want = mk("BitNot", seq) if sc.side == "Bid" else seq
                R.req(s.simp(project(k, "order_sequence_number")) is want, "id", sc.label, "a new order is numbered with the next sequence number, complemented for a bid", at(s), s.trace)
                R.req(s.simp(project(ans, "Some.0")) is s.simp(k) or all(s.c.p(s.simp(project(project(ans, "Some.0"), f))) == s.c.p(s.simp(project(k, f))) for f in ("price_in_ticks", "order_sequence_number")), "answer", sc.label,
                      "the id answered is the id of the order on the book", at(s), s.trace)
                R.req(own_index(sc, s, s.simp(project(v, "trader_index"))), "owner", sc.label, "the new order belongs to the trader that placed it", at(s), s.trace)
                lots = s.c.p(s.simp(project(v, "num_base_lots")))
                r = sc.roles(s) if s.site is not None and sc.kind == "Limit" else None
                want = [{(b,): 1} for b in r.B] + [s.c.p(b) for b in r.B] if r else [s.c.p(sc.fld("num_base_lots"))]
                R.req(lots in want, "size", sc.label, "the new order has the size that was left of the order placed", at(s), lambda: s.trace() + ["size: " + show(lots)])
                R.req(s.c.nonzero(lots), "size", sc.label, "an order added has a size", at(s), s.trace)
                R.req(s.c.nonzero(s.c.p(s.simp(project(k, "price_in_ticks")))), "price", sc.label, "an order added has a price of one tick at least", at(s), s.trace)
                for f in ("last_valid_slot", "last_valid_unix_timestamp_in_seconds"):
                    for st, c, val in cases(sc, s, sc.fld(f)):
                        got = dsimp(s.eng, st, project(v, f))
                        R.req(c.p(got) == (c.p(val) if val is not None else {}), "expiry", sc.label, "the new order has the expiry asked for, none if none", at(s), s.trace)
            if sc.kind == "ImmediateOrCancel" or new or sc.packet_live(s) == 0:
                continue
            R.count("unposted orders judged")
            if sc.kind == "PostOnly":
                R.req(s.c.zero(s.c.p(sc.fld("num_base_lots"))), "rests", sc.label, "a post-only order that is accepted rests", at(s), s.trace)
                continue
            r = sc.roles(s) if s.site is not None else None
            ok = r is not None and any(s.c.zero(s.c.p(b)) for b in r.B)
            for e, found in searches(sc, s):
                p = asked_price(sc, s)
                if found is None:
                    ok = ok or reaches(sc, s, p, {(): 2 ** 64 - 1} if sc.side == "Bid" else {})
                else:
                    v = s.simp(mk("load", project(found, "1")))
                    q = s.c.p(s.simp(project(mk("load", project(found, "0")), "price_in_ticks")))
                    ok = ok or sc.live(s, v) == 1 and s.c.nonzero(s.c.p(project(v, "num_base_lots"))) and reaches(sc, s, p, q)
            R.req(ok, "rests", sc.label, "what is left of a limit order is dropped only if it would reach a live order", at(s), s.trace)
    places(R, ctx, body, more=REMOVING + ("claim_funds", "collect_fees"))
    R.floor("posted orders judged", R.cov.get("posted orders judged", 0), 20)
    R.floor("unposted orders judged", R.cov.get("unposted orders judged", 0), 4)


# ------------------------------------------------------------------ M11
def topbit(c, x):
    """1: the condition says that x has its top bit set, 0: that it has not, None: something else"""
    if c.op == "Not":
        k = topbit(c.a[0], x)
        return None if k is None else 1 - k
    H = 1 << 63
    if c.op == "Eq":
        for a, b in (c.a, c.a[::-1]):
            if is_int(b):
                v = b.a[0]
                if a.op == "call" and str(a.a[0]).endswith("leading_zeros") and a.a[-1] is x and v == 0:
                    return 1
                if a.op == "Shr" and a.a[0] is x and is_int(a.a[1]) and a.a[1].a[0] == 63 and v in (0, 1):
                    return v
                if a.op == "BitAnd" and x in a.a and any(is_int(y) and y.a[0] == H for y in a.a) and v in (0, H):
                    return 1 if v else 0
    if c.op == "Lt":
        a, b = c.a
        if a is x and is_int(b) and b.a[0] == H:
            return 0
        if b is x and is_int(a) and a.a[0] == H - 1:
            return 1
        if is_int(a) and a.a[0] == 0 and b.op == "call" and str(b.a[0]).endswith("leading_zeros") and b.a[-1] is x:
            return 0
    return None


def compared(t, sides, path=()):
    """[(conditions taken, outcome)] of a comparison result"""
    if t.op == "ite":
        return compared(t.a[1], sides, path + ((t.a[0], 1),)) + compared(t.a[2], sides, path + ((t.a[0], 0),))
    return [(path, t)]


@rule("M11", how="The comparison of order ids is evaluated symbolically on two arbitrary ids and every outcome compared with the required order: price first (falling for bids, rising for asks), then "
      "sequence number in the direction that puts the older order first, the side being the top bit of the number; the function that tells the side of an id must read that same bit.")
def m11(R, ctx):
    p = ctx.p
    for name, tr, wrap in (("partial_cmp", "PartialOrd", True), ("cmp", "Ord", False)):
        key = p.one(name, adt="FIFOOrderId", trait=tr)
        R.fns.add(key)
        fx = Fx(ctx, key)
        b = p.body(key)
        me, other = (mk("load", mk("arg", b.names.get(i + 1, "arg%d" % i))) for i in range(2))
        price = lambda x: project(x, "price_in_ticks")
        seq = lambda x: project(x, "order_sequence_number")
        n = 0
        for q in fx.rets:
            ret = q.p.ret
            if wrap:
                R.req(ret.op == "agg" and ret.a[1] == "Some", "comparable", name, "any two order ids can be compared", key, lambda: [pp(ret)[:400]])
                if not (ret.op == "agg" and ret.a[1] == "Some"):
                    continue
                ret = project(ret, "Some.0")
            given = tuple((k, 1 if f[1] == frozenset([1]) else 0) for k, f in q.p.st.facts.items() if f[0] == "in" and len(f[1]) == 1 and k.op in ("Eq", "Lt", "Not"))
            for path, out in compared(ret, None, given):
                bid = eq = None
                for c, k in path:
                    t = topbit(c, seq(me))
                    if t is None:
                        t = topbit(c, seq(other))       # ids of one book
                    if t is not None:
                        v = k if t else 1 - k
                        if bid is not None and bid != v:
                            bid = "none"
                        elif bid is None:
                            bid = v
                    elif c.op == "Eq" and set(c.a) == {price(me), price(other)}:
                        eq = k
                if bid == "none":
                    continue
                n += 1
                R.count("outcomes judged")
                tr_ = lambda: ["%s of order ids:" % name] + ["  %s is %d" % (pp(c)[:200], k) for c, k in path] + ["  gives " + pp(out)[:300]]
                R.req(bid is not None and eq is not None, "decided", name, "the order of two ids depends on their side and whether their prices are equal", key, tr_)
                f = seq if eq else price
                want = (f(other), f(me)) if bid == 1 else (f(me), f(other))
                while out.op == "call" and str(out.a[0]).endswith("reverse"):
                    out, want = out.a[-1], want[::-1]
                R.req(out.op == "cmp" and tuple(out.a[-2:]) == want, "order", name, "better prices come first, and older orders first at one price", key, tr_)
        R.floor("outcomes of " + name, n, 4)
    # the side an id tells
    key = p.one("from_order_sequence_number", adt="Side")
    R.fns.add(key)
    fx = Fx(ctx, key)
    b = p.body(key)
    x = mk("arg", b.names.get(1, "arg0"))
    n = 0
    m = Market(ctx)
    for q in fx.rets:
        given = tuple((k, 1 if f[1] == frozenset([1]) else 0) for k, f in q.p.st.facts.items() if f[0] == "in" and len(f[1]) == 1)
        extra = [(k, f) for k, f in q.p.st.facts.items() if k.op == "call" and str(k.a[0]).endswith("leading_zeros")]
        for path, out in compared(q.p.ret, None, given):
            bid = None
            for c, k in path:
                t = topbit(c, x)
                if t is not None:
                    bid = k if t else 1 - k
            for k, f in extra:
                if k.a[-1] is x:
                    bid = 1 if f == ("in", frozenset([0])) else 0 if f[0] == "notin" and 0 in f[1] else bid
            n += 1
            R.req(bid is not None and out.op == "agg" and out.a[1] == ("Bid" if bid else "Ask"), "side", "from_order_sequence_number", "the top bit of an id's sequence number is set for bids", key,
                  lambda: ["%s is %s" % (pp(c), k) for c, k in path] + [pp(out)[:200]])
    R.floor("outcomes of from_order_sequence_number", n, 2)


# ------------------------------------------------------------------ M12
def full(s, side):
    """1: the path established that the book of that side holds as many orders as it can"""
    def call(t, n):
        return t.op == "call" and str(t.a[0]).endswith("::" + n) and s.origin(s.simp(t.a[2])) == s.sc.m.books[side]
    for k, f in s.st.facts.items():
        if f[0] != "in" or len(f[1]) != 1 or len(k.a) != 2:
            continue
        a, b = k.a
        if k.op == "Eq" and 1 in f[1] and (call(a, "len") and call(b, "capacity") or call(b, "len") and call(a, "capacity")):
            return 1
        if k.op == "Lt" and 0 in f[1] and call(a, "len") and call(b, "capacity"):
            return 1
    return 0


@rule("M12", how="Every return of order placement: an order other than the placed one may leave its own side only on a path that established the book to be full, adds the placed order, found the leaving "
      "order as the book's last and its price strictly less aggressive; it must leave whole, be refunded to its owner and be reported, and nothing else on that side may change.")
def m12(R, ctx):
    def body(R, sc):
        n = 0
        for s in sc.segs:
            if s.kind == "final" and is_none(s.ret):
                continue
            os = s.orders(sc.side)
            R.count("stretches judged")
            if s.kind != "final":
                R.req(not os, "only for a new order", sc.label, "an order's own side changes only when it is added", at(s), s.trace)
                continue
            R.req(len(os) <= 1, "one", sc.label, "at most one order is evicted", at(s), s.trace)
            new = posted(sc, s)
            for o in os:
                n += 1
                R.count("evictions judged")
                x = Step(s, o, sc.side) if not new else None
                R.req(bool(new), "only for a new order", sc.label, "an order is evicted only to add a new one", at(s), s.trace)
                R.req(full(s, sc.side) == 1, "full", sc.label, "an order is evicted only from a full book", at(s), s.trace)
                R.req(o.gone and o.worst(), "worst", sc.label, "the least aggressive order is the one evicted", at(s), s.trace)
                R.req(o.gone and o.change == neg(o.lots0), "whole", sc.label, "an evicted order leaves whole", at(s), s.trace)
                for k, v in new:
                    a, b = s.c.p(s.simp(project(k, "price_in_ticks"))), s.c.p(o.price)
                    R.req(s.c.lt(b, a) if sc.side == "Bid" else s.c.lt(a, b), "less aggressive", sc.label, "only a strictly more aggressive order evicts", at(s), s.trace)
                    # the owner: refunded what the order locked
                    w = s.worth(sc.side, o.price, o.lots0)
                    d = s.traders().get(o.owner, {})
                    if not own_index(sc, s, o.owner):
                        R.req(d == {LOCKED[sc.side]: neg(w), FREE[sc.side]: w}, "refund", sc.label, "the owner of an evicted order gets back what it locked", at(s), s.trace)
                R.req(any(e.vals[0].a[1] == "Evict" for e in s.records()), "reported", sc.label, "an eviction is reported", at(s), s.trace)
        if sc.kind != "ImmediateOrCancel":
            R.floor("evictions judged " + sc.label, n, 1)
    places(R, ctx, body)


# ------------------------------------------------------------------ M13
def caller(sc, s, t):
    """an index found by looking up the trader the operation is called for"""
    t = unt(t)
    if is_lookup(sc, s, t):
        return True
    r = s.c.find(t)
    return any(is_lookup(sc, s, x) for k, f in s.st.facts.items() if k.op == "Eq" and f == ("in", frozenset([1])) for x in (unt(k.a[0]), unt(k.a[1])) if s.c.find(x) is r)


def is_lookup(sc, s, t):
    return t.op == "call" and str(t.a[0]).endswith("get_addr") and s.origin(t.a[2]) == sc.m.traders and s.simp(t.a[3]) is mk("load", mk("arg", sc.an[1]))


def deregistered(s):
    return [e for e in s.evs if e.name == "remove" and s.origin(s.simp(e.res.a[2])) == s.sc.m.traders]


def node_value(s, i, end):
    """state of the trader at an index"""
    for root, j in s.nodes(s.sc.m.traders):
        if s.idx(j) is i:
            return project(s.end[root] if end else s.at_start(root), "value")
    return None


@rule("M13", how="The claiming operation explored from its entry with arbitrary arguments and state: per asset, what it answers as paid out must be the lesser of the amount asked for (all, if none) and the free "
      "balance, exactly that must come off the free balance of the trader named and nothing else may change; a trader may leave the register only here, only when the caller allows it and only on "
      "paths that established all four balances zero.")
def m13(R, ctx):
    def body(R, sc):
        for s in sc.segs:
            if s.kind == "final" and is_none(s.ret):
                continue
            rm = deregistered(s)
            R.count("stretches judged")
            if sc.name != "claim_funds":
                R.req(not rm, "deregistered", sc.label, "only claiming removes a trader from the register", at(s), s.trace)
                continue
            R.req(s.kind == "final" and not any(s.orders(b) or s.inserted(sc.m.books[b]) for b in sc.m.books) and not s.records(), "only balances", sc.label, "claiming changes balances only", at(s), s.trace)
            tr = s.traders()
            R.req(all(caller(sc, s, i) for i in tr), "trader", sc.label, "claiming changes only the balances of the trader named", at(s), s.trace)
            d = {}
            for i in tr:
                d = tr[i]
            R.req(set(d) <= {"quote_lots_free", "base_lots_free"}, "free only", sc.label, "claiming takes only from free balances", at(s), s.trace)
            for asset in ("quote", "base"):
                opt = next((mk("arg", a) for a in sc.an if a == "num_%s_lots" % asset), None)
                if opt is None:
                    raise MissingAnchor("claim_funds has no argument num_%s_lots" % asset)
                f = "%s_lots_free" % asset
                out = s.simp(project(response(s), "num_%s_lots_out" % asset))
                bal = s.simp(project(mk("load", mk("x")), f))
                for root, i in s.nodes(sc.m.traders):
                    if caller(sc, s, s.simp(i)):
                        bal = s.simp(project(project(s.at_start(root), "value"), f))
                for st, c, v in cases(sc, s, opt):
                    want = c.minmax("min", [c.p(dsimp(s.eng, st, v)), c.p(bal)]) if v is not None else c.p(bal)
                    got = c.p(dsimp(s.eng, st, out))
                    R.count("claims judged")
                    R.req(got == want, "amount", sc.label, "the lesser of the amount asked for and the free balance is paid out", at(s), lambda: s.trace() + ["paid: " + show(got), "expected: " + show(want)])
                R.req(d.get(f, {}) == neg(s.c.p(out)), "amount", sc.label, "what is paid out comes off the free balance", at(s), s.trace)
                for n in ("num_%s_lots_in", "num_%s_lots_posted", "num_free_%s_lots_used"):
                    R.req(not s.c.p(s.simp(project(response(s), n % asset))), "amount", sc.label, "claiming takes nothing in", at(s), s.trace)
            allow = next((mk("arg", a) for a in sc.an if a == "allow_seat_eviction"), mk("arg", sc.an[-1]))
            for e in rm:
                R.count("deregistrations judged")
                R.req(s.eng.truth(s.st, allow) == 1, "deregistered", sc.label, "a trader is removed only if that is asked for", at(s), s.trace)
                key = s.simp(e.res.a[3])
                i = next((j for root, j in s.nodes(sc.m.traders) if caller(sc, s, s.simp(j))), None)
                v = node_value(s, s.idx(i), True) if i is not None else None
                for f in Seg.FIELDS:
                    R.req(v is not None and s.c.zero(s.c.p(s.simp(project(v, f)))), "deregistered", sc.label, "a trader is removed only with all balances zero", at(s), s.trace)
                R.req(key is mk("load", mk("arg", sc.an[1])) or i is not None and key is s.simp(project(mk("load", node_of(e.res.a[2], s.simp(i))), "key")), "deregistered", sc.label, "the trader removed is the one named", at(s), lambda: s.trace() + ["removed: " + pp(key)[:300]])
    places(R, ctx, body, more=REMOVING + ("claim_funds", "collect_fees"))
    R.floor("claims judged", R.cov.get("claims judged", 0), 4)
    R.floor("deregistrations judged", R.cov.get("deregistrations judged", 0), 1)


# ------------------------------------------------------------------ M14
def maker(s, i):
    """the key registered at an owner's index"""
    return s.simp(project(mk("load", node_of(s.simp(project(mk("load", s.sc.self_), s.sc.m.traders)), i)), "key"))


def is_maker(s, t, o):
    """t is the key of the owner of an order"""
    t = s.simp(t)
    if t.op == "field" and t.a[1] == "key" and t.a[0].op == "load":
        n = t.a[0].a[0]
        return n.op == "call" and str(n.a[0]).endswith("get_node") and s.origin(n.a[2]) == s.sc.m.traders and s.idx(n.a[3]) is o.owner
    return False


@rule("M14", how="Every stretch of every operation: the events handed to the recorder must match, one for one and field by field (polynomial equality), what the stretch did - a fill, a reduction, an expiry, an "
      "eviction, an order placed, its expiry times - and each return of a matching order must report one summary with the totals and the fee. No other event may be reported.")
def m14(R, ctx):
    def body(R, sc):
        m = sc.m
        for s in sc.segs:
            if s.kind == "final" and is_none(s.ret):
                continue
            recs = [e.vals[0] for e in s.records()]
            R.count("stretches judged")
            R.req(all(r.op == "agg" for r in recs) and not any(e.name == "dyncall" and e.vals and e.vals[0].op != "agg" for e in s.evs), "known", sc.label, "every event reported is known", at(s), s.trace)
            g = lambda r, f: s.c.p(s.simp(project(r, r.a[1] + "." + f)))
            left = list(recs)

            def expect(kind, fields, what, when=lambda r: True, opt=False):
                R.count("events judged")
                for r in left:
                    if r.a[1] == kind and all(g(r, f) == v for f, v in fields.items()) and when(r):
                        left.remove(r)
                        return
                R.req(opt, "reported", sc.label, "%s is reported with its exact figures" % what, at(s),
                      lambda: s.trace() + ["expected %s(%s)" % (kind, ", ".join("%s: %s" % (f, show(v)) for f, v in fields.items()))] + ["reported " + pp(r)[:600] for r in recs])
            for side in m.books:
                for o in s.orders(side):
                    lots = padd({}, o.change, -1)
                    base = {"order_sequence_number": s.c.p(o.seqno), "price_in_ticks": s.c.p(o.price)}
                    x = Step(s, o, side)
                    mk_ = lambda r, o=o: is_maker(s, project(r, r.a[1] + ".maker_id"), o)
                    if not lots:
                        continue
                    if sc.name == "place_order" and side == sc.side:
                        expect("Evict", dict(base, base_lots_evicted=lots), "an eviction", mk_)
                    elif sc.name == "place_order" and x.kind == "fill":
                        expect("Fill", dict(base, base_lots_filled=lots, base_lots_remaining=o.lots1), "a fill", mk_)
                    elif sc.name == "place_order" and sc.live(s, o.v0) == 0:
                        expect("ExpiredOrder", dict(base, base_lots_removed=lots), "an expiry", mk_)
                    else:
                        expect("Reduce", dict(base, base_lots_removed=lots, base_lots_remaining=o.lots1), "a reduction")
            tif = 0
            if sc.name == "place_order" and s.kind == "final":
                if sc.kind != "PostOnly" and sc.packet_live(s) == 1:
                    expect("FillSummary", {"client_order_id": s.c.p(s.simp(sc.fld("client_order_id"))), "total_base_lots_filled": taken(s, "base"), "total_quote_lots_filled": taken(s, "quote"),
                                           "total_fee_in_quote_lots": s.dfield(m.unclaimed)}, "the total of an order's fills")
                for k, v in posted(sc, s):
                    f = lambda n: s.c.p(s.simp(project(k, n)))
                    sq = f("order_sequence_number")
                    expect("Place", {"order_sequence_number": sq, "price_in_ticks": f("price_in_ticks"), "client_order_id": s.c.p(s.simp(sc.fld("client_order_id"))),
                                     "base_lots_placed": s.c.p(s.simp(project(v, "num_base_lots")))}, "a placed order")
                    ts = {n: s.c.p(s.simp(project(v, n))) for n in ("last_valid_slot", "last_valid_unix_timestamp_in_seconds")}
                    some = any(s.c.nonzero(t) for t in ts.values())
                    none = all(s.c.zero(t) for t in ts.values())
                    R.req(some or none, "expiry reported", sc.label, "whether an order's expiry is reported follows from whether it has one", at(s), s.trace)
                    if some:
                        expect("TimeInForce", dict(ts, order_sequence_number=sq), "the expiry of a placed order")
                    pos = [r.a[1] for r in recs]
                    order = [x for x in pos if x in ("FillSummary", "Evict", "Place", "TimeInForce")]
                    R.req(order == sorted(order, key=["FillSummary", "Evict", "Place", "TimeInForce"].index), "order", sc.label, "an order is reported after what made room for it", at(s), s.trace)
            if sc.name == "collect_fees" and s.kind == "final":
                expect("Fee", {"fees_collected_in_quote_lots": s.c.p(s.simp(s.ret))}, "a fee collection")
            for r in left:
                ok = r.a[1] == "Reduce" and not g(r, "base_lots_removed") and untouched(s)
                R.req(ok, "nothing else", sc.label, "only what happened is reported", at(s), lambda: s.trace() + ["reported " + pp(r)[:600]])
    places(R, ctx, body, more=REMOVING + ("claim_funds", "collect_fees"))
    R.floor("events judged", R.cov.get("events judged", 0), 100)


# ------------------------------------------------------------------ M15
@rule("M15", how="Every successful return of an immediate-or-cancel order: the path must have established that exactly one of its two sizes is nonzero and that what was taken (term equality with the "
      "totals of the fills, as answered) reaches both minimums; with deposited funds only, a registered trader's answer must need no deposit and pay nothing out, for every kind of order.")
def m15(R, ctx):
    def body(R, sc):
        for s in sc.finals:
            if sc.packet_live(s) == 0:
                continue
            R.count("returns judged")
            base, quote = s.c.p(s.simp(sc.fld("num_base_lots"))) if "num_base_lots" in fields(sc) else {}, {}
            if sc.kind == "ImmediateOrCancel":
                quote = s.c.p(s.simp(sc.fld("num_quote_lots")))
                z, nz = s.c.zero, s.c.nonzero
                R.req(z(base) and nz(quote) or nz(base) and z(quote), "one size", sc.label, "an immediate-or-cancel order is sized in base or in quote lots, never both or neither", at(s), s.trace)
                for asset in ("base", "quote"):
                    mn = s.c.p(s.simp(sc.fld("min_%s_lots_to_fill" % asset)))
                    got = taken(s, asset)
                    R.count("minimums judged")
                    R.req(s.c.le(mn, got), "minimum", sc.label, "an immediate-or-cancel order succeeds only if its minimums are taken", at(s), lambda: s.trace() + ["minimum: " + show(mn), "taken: " + show(got)])
            only = s.eng.truth(s.st, sc.fld("use_only_deposited_funds"))
            reg = None
            if only == 0:
                continue
            if sc.kind == "ImmediateOrCancel" and registered(sc, s) == 0:
                continue
            R.count("deposited-only returns judged")
            R.req(only == 1, "deposited only", sc.label, "every order is settled by whether it may use deposited funds only", at(s), s.trace)
            for asset in ("quote", "base"):
                g = lambda n: sc.resp(s, n % asset)
                need = s.c.nm(padd(padd(g("num_%s_lots_in"), g("num_%s_lots_posted"), 1), g("num_free_%s_lots_used"), -1))
                R.req(s.c.zero(need), "deposited only", sc.label, "an order on deposited funds only needs no deposit", at(s), lambda: s.trace() + ["needs: " + show(need)])
                R.req(s.c.zero(g("num_%s_lots_out")), "deposited only", sc.label, "an order on deposited funds only pays nothing out", at(s), s.trace)
    places(R, ctx, body)
    R.floor("minimums judged", R.cov.get("minimums judged", 0), 20)
    R.floor("deposited-only returns judged", R.cov.get("deposited-only returns judged", 0), 20)


def fields(sc):
    return ("num_base_lots",)


def registered(sc, s):
    """1: the placing trader has a place in the register, 0: it has none"""
    for k, f in s.st.facts.items():
        if k.op == "call" and str(k.a[0]).endswith("get_addr") and caller(sc, s, k):
            if f == ("in", frozenset([0])):
                return 0
            if f[0] == "notin" and 0 in f[1]:
                return 1
    return None


# ------------------------------------------------------------------ M16
OK_STAGES = {"filter", "filter_map", "map", "inspect", "cloned", "copied", "enumerate", "by_ref", "fuse", "rev", "peekable", "flat_map"}


def arg_named(sc, n):
    if n not in sc.an:
        raise MissingAnchor("%s has no argument %s" % (sc.name, n))
    return mk("arg", sc.an[sc.an.index(n)])


def releases(sc, s, claim, case):
    """what an operation pays out of released lots"""
    k = s.eng.truth(s.st, claim)
    return k if k is not None else case


def side_known(sc, s, key, side):
    """the side an order id is looked for on: the one named, or the one its number tells"""
    if side is not None:
        d = mk("discr", side, sc.m.side)
        for n, v in sc.m.sides.items():
            if s.eng.inset(s.st, d, frozenset([v])) == 1:
                return n
        return None
    x = s.simp(project(key, "order_sequence_number"))
    for k, f in s.st.facts.items():
        if k.op == "call" and str(k.a[0]).endswith("leading_zeros") and s.simp(k.a[-1]) is x:
            if f == ("in", frozenset([0])):
                return "Bid"
            if f[0] == "notin" and 0 in f[1]:
                return "Ask"
        if k.op in ("Eq", "Lt") and f[0] == "in" and len(f[1]) == 1:
            t = topbit(k, x)
            if t is not None:
                return "Bid" if t == (1 if 1 in f[1] else 0) else "Ask"
    return None


def absent(s, key, side):
    """the path established that no order of that id is on the book"""
    for k, f in s.st.facts.items():
        if k.op == "call" and str(k.a[0]).endswith("get_addr") and f == ("in", frozenset([0])) and s.origin(s.simp(k.a[2])) == s.sc.m.books[side] and s.simp(k.a[3]) is key:
            return True
    return False


def foreign(sc, s, key, side):
    """the path established that the order of that id belongs to another trader"""
    for k, f in s.st.facts.items():
        if k.op == "Eq" and f == ("in", frozenset([0])):
            for a, b in (k.a, k.a[::-1]):
                a, b = unt(s.simp(a)), unt(s.simp(b))
                if caller(sc, s, b) and a.op == "field" and a.a[1] == "trader_index":
                    ks = [x for x in walk(a) if x.op == "call" and str(x.a[0]).endswith("get_addr")]
                    if any(s.origin(x.a[2]) == sc.m.books[side] and s.simp(x.a[3]) is key for x in ks):
                        return True
    return False


def one_reduction(R, sc, s, key, side, size, claim, paid):
    """a stretch that handles the order of one id"""
    m = sc.m
    lab = sc.label
    sd = side_known(sc, s, key, side)
    R.count("reductions judged")
    R.req(sd is not None, "side", lab, "the order is looked for on the side named, or the side its id tells", at(s), s.trace)
    if sd is None:
        return
    os = [(b, o) for b in m.books for o in s.orders(b)]
    tr = s.traders()
    R.req(len(os) <= 1, "one order", lab, "one id changes one order at most", at(s), s.trace)
    R.req(not any(s.inserted(m.books[b]) for b in m.books), "no order added", lab, "no order is added", at(s), s.trace)
    if not os:
        R.req(not tr and not any(paid.values()), "nothing", lab, "if no order is changed, no funds are", at(s), s.trace)
        z = size is not None and s.eng.inset(s.st, s.eng.discr(size, s.eng.OPT), frozenset([1])) == 1 and s.c.zero(s.c.p(s.simp(project(size, "Some.0"))))
        R.req(z or absent(s, key, sd) or foreign(sc, s, key, sd), "done", lab, "the order asked for is changed if it is there and the caller's own", at(s), s.trace)
        return
    for b, o in os:
        R.count("orders judged")
        R.req(b == sd and s.simp(o.key) is key, "asked", lab, "only the order asked for is changed", at(s), s.trace)
        R.req(caller(sc, s, o.owner), "own", lab, "only an order of the caller's own is changed", at(s), s.trace)
        lots = padd({}, o.change, -1)
        for st, c, v in (cases(sc, s, size) if size is not None else [(s.st, s.c, None)]):
            want = c.minmax("min", [c.p(dsimp(s.eng, st, v)), o.lots0]) if v is not None else o.lots0
            R.req(lots == want or c.le(lots, want) and c.le(want, lots), "size", lab, "what is taken off is the amount asked for, or all there is", at(s), lambda: s.trace() + ["taken off: " + show(lots), "expected: " + show(want)])
        R.req(o.gone or only_size(o) and s.c.lt(lots, o.lots0), "leaves book", lab, "an order of which nothing remains leaves the book, any other stays as it was but for its size", at(s), s.trace)
        w = s.worth(b, o.price, lots)
        d = tr.get(o.owner, {})
        asset, other = ("quote", "base") if b == "Bid" else ("base", "quote")
        R.req(set(tr) <= {o.owner}, "own balance", lab, "only the caller's balances change", at(s), s.trace)
        k = s.eng.truth(s.st, claim)
        for case in ((k,) if k is not None else (0, 1)):
            out = w if case else {}
            R.req(paid[asset] == out and not paid[other], "paid", lab, "exactly the released lots are paid out if they are claimed, none otherwise", at(s), lambda: s.trace() + ["paid: " + show(paid[asset]) + " and " + show(paid[other]), "expected: " + show(out)])
            exp = {LOCKED[b]: neg(w), FREE[b]: padd(w, out, -1)}
            R.req(d == {f: q for f, q in exp.items() if q}, "released", lab, "what the order locked becomes free or is paid out", at(s), s.trace)


def unused(s):
    """the market was never initialised: it holds no orders (they are numbered from one on)"""
    return s.c.zero(s.c.p(s.simp(s.fld(s.sc.m.seq, False))))


def picks(sc, handling):
    """[(side, picked?, facts, where, cutting stages, trace)]: how the orders to be cancelled are drawn from the books"""
    out = []
    seen = {}
    for s in sc.segs:
        for k in s.st.facts:
            for plain in (True, False):
                for v in walk_plain(k) if plain else walk(k):
                    if v.op == "vecof" and len(v.a) > 4 and (v not in seen or plain and not seen[v][0]):
                        seen[v] = (plain, s)
    for v, (plain, s) in seen.items():
        for el, f in zip(v.a[1], v.a[2]):
            out.append((el, 1, dict(f), v.a[4], s, v))
        for f in v.a[3]:
            out.append((None, 0, dict(f), v.a[4], s, v))
    for s in sc.segs:
        if s.kind == "step" and s.head not in handling:
            got = [e.vals[0] for e in s.evs if e.name == "push"]
            over = {k for k in s.st.facts if k.op == "discr" and k.a[0].op == "call" and k.a[0].a[0] == "has_elem" and k.a[0].a[2].op == "tree_src" and s.st.facts[k] == ("in", frozenset([1]))}
            if len(over) == 1:
                out.append((got[0] if got else None, 1 if got else 0, dict(s.st.facts), None, s, None))
    return out


LIMITS = (("num_orders_to_search", "searched"), ("num_orders_to_cancel", "drawn"))
MOST = 2 ** 64 - 1


def counters(sc, head):
    """[(term, what it starts from or None, sign, "searched"/"drawn")]: what counts the elements looked at / picked before the current one in a loop over a book"""
    cache = sc.__dict__.setdefault("counters", {})
    if head in cache:
        return cache[head]
    steps = [s for s in sc.segs if s.kind == "step" and s.head == head]
    push = [any(e.name == "push" for e in s.evs) for s in steps]
    out = []
    for x in {x for s in steps for x in sc.acc(s)}:
        ds = [delta(s, sc.acc(s), x) for s in steps]
        for sign in (1, -1):
            one = {(): sign}
            if all(d == one for d in ds):
                out.append((x, init_of(x), sign, "searched"))
            if all(d == (one if b else {}) for d, b in zip(ds, push)):
                out.append((x, init_of(x), sign, "drawn"))
    for k in {k for s in sc.segs if s.head == head for k in s.st.facts}:
        for x in walk(k):
            if x.op == "len" and x.a[0].op == "loop" and init_of(x.a[0]).op in ("vec", "array") and not init_of(x.a[0]).a:
                out.append((x, None, 1, "drawn"))
        if k.op == "discr" and k.a[0].op == "call" and k.a[0].a[0] == "has_elem" and k.a[0].a[2].op == "tree_src":
            out.append((mk("pos", k.a[0].a[1]), None, 1, "searched"))
            if all(push):
                out.append((mk("passed", k.a[0].a[1]), None, 1, "drawn"))
    cache[head] = out = list(dict.fromkeys(out))
    return out


def under_limits(sc, s, head):
    """[(kind, the count given or None, [elements counted], what holds)] in each case of the counts given"""
    opts = {kind: arg_named(sc, name) for name, kind in LIMITS}
    kinds = list(opts)
    for v in ((a, b) for a in (0, 1) for b in (0, 1)):
        sts = [s.st.copy()]
        for kind, x in zip(kinds, v):
            sts = [t for st in sts for t in s.eng.assume_set(st, s.eng.discr(opts[kind], s.eng.OPT), frozenset([x]), 1)]
        for st in sts:
            f = lambda x: dsimp(s.eng, st, x)
            st3 = st.copy()
            st3.facts = {}
            for k, w in st.facts.items():
                st3.facts[f(k)] = w
            c = Canon(s.eng, st3, sc.tick, sc.blpbu, sc.mult)
            if any(contra(c, k, w) for k, w in st3.facts.items()):
                continue
            n = {kind: [] for kind in kinds}
            for x, i, sign, kind in counters(sc, head):
                d = padd(c.p(f(x)), c.p(f(i)), -1) if i is not None else c.p(f(x))
                n[kind].append({m: q * sign for m, q in d.items() if q})
            yield c, {kind: (c.p(project(opts[kind], "Some.0")) if x else None, n[kind]) for kind, x in zip(kinds, v)}


def limit_reached(sc, s, head, book):
    """the loop over a book is left because one of the counts given is used up"""
    for c, kinds in under_limits(sc, s, head):
        if not any(c.le({(): MOST} if lim is None else lim, x) or lim is None and any(c.le(c.p(z), x) for z in book) for lim, xs in kinds.values() for x in xs):
            return False
    return True


def limits_kept(sc, s):
    """an order is picked in a loop over a book only below both counts"""
    for c, kinds in under_limits(sc, s, s.head):
        for kind, (lim, xs) in kinds.items():
            # counting up by one from zero, a count that is never equal to the limit where it is raised stays below it
            if lim is not None and not any(c.lt(x, lim) or kind == "drawn" and c.differ(x, lim) for x in xs):
                return False
    return True


def lens(s):
    return {x for k in s.st.facts for x in walk(k) if x.op == "call" and str(x.a[0]).endswith("::len")}


def walk_plain(t):
    """subterms that are not one of several cases"""
    seen, work = set(), [t]
    while work:
        x = work.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if x.op != "ite":
            for y in x.a:
                if isinstance(y, tuple):
                    work += [z for z in flat(y)]
                elif isinstance(y, T):
                    work.append(y)


def flat(y):
    for z in y:
        if isinstance(z, T):
            yield z
        elif isinstance(z, tuple):
            yield from flat(z)


def over(facts):
    """(tree, element's key, element) an iteration over a book is at"""
    for k in facts:
        if k.op == "discr" and k.a[0].op == "call" and k.a[0].a[0] == "has_elem" and k.a[0].a[2].op == "tree_src" and facts[k] == ("in", frozenset([1])):
            t = k.a[0].a[2].a[0]
            vs = {x for f in facts for x in walk(f) if x.op in ("elemkey", "elemval") and x.a[0] is t}
            at_ = t.a[0] if t.op == "at" else t
            if vs:
                x = next(iter(vs))
                return at_, mk("load", mk("elemkey", *x.a)), mk("load", mk("elemval", *x.a))
            return at_, None, None
    return None


@rule("M16", how="Every stretch of the four cancelling operations, arguments and state arbitrary: what changes must be the order of the id handled, on its side, owned by the caller, by exactly the amount asked "
      "for; the caller's balances and the amount paid out must follow exactly. How cancel-all and cancel-up-to draw their ids is read off the iterator stages (or the loop) over the book: every "
      "element kept or left out must be so for the stated reasons, and every id drawn or named must be handled.")
def m16(R, ctx):
    def reduce(R, sc):
        key, side, size, claim = (arg_named(sc, n) for n in ("order_id", "side", "size", "claim_funds"))
        for s in sc.segs:
            if is_none(s.ret) or unused(s):
                continue
            R.req(s.kind == "final", "one order", sc.label, "one id changes one order at most", at(s), s.trace)
            if s.kind == "final":
                paid = {a: s.c.p(s.simp(project(response(s), "num_%s_lots_out" % a))) for a in ("quote", "base")}
                one_reduction(R, sc, s, s.simp(mk("load", key)), side, size, claim, paid)

    def many(R, sc):
        claim = arg_named(sc, "claim_funds")
        outs = {}
        for s in sc.finals if hasattr(sc, "finals") else [x for x in sc.segs if x.kind == "final" and not is_none(x.ret)]:
            R.req(untouched(s), "only orders named", sc.label, "nothing but the orders named is cancelled", at(s), s.trace)
            for a in ("quote", "base"):
                o = s.c.p(s.simp(project(response(s), "num_%s_lots_out" % a)))
                v = [x for mm in o for x in mm]
                ok = len(o) == 1 and len(v) == 1 and site_of(v[0]) is not None and o[(v[0],)] == 1 and is_int(init_of(v[0])) and not init_of(v[0]).a[0]
                R.req(ok or not o and s.site is None, "total", sc.label, "what the cancellations paid out is added up", at(s), lambda: s.trace() + ["paid: " + show(o)])
                if ok:
                    outs[(s.head, a)] = v[0]
        n = 0
        for s in sc.segs:
            if s.kind == "pre":
                R.req(untouched(s), "only orders named", sc.label, "nothing but the orders named is cancelled", at(s), s.trace)
            if s.kind != "step":
                continue
            if not any((s.head, a) in outs for a in ("quote", "base")):
                R.req(untouched(s), "only orders named", sc.label, "nothing but the orders named is cancelled", at(s), s.trace)
                continue
            if unused(s):
                continue
            n += 1
            acc = sc.acc(s)
            paid = {a: delta(s, acc, outs[(s.head, a)]) for a in ("quote", "base")}
            ks = ids_handled(sc, s)
            R.req(len(ks) == 1, "named", sc.label, "every iteration handles one of the ids", at(s), s.trace)
            if len(ks) == 1:
                one_reduction(R, sc, s, ks[0], None, None, claim, paid)
        R.floor("cancelling iterations of " + sc.label, n, 4)
        # every id is handled
        for h in {h for h, a in outs}:
            ev = sc.heads[h][4]
            if ev.kind == "all":
                R.req(set(ev.left or ()) <= OK_STAGES, "every id", sc.label, "every id is handled", sc.where, lambda: ["stages: %s" % (ev.left,)])
            else:
                for s in sc.segs:
                    if s.kind == "final" and s.head == h and not is_none(s.ret):
                        ok = any(k.op == "discr" and k.a[0].op == "call" and k.a[0].a[0] == "has_elem" and f == ("in", frozenset([0])) or k.op == "pick" for k, f in s.st.facts.items())
                        R.req(ok, "every id", sc.label, "every id is handled", at(s), s.trace)
        if sc.name == "cancel_multiple_orders_by_id":
            return
        # how the ids are drawn
        ps = picks(sc, {h for h, a in outs})
        for h in {s.head for s in sc.segs if s.kind == "step"} - {h for h, a in outs}:
            own = {k for s in sc.segs if s.kind == "step" and s.head == h for k, f in s.st.facts.items()
                   if k.op == "discr" and k.a[0].op == "call" and k.a[0].a[0] == "has_elem" and k.a[0].a[2].op == "tree_src" and f == ("in", frozenset([1]))}
            for s in sc.segs:
                if s.head == h and s.kind != "step" and not is_none(s.ret):
                    R.req(all(s.st.facts.get(k) == ("in", frozenset([0])) for k in own) or sc.name == "cancel_up_to" and limit_reached(sc, s, h, [x for x in lens(s) if s.origin(s.simp(x.a[2])) in sc.m.books.values()]), "all", sc.label, "no order is left out unlooked at", at(s), s.trace)
        sides = set()
        for el, got, f, stages, s, src_vec in ps:
            w = over(f)
            R.count("draws judged")
            R.req(w is not None, "drawn", sc.label, "the ids cancelled are drawn from a book", at(s), s.trace)
            if w is None:
                continue
            tree, key, val = w
            sd = next((b for b in sc.m.books if s.origin(s.simp(tree)) == sc.m.books[b]), None)
            R.req(sd is not None, "drawn", sc.label, "the ids cancelled are drawn from a book", at(s), s.trace)
            if sd is None:
                continue
            st = s.st.copy()
            st.facts = dict(f)
            for k, x in s.st.facts.items():
                if k.op == "discr" and k.a[0].op == "arg":
                    st.facts[k] = x
            t = s.under(st)
            own = None
            if val is not None:
                i = s.simp(project(val, "trader_index"))
                for k, x in f.items():
                    if k.op == "Eq" and x[0] == "in" and len(x[1]) == 1:
                        for a, b in (k.a, k.a[::-1]):
                            if s.simp(a) is i and caller(sc, s, s.simp(b)):
                                own = 1 if 1 in x[1] else 0
            empty = val is not None and t.c.zero(t.c.p(project(val, "num_base_lots")))
            tr = lambda: s.trace() + ["%s:" % ("drawn" if got else "left out")] + ["  %s %s %s" % (short(pp(k))[:240], x[0], sorted(x[1])) for k, x in f.items()]
            if got:
                sides.add(sd)
                R.req(el is not None and key is not None and el is key, "drawn", sc.label, "the id drawn is the order's own", at(s), tr)
            R.req(not any(k.op == "cutting" for k in f), "all", sc.label, "no order is left out unlooked at", at(s), tr)
            if sc.name == "cancel_all_orders":
                if not got:
                    R.req(own == 0 or empty, "all", sc.label, "every order of the caller's is cancelled", at(s), tr)
                if stages is not None:
                    R.req({k for k, a in stages} <= OK_STAGES, "all", sc.label, "no order is left out unlooked at", at(s), tr)
                continue
            # cancel up to
            side, lim = arg_named(sc, "side"), arg_named(sc, "tick_limit")
            d = mk("discr", side, sc.m.side)
            if got:
                R.req(s.eng.inset(s.st, d, frozenset([sc.m.sides[sd]])) == 1, "side", sc.label, "only orders of the side named are cancelled", at(s), tr)
            beyond_ = []
            if key is not None:
                pr = project(key, "price_in_ticks")
                for v in (0, 1):
                    for st2 in s.eng.assume_set(st.copy(), s.eng.discr(lim, s.eng.OPT), frozenset([v]), 1):
                        c = Canon(s.eng, st2, sc.tick, sc.blpbu, sc.mult)
                        # the limit in this case decides the conditions on it
                        st3 = st2.copy()
                        st3.facts = {}
                        for k, x in st2.facts.items():
                            st3.facts[dsimp(s.eng, st2, k)] = x
                        c = Canon(s.eng, st3, sc.tick, sc.blpbu, sc.mult)
                        b = c.p(project(lim, "Some.0")) if v else None
                        q = c.p(pr)
                        if b is None:
                            # no limit: nothing is beyond it
                            con = any(contra(c, k, x) for k, x in st3.facts.items())
                            beyond_.append(0 if not con else None)
                        elif sd == "Bid":
                            beyond_.append(1 if c.lt(q, b) else 0 if c.le(b, q) else 2)
                        else:
                            beyond_.append(1 if c.lt(b, q) else 0 if c.le(q, b) else 2)
            bs = [b for b in beyond_ if b is not None]
            if got:
                R.req(bool(bs) and all(b == 0 for b in bs), "limit", sc.label, "only orders within the price limit are cancelled", at(s), tr)
            else:
                R.req(own == 0 or bool(bs) and all(b == 1 for b in bs), "limit", sc.label, "an order of the caller's within the limits is left out only for its place", at(s), tr)
            if got and stages is None:
                R.req(limits_kept(sc, s), "counts", sc.label, "both counts given are kept to", at(s), tr)
            if stages is not None:
                cut = [(i, k, a) for i, (k, a) in enumerate(stages) if k not in OK_STAGES]
                fl = [i for i, (k, a) in enumerate(stages) if k in ("filter", "filter_map")]
                R.req(len(cut) <= 2 and all(k == "take" for i, k, a in cut), "counts", sc.label, "only the two counts given limit how many orders are looked at and cancelled", at(s), tr)
                R.req(all(all(i < j for j in fl) or all(i > j for j in fl) for i, k, a in cut), "counts", sc.label, "orders are counted before or after all conditions", at(s), tr)
                so, co = (arg_named(sc, n) for n, k in LIMITS)
                for st1, c1, v1 in cases(sc, s, so):
                    for v2 in (0, 1):
                        for st2 in s.eng.assume_set(st1.copy(), s.eng.discr(co, s.eng.OPT), frozenset([v2]), 1):
                            if src_vec is not None and not any(src_vec in set(walk(dsimp(s.eng, st2, k))) for k in s.st.facts if src_vec in set(walk(k))):
                                continue
                            kept = set()
                            for i, k, a in cut:
                                x = dsimp(s.eng, st2, a)
                                if x is I(MOST) or x.op == "call" and str(x.a[0]).endswith("::len") and s.origin(s.simp(x.a[2])) == sc.m.books[sd]:
                                    continue
                                n_ = 0 if all(i < j for j in fl) else 1
                                kept.add(n_)
                                R.req((v1 is not None, v2)[n_] and x is project((so, co)[n_], "Some.0"), "counts", sc.label, "the count given is the one kept to", at(s), tr)
                            R.req(kept == {n for n in (0, 1) if (v1 is not None, v2)[n]}, "counts", sc.label, "both counts given are kept to", at(s), tr)
        want = {"Bid", "Ask"}
        R.req(sides == want, "both sides", sc.label, "orders of either side are drawn", sc.where, lambda: ["drawn from: %s" % sorted(sides)])

    m = Market(ctx)
    jobs = [("reduce_order", lambda R: scen(R, Scenario(m, "reduce_order"), reduce))]
    for n in REMOVING[1:]:
        jobs.append((n, lambda R, n=n: scen(R, Scenario(m, n), many)))
    parallel(R, jobs)
    R.floor("orders judged", R.cov.get("orders judged", 0), 10)
    R.floor("draws judged", R.cov.get("draws judged", 0), 4)


def contra(c, k, f):
    """a decided comparison against its fact"""
    if is_int(k):
        return f[0] == "in" and k.a[0] not in f[1] or f[0] == "notin" and k.a[0] in f[1]
    if k.op not in ("Lt", "Eq") or f[0] != "in" or len(f[1]) != 1:
        return False
    a, b = c.p(k.a[0]), c.p(k.a[1])
    want = 1 in f[1]
    if k.op == "Lt":
        top = {(): 2 ** 64 - 1}
        if want and (not b or a == top):
            return True
        if not want and (padd(b, a, -1).get((), 0) > 0 and len(padd(b, a, -1)) == 1):
            return True
    return False


def ids_handled(sc, s):
    """ids an iteration looks up in the books"""
    r = []
    for k in s.st.facts:
        for x in walk(k):
            if x.op == "call" and str(x.a[0]).endswith("get_addr") and s.origin(x.a[2]) in sc.m.books.values():
                t = s.simp(x.a[3])
                if t not in r:
                    r.append(t)
    for b in sc.m.books:
        for o in s.orders(b):
            t = s.simp(o.key)
            if t not in r:
                r.append(t)
    return r


# ------------------------------------------------------------------ M17
@rule("M17", how="Initialisation and fee setting explored from an arbitrary market: initialising must establish that the market was never used and that the tick size is a multiple of the lots per unit, "
      "clear all three registers, store exactly its arguments and move the sequence number from zero to one. Every other stretch of every operation leaves the parameters alone; an order is "
      "accepted only on paths that established the market was initialised and its order numbers are not used up.")
def m17(R, ctx):
    def params(s):
        return {n: s.dfield(f) for n, f in (("tick size", s.sc.m.tick), ("lots per unit", s.sc.m.blpbu), ("fee rate", s.sc.m.fee_bps))}

    def still(s, but=()):
        """fields of the market that differ"""
        m = s.sc.m
        fs = [m.tick, m.blpbu, m.fee_bps, m.seq, m.collected, m.unclaimed]
        return [f for f in fs if f not in but and s.dfield(f)]

    def init(R, sc):
        m = sc.m
        args = sc.an[1:]
        if len(args) != 2:
            raise MissingAnchor("arguments of initialize_with_params: %s" % args)
        t, b = (mk("arg", x) for x in args)
        n = 0
        for s in sc.segs:
            if s.kind != "final":
                R.req(False, "one stretch", sc.label, "initialising has no loops", at(s), s.trace)
                continue
            n += 1
            R.count("initialisations judged")
            R.req(s.c.zero(s.c.p(s.fld(m.seq, False))), "once", sc.label, "a market is initialised only if it never was", at(s), s.trace)
            R.req(any(k.op == "Rem" and unt(s.simp(k.a[0])) is t and unt(s.simp(k.a[1])) is b and f == ("in", frozenset([0])) for k, f in s.st.facts.items()), "multiple", sc.label,
                  "the tick size is a multiple of the lots per unit, so prices are whole quote lots per unit", at(s), s.trace)
            R.req(s.c.p(s.simp(s.fld(m.tick))) == s.c.p(t) and s.c.p(s.simp(s.fld(m.blpbu))) == s.c.p(b), "stored", sc.label, "the tick and lot sizes are the ones asked for", at(s),
                  lambda: s.trace() + ["tick: " + pp(s.simp(s.fld(m.tick))), "lots per unit: " + pp(s.simp(s.fld(m.blpbu)))])
            R.req(s.dfield(m.seq) == ONE, "numbered from one", sc.label, "orders are numbered from one on", at(s), s.trace)
            R.req(not still(s, (m.tick, m.blpbu, m.seq)), "nothing else", sc.label, "nothing but its parameters is set on a new market", at(s), s.trace)
            done = [s.origin(s.simp(e.res.a[2])) for e in s.evs if e.name == "initialize"]
            R.req(sorted(done) == sorted([m.traders] + list(m.books.values())), "cleared", sc.label, "both books and the register start out initialised", at(s), lambda: s.trace() + ["initialised: %s" % done])
            R.req(all(e.name == "initialize" for e in s.evs), "nothing else", sc.label, "nothing but its parameters is set on a new market", at(s), s.trace)
        R.floor("paths of initialising", n, 1)

    def fee(R, sc):
        m = sc.m
        n = 0
        for s in sc.segs:
            n += 1
            R.count("fee settings judged")
            R.req(s.kind == "final" and s.c.p(s.simp(s.fld(m.fee_bps))) == s.c.p(mk("arg", sc.an[1])), "fee rate", sc.label, "the fee rate set is the one asked for", at(s), s.trace)
            R.req(not still(s, (m.fee_bps,)) and not s.evs and untouched(s), "nothing else", sc.label, "setting the fee rate changes nothing else", at(s), s.trace)
        R.floor("paths of setting the fee", n, 1)

    def body(R, sc):
        if sc.name == "initialize_with_params":
            return init(R, sc)
        if sc.name == "set_fee":
            return fee(R, sc)
        for s in sc.segs:
            R.count("stretches judged")
            ch = {n: d for n, d in params(s).items() if d}
            R.req(not ch, "fixed", sc.label, "the market's tick size, lot size and fee rate do not change", at(s), lambda: s.trace() + ["changed: %s" % sorted(ch)])
            R.req(not any(e.name == "initialize" for e in s.evs), "fixed", sc.label, "books and register are never cleared", at(s), s.trace)
            if sc.name == "place_order" and s.kind == "final" and not is_none(s.ret):
                q = s.c.p(project(mk("load", sc.self_), sc.m.seq))
                R.count("acceptances judged")
                R.req(s.c.nonzero(q), "initialised", sc.label, "orders are accepted only on an initialised market", at(s), s.trace)
                R.req(below(s, q), "numbers left", sc.label, "orders are accepted only while there are order numbers left", at(s), s.trace)

    def below(s, q):
        """the number differs from the last one that keeps the side bit clear (it rises by one each time)"""
        (x, ), = q.keys() if len(q) == 1 else ((None,),)
        if x is None:
            return False
        last = 2 ** 63 - 1
        f = s.st.facts.get(x)
        if f is not None and (f[0] == "notin" and last in f[1] or f[0] == "in" and last not in f[1]):
            return True
        return s.c.lt(q, {(): last}) or s.c.differ(q, {(): last})

    places(R, ctx, body, more=REMOVING + ("claim_funds", "collect_fees", "initialize_with_params", "set_fee"))
    R.floor("acceptances judged", R.cov.get("acceptances judged", 0), 20)


# ------------------------------------------------------------------ M18
def budget_of(sc, s, quote):
    """the value that can be filled so that value and fee (or value less fee) stay within a quote budget"""
    me = mk("load", sc.self_)
    top = I(2 ** 64 - 1)
    f = mk("Div", mk("Sub", mk("Add", mk("Mul", project(me, sc.m.fee_bps), top), I(10000)), I(1)), I(10000))
    out = []
    for fee in (f, mk("trunc", f, 64)):
        d = mk("Add" if sc.side == "Bid" else "Sub", top, fee)
        out.append(s.c.p(mk("Div", mk("Mul", mk("Mul", quote, sc.blpbu), top), d)))
    return out


def budget_start(R, sc):
    """what the quote budget of matching starts from"""
    top = {(): 2 ** 64 - 1}
    for h, s in sc.heads_of().items():
        r = sc.roles(s)
        R.req(bool(r.Q), "budget", sc.label, "fills use up a budget in quote lots", sc.where, s.trace)
        for v in r.Q:
            if sc.kind != "ImmediateOrCancel":
                R.count("budgets judged")
                R.req(s.c.p(s.simp(init_of(v))) == top, "unlimited", sc.label, "an order that names no quote budget has none", at(s), s.trace)
                continue
            q = sc.fld("num_quote_lots")
            for st in s.eng.assume(s.st.copy(), mk_eq(q, I(0)), 1):
                c = Canon(s.eng, st, sc.tick, sc.blpbu, sc.mult)
                R.count("budgets judged")
                R.req(c.p(dsimp(s.eng, st, init_of(v))) == top, "unlimited", sc.label, "an order that names no quote budget has none", at(s), s.trace)
            for st in s.eng.assume(s.st.copy(), mk_eq(q, I(0)), 0):
                R.count("quote budgets judged")
                want = budget_of(sc, s, q)
                ok = True
                for st2, x in split_ite(s, st, init_of(v)):
                    c = Canon(s.eng, st2, sc.tick, sc.blpbu, sc.mult)
                    fits = None
                    for k, f in st2.facts.items():
                        if k.op == "discr" and k.a[0].op == "call" and k.a[0].a[0] == "try_from_int" and c.p(k.a[0].a[2]) in want:
                            fits = 1 if f == ("in", frozenset([0])) else 0
                    g = c.p(dsimp(s.eng, st2, x))
                    ok = ok and (g in want and fits != 0 or g == top and fits == 0)
                R.req(ok, "fee included", sc.label, "a quote budget covers the fills and their fee" if sc.side == "Bid" else "a quote budget is what the fills bring in after their fee", at(s),
                      lambda: s.trace() + ["budget: " + pp(s.simp(init_of(v)))[:900]])


@rule("M18", how="The loop variable that every fill lowers by its value is traced to what it starts from, on every way into the matching loop of every order kind and side: the largest amount when the order "
      "names no quote budget, else the named quote lots scaled by 1/(1 + fee) when buying and 1/(1 - fee) when selling (term equality in normal form), the largest amount if that exceeds the range.")
def m18(R, ctx):
    places(R, ctx, budget_start, kinds=["Limit", "ImmediateOrCancel"])
    R.floor("quote budgets judged", R.cov.get("quote budgets judged", 0), 4)
    R.floor("budgets judged", R.cov.get("budgets judged", 0), 10)


def split_ite(s, st, t):
    """[(state, value)] of a value given by cases"""
    t = dsimp(s.eng, st, t)
    if t.op != "ite":
        return [(st, t)]
    r = []
    for v in (1, 0):
        for st2 in s.eng.assume(st.copy(), t.a[0], v):
            r += split_ite(s, st2, t.a[1] if v else t.a[2])
    return r
