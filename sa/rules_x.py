"""Rules on what reaches the matching engine: the operation asked for, with the parameters asked for, at the current time."""
from ctx import *
from terms import T as Term
from rulebase import rule
from rules_p import *
from rules_t import *
import engine as _eng

PACKET = "order_schema::order_packet::OrderPacket"


def has_ty(t, suffix):
    return any(x.op == "tyname" and x.a[0].endswith(suffix) for x in t.a if x.__class__ is Term)


PAYLOAD = lambda: project(mk("load", DATA), ("sub", 1, None))


def decoded(t, suffix):
    """t is the value of this type decoded from the whole instruction payload"""
    c = t.a[0] if t.op == "field" and t.a[1] == "Ok.0" else None
    return c is not None and c.op == "call" and str(c.a[0]).endswith("try_from_slice") and has_ty(c, suffix) and c.a[2] is PAYLOAD()


class Legacy:
    """the padded decode of order packets written before their optional fields existed: the payload followed by up to three
    zero bytes, dropped one by one from the end"""

    def __init__(self, ix):
        self.ix = ix

    def __call__(self, t):
        c = t.a[0] if t.op == "field" and t.a[1] == "Ok.0" else None
        if c is None or c.op != "call" or not str(c.a[0]).endswith("try_from_slice") or not has_ty(c, PACKET):
            return False
        s = c.a[2]
        while s.op == "popped":
            s = s.a[0]
        if s.op == "loop":
            site, name, init = s.a
            for b in self.ix.ends:
                if b.kind == "back" and b.loop and b.loop[0] == site:
                    for root, va in b.loop[3].items():
                        vb = b.st.store.get(root)
                        if vb is None or vb is va:
                            continue
                        for path, x, y in _eng.diff(va, vb):
                            if x is s and not (y.op == "popped" and y.a[0] is s):
                                return False
            s = init
        return padded(s)


def padded(s):
    if s is PAYLOAD():
        return True
    if s.op == "call" and str(s.a[0]).endswith("concat") and s.a[-1].op == "array" and s.a[-1].a and s.a[-1].a[0] is PAYLOAD():
        return sum(zerobytes(x) for x in s.a[-1].a[1:]) <= 3
    return False


def zerobytes(x):
    if x.op == "array" and all(y is I(0) for y in x.a):
        return len(x.a)
    if x.op == "bytes" and not any(x.a[0]):
        return len(x.a[0])
    return 99


def canon(p, t):
    """an option taken apart and put together again is the option"""
    t = p.simp(t)
    if t.op == "ite":
        a, b = canon(p, t.a[1]), canon(p, t.a[2])
        if a is b:
            return a
        c = t.a[0]
        for x, y in ((a, b), (b, a)):
            if x.op == "agg" and x.a[1] == "None" and any(w.op == "discr" and w.a[0] is y for w in walk(c)):
                return y
        return mk("ite", c, a, b)
    if t.op == "agg" and t.a[1] == "Some" and len(t.a) >= 4:
        v = t.a[3]
        if v.op == "field" and v.a[1] == "Some.0":
            return v.a[0]
    return t


def opt_is(p, t, want):
    t = canon(p, t)
    if t is want:
        return True
    if t.op == "agg" and t.a[1] == "None":
        return p.isin(p.ix.eng.discr(want, p.ix.eng.OPT), [0])
    return False


def iterations(ix):
    """(path, site) of every loop iteration explored for the instruction"""
    for b in ix.ends:
        if b.kind == "back" and b.loop:
            yield Path2(ix, b), b


ENGINE_OF = {"Swap": "place_order", "SwapWithFreeFunds": "place_order", "PlaceLimitOrder": "place_order", "PlaceLimitOrderWithFreeFunds": "place_order",
             "PlaceMultiplePostOnlyOrders": "place_order", "PlaceMultiplePostOnlyOrdersWithFreeFunds": "place_order",
             "ReduceOrder": "reduce_order", "ReduceOrderWithFreeFunds": "reduce_order", "CancelAllOrders": "cancel_all_orders",
             "CancelAllOrdersWithFreeFunds": "cancel_all_orders", "CancelUpTo": "cancel_up_to", "CancelUpToWithFreeFunds": "cancel_up_to",
             "CancelMultipleOrdersById": "cancel_multiple_orders_by_id", "CancelMultipleOrdersByIdWithFreeFunds": "cancel_multiple_orders_by_id",
             "WithdrawFunds": "claim_funds"}


def side_same(p, t, want, sv):
    return p.simp(t) is p.simp(want) or side_of(p, t, sv) is not None and side_of(p, t, sv) == side_of(p, want, sv)


def seq_side_ok(p, facts, elem, sv):
    """the conditions under which a listed order is passed on are exactly: it is an element of the list, and the side its sequence number
    encodes (top bit set: bid) is the side named with it"""
    eng = p.ix.eng
    seq = project(elem, "order_sequence_number")
    dside = eng.discr(project(elem, "side"), p.ix.ctx.adt("state::enums::Side"))
    conds = []
    lz = None
    for k, v in facts:
        for x in walk(k):
            if x.op == "call" and str(x.a[0]).endswith("leading_zeros") and x.a[-1] is seq:
                lz = x
        if k.op == "discr" and k.a[0].op == "call" and "has_elem" in str(k.a[0].a[0]):
            continue
        if k.op == "discr" and k.a[0].op != "call" and "has_elem" in pp(k):
            continue
        conds.append((k, v))
    if lz is None:
        return None
    names = {n: k for k, n in sv.items()}
    for bid in (0, 1):
        for side in ("Bid", "Ask"):
            st = p.st.copy()
            st.facts = {}
            st.setfact(mk_eq(lz, I(0)), ("in", frozenset([bid])))
            st.setfact(dside, ("in", frozenset([names[side]])))
            r = 1
            for k, v in conds:
                t = eng.inset(st, dsimp(eng, st, k), v[1]) if v[0] == "in" else None
                if t is None:
                    return False
                r = r and t
            if bool(r) != ((side == "Bid") == bool(bid)):
                return False
    return True


@rule("X01", how="The arguments of every matching-engine call on every successful path are compared, as terms, with the values decoded from the instruction payload: order "
      "packet, order id, side, size, limits and amounts must be the ones requested, the claim flag must be the one of the instruction, and each "
      "instruction calls its own engine operation exactly once (per requested order).")
def x01(R, ctx):
    sv = side_values(ctx)
    ncall = 0
    for n, op in ENGINE_OF.items():
        free = n.endswith("FreeFunds")
        leg = None
        for n, p in paths(R, ctx, [n]):
            evs = p.ev(*RESP)
            bad = [e for e in evs if e.name != op]
            R.req(not bad, "operation", n, "asks the engine for %s only (%s)" % (op, [e.name for e in bad]), p.ix.where, p.trace)
            if n in MULTI_IX:
                continue
            none = op == "place_order" or op == "cancel_multiple_orders_by_id" and (m := the_params(p)) is not None and none_listed(p, m)
            R.req(len(evs) == 1 or none and not evs, "operation", n, "asks the engine exactly once", p.ix.where, p.trace)
            prm = None
            for e in evs:
                if e.name != op:
                    continue
                ncall += 1
                v = [p.simp(x) for x in e.vals]
                R.req(is_market(T(ctx), p, v[0]), "market", n, "works on the market of the instruction", e.span, p.trace)
                if op == "place_order":
                    leg = leg or Legacy(p.ix)
                    R.req(decoded(v[2], PACKET) or leg(v[2]), "order", n, "the order placed is the order packet of the instruction", e.span, p.trace)
                    continue
                flag = p.ix.eng.cval(p.st, v[CLAIM_ARG[op]]) if op in CLAIM_ARG else None
                if op in CLAIM_ARG:
                    R.req(flag == (0 if free else 1), "claim", n, "the lots released %s" % ("stay with the market" if free else "are claimed"), e.span, p.trace)
                if op == "cancel_all_orders":
                    continue
                prm = the_params(p)
                R.req(prm is not None, "parameters", n, "the parameters are decoded from the whole payload", e.span, p.trace)
                if prm is None:
                    continue
                if op == "reduce_order":
                    b = project(prm, "base_params")
                    oid = v[2]
                    R.req(all(p.simp(project(oid, f)) is project(b, f) for f in ("price_in_ticks", "order_sequence_number")), "order id", n, "the order named is reduced", e.span, p.trace)
                    R.req(side_same(p, v[3], project(b, "side"), sv), "side", n, "on the side named", e.span, p.trace)
                    R.req(v[4].op == "agg" and v[4].a[1] == "Some" and p.simp(project(v[4], "Some.0")) is project(prm, "size"), "size", n, "by the size given", e.span, p.trace)
                elif op == "cancel_up_to":
                    R.req(side_same(p, v[2], project(prm, "side"), sv), "side", n, "on the side named", e.span, p.trace)
                    for i, f in ((3, "num_orders_to_search"), (4, "num_orders_to_cancel"), (5, "tick_limit")):
                        R.req(opt_is(p, v[i], project(prm, f)), "limit", "%s %s" % (n, f), "the limit given is passed on", e.span, p.trace)
                elif op == "claim_funds":
                    for i, f in ((2, "quote_lots_to_withdraw"), (3, "base_lots_to_withdraw")):
                        R.req(opt_is(p, v[i], project(prm, f)), "amount", "%s %s" % (n, f), "the amount given is passed on", e.span, p.trace)
                    R.req(p.ix.eng.cval(p.st, v[4]) == 0, "seat", n, "the trader stays registered", e.span, p.trace)
                elif op == "cancel_multiple_orders_by_id":
                    R.req(id_list_ok(R, p, v[2], prm, sv), "order ids", n, "exactly the orders listed (whose sequence number is of the side named) are cancelled", e.span, p.trace)
    # several orders in one instruction
    for n in MULTI_IX:
        ix = ctx.ix(n)
        acc = Acc(ix)
        sides = set()
        for q, b in iterations(ix):
            for e in acc.iteration_orders(b):
                if e.name != "place_order":
                    continue
                ncall += 1
                sides.add(one_of_many(R, ctx, n, q, e, sv, acc))
        R.req(sides == {"Bid", "Ask"}, "orders", n, "both the bids and the asks of the packet are placed (%s)" % sorted(map(str, sides)))
    R.floor("engine calls compared", ncall, 100)


def the_params(p):
    """the decoded parameter block of the instruction on this path"""
    c = [q for q in params(p) if q.op == "field" and q.a[1] == "Ok.0" and q.a[0].a[2] is PAYLOAD() and p.is_ok(q.a[0])]
    return c[0] if len(c) == 1 else None


def none_listed(p, prm):
    o = project(prm, "orders")
    return zero_known(p, mk("len", o)) or emptied(p, None, lambda x: x is o)


def id_list_ok(R, p, v, prm, sv):
    if v.op == "loop":
        return filled_by_loop(p, v, project(prm, "orders"), sv)
    if v.op != "vecof" or v.a[2] is None:
        return False
    elems = v.a[1]
    conds = v.a[2]
    if len(elems) != 1 or len(conds) != 1:
        return False
    el = elems.a[0] if hasattr(elems, "op") else elems[0]
    src = project(prm, "orders")
    e = None
    for x in walk(el):
        if x.op == "field" and x.a[0] is src and isinstance(x.a[1], tuple) and x.a[1][0] == "#":
            e = x
    if e is None:
        return False
    if not all(project(el, f) is project(e, f) for f in ("price_in_ticks", "order_sequence_number")):
        return False
    return bool(seq_side_ok(p, conds[0], e, sv))


def filled_by_loop(p, v, src, sv):
    """v is filled by a loop over all of src that pushes the id of each element whose sequence number is of its side, once"""
    eng = p.ix.eng
    names = {n: k for k, n in sv.items()}

    def elem_of(el):
        e = project(el, "price_in_ticks")
        e = e.a[0] if e.op == "field" else None
        ok = e is not None and e.op == "field" and e.a[0] is src and all(project(el, f) is project(e, f) for f in ("price_in_ticks", "order_sequence_number"))
        return e if ok else None
    if not (v.a[2].op == "array" and not v.a[2].a):
        return False
    backs = [(b, root) for b in p.ix.ends if b.kind == "back" and b.loop and b.loop[0] == v.a[0] for root, va in b.loop[3].items() if va is v]
    # the loop is left only when the list is exhausted, and no step of it cuts the list short
    def source(b, i):
        if i.op == "slice_src":
            return eng.rd(b.st, i.a[0])
        return i.a[0] if i.op == "vec_src" else None
    its = [x for b, _ in backs for x in b.loop[3].values() if x.op == "iter" and source(b, x.a[0]) is src]
    if not any(x.a[1] is mk("any") for x in its) or any(x.a[2] or x.a[1].op == "any" and x.a[1].a for x in its):
        return False
    has = {k for b, _ in backs for k, w in b.st.facts.items() if "has_elem" in pp(k)[:20] and w == ("in", frozenset([1])) and b.loop[4].facts.get(k) != w}
    if len(has) != 1 or p.st.facts.get(next(iter(has))) != ("in", frozenset([0])):
        return False
    for bid in (0, 1):
        for side in ("Bid", "Ask"):
            k = 0
            for b, root in backs:
                f0 = b.loop[4].facts
                conds = [(f, w) for f, w in b.st.facts.items() if f0.get(f) != w and f not in has]
                new = b.st.store.get(root, v)
                tops = [f for f, w in conds] + [new]
                el = [x for f in tops for x in walk(f) if x.op == "field" and x.a[0] is src]
                if not el or any(x is not el[0] for x in el):
                    return False
                e = el[0]
                seq = project(e, "order_sequence_number")
                lz = [x for f in tops for x in walk(f) if x.op == "call" and str(x.a[0]).endswith("leading_zeros") and x.a[-1] is seq]
                if not lz:
                    return False
                st = p.st.copy()
                st.facts = {}
                st.setfact(mk_eq(lz[0], I(0)), ("in", frozenset([bid])))
                st.setfact(eng.discr(project(e, "side"), p.ix.ctx.adt("state::enums::Side")), ("in", frozenset([names[side]])))
                r = 1
                for f, w in conds:
                    t = eng.inset(st, dsimp(eng, st, f), w[1])
                    if t is None:
                        return False
                    r = r and (t if w[0] == "in" else 1 - t)
                if not r:
                    continue
                k += 1
                new = dsimp(eng, st, new)
                if (side == "Bid") != bool(bid):
                    if new is not v:
                        return False
                elif not (new is not None and new.op == "vecof" and new.a[0] is v and len(new.a[1]) == 1 and elem_of(new.a[1][0]) is e):
                    return False
            if not k:
                return False
    return True


def one_of_many(R, ctx, n, q, e, sv, acc):
    """an order of a multi-order packet: every field from one element of the list of its side"""
    pk = q.simp(e.vals[2])
    who = "order of " + n
    if pk.op != "agg":
        R.req(False, "order", who, "is built here", e.span, q.trace)
        return None
    R.req(pk.a[1] == "PostOnly", "order", who, "is post-only", e.span, q.trace)
    side = side_of(q, packet_field(pk, pk.a[1], "side"), sv)
    prm = the_params(q)
    price = packet_field(pk, pk.a[1], "price_in_ticks")
    elem = price.a[0] if price.op == "field" and price.a[1] == "price_in_ticks" else None
    lst = {"Bid": "bids", "Ask": "asks"}.get(side)
    ok = elem is not None and prm is not None and lst and elem.op == "field" and elem.a[0] is project(prm, lst)
    R.req(bool(ok), "order", who, "is priced as an element of the packet's list of its side", e.span, q.trace)
    if not ok:
        return side
    for f in ("last_valid_slot", "last_valid_unix_timestamp_in_seconds"):
        R.req(opt_is(q, packet_field(pk, pk.a[1], f), project(elem, f)), "order", "%s %s" % (who, f), "expires as that element says", e.span, q.trace)
    size = packet_field(pk, pk.a[1], "num_base_lots")
    R.req(size_ok(ctx, q, n, size, elem, prm, lst), "order", who, "has the size of that element, or the sum of the sizes of elements that share its price and expiry", e.span, q.trace)
    cid = packet_field(pk, pk.a[1], "client_order_id")
    copt = project(prm, "client_order_id")
    R.req(cid is project(copt, "Some.0") or cid.op == "ite" and {cid.a[1], cid.a[2]} == {I(0), project(copt, "Some.0")} or cid is I(0) and q.isin(q.ix.eng.discr(copt, q.ix.eng.OPT), [0]),
          "order", who, "carries the packet's client order id (0 if none)", e.span, q.trace)
    bh = project(prm, "failed_multiple_limit_order_behavior")
    adt = ctx.adt("new_order::FailedMultipleLimitOrderBehavior")
    d = q.ix.eng.discr(bh, adt)
    vs = ctx.p.variants(adt)
    for f, on in (("reject_post_only", "FailOnCross"), ("fail_silently_on_insufficient_funds", "SkipOn")):
        t = packet_field(pk, pk.a[1], f)
        good = True
        for name, k in vs.items():
            w = with_facts(q, {d: [k]})
            if w is None:
                continue
            good = good and w.ix.eng.cval(w.st, w.simp(t)) == (1 if on in name else 0)
        R.req(good, "order", "%s %s" % (who, f), "follows the failure behaviour chosen in the packet", e.span, q.trace)
    R.req(q.ix.eng.cval(q.st, packet_field(pk, pk.a[1], "use_only_deposited_funds")) == (1 if n.endswith("FreeFunds") else 0), "order", who, "uses deposited funds as the instruction says", e.span, q.trace)
    # refused when bids and asks of the packet cross
    R.req(not_crossing(q, prm), "order", who, "the packet's highest bid was shown to be below its lowest ask", e.span, q.trace)
    return side


def same_level(q, x, elem, facts):
    if x is elem:
        return True
    st = q.st.copy()
    for k, v in facts:
        st.setfact(k, v)
    eng = q.ix.eng
    return all(eng.truth(st, mk_eq(project(x, f), project(elem, f))) == 1 for f in ("price_in_ticks", "last_valid_slot", "last_valid_unix_timestamp_in_seconds"))


def size_ok(ctx, q, n, size, elem, prm, lst):
    if size is project(elem, "size_in_base_lots"):
        return True
    if size.op == "sum":
        # over all the elements of a group, each at its full size
        return not size.a[3] and len(size.a[1]) > 0 and all(
            x.op == "field" and x.a[1] == "size_in_base_lots" and x.a[0].op == "field" and x.a[0].a[0] is project(prm, lst) and same_level(q, x.a[0], elem, fs)
            for x, fs in zip(size.a[1], size.a[2]))
    if size.op != "loop" or size.a[2] is not I(0):
        return False
    site = size.a[0]
    k = 0
    for b in ctx.ix(n).ends:
        if b.kind != "back" or b.ret is None:
            continue
        if not any(x is size for x in walk(b.ret)):
            continue
        k += 1
        d = padd(poly(b.ret), poly(size), -1)
        if len(d) != 1:
            return False
        (mono, c), = d.items()
        if c != 1 or len(mono) != 1:
            return False
        t = mono[0]
        if not (t.op == "field" and t.a[1] == "size_in_base_lots" and t.a[0].op == "field" and t.a[0].a[0] is project(prm, lst)):
            return False
        q = Path2(ctx.ix(n), b)
        if t.a[0] is not elem and not all(q.eq(project(t.a[0], f), project(elem, f)) for f in ("price_in_ticks", "last_valid_slot", "last_valid_unix_timestamp_in_seconds")):
            return False
    return k > 0


def not_crossing(q, prm):
    for k, v in q.st.facts.items():
        if k.op == "Lt" and v[0] == "in" and v[1] == frozenset([1]) or k.op == "Le" and v[0] == "in" and v[1] == frozenset([0]):
            lo, hi = (k.a[0], k.a[1]) if k.op == "Lt" else (k.a[1], k.a[0])
            if (extreme(lo, "max", prm, "bids") or extreme_by_loop(q, lo, "max", prm, "bids")) and (extreme(hi, "min", prm, "asks") or extreme_by_loop(q, hi, "min", prm, "asks")):
                return True
    return False


def extreme_by_loop(q, t, which, prm, lst):
    """a loop variable that every element of the list raises (lowers) to its price, in a loop left only when the list is exhausted"""
    if t.op != "loop" or t.a[2] is not I(0 if which == "max" else 2 ** 64 - 1):
        return False
    src = project(prm, lst)
    n, has = 0, set()
    for b in q.ix.ends:
        if b.kind != "back":
            continue
        if b.loop and b.loop[0] == t.a[0]:
            roots = [r for r, v in b.loop[3].items() if v is t]
            if not roots:
                continue
            new = b.st.store.get(roots[0], t)
            f0 = b.loop[4].facts or {}
            mine = {k for k, w in b.st.facts.items() if k.op == "discr" and k.a[0].op == "call" and k.a[0].a[0] == "has_elem" and w == ("in", frozenset([1])) and f0.get(k) != w}
            if len(mine) != 1 or any(v.op == "iter" and v.a[2] and any(x is src for x in walk(v)) for v in b.loop[3].values()):
                return False
            has |= mine
        elif b.it and b.it[5] is t and b.ret is not None:
            new = b.ret
            if any(k not in ("map", "cloned", "copied", "inspect") for k in b.it[4].left):
                return False
        else:
            continue
        n += 1
        pr = {x for f in list(b.st.facts) + [new] for x in walk(f) if x.op == "field" and x.a[1] == "price_in_ticks" and x.a[0].op == "field" and x.a[0].a[0] is src}
        if not any(keeps_extreme(b, t, x, new, which) for x in pr):
            return False
    return n > 0 and all(q.st.facts.get(k) == ("in", frozenset([0])) for k in has)


def keeps_extreme(b, old, price, new, which):
    if new.op == which and set(new.a) == {old, price}:
        return True
    lo, hi = (old, price) if which == "max" else (price, old)
    facts = [(k, w) for k, w in b.st.facts.items() if k.op == "Lt" and w[0] == "in" and len(w[1]) == 1]
    if new.op == "ite" and new.a[0].op == "Lt":
        return new.a[0].a == (lo, hi) and new.a[1] is price and new.a[2] is old or new.a[0].a == (hi, lo) and new.a[1] is old and new.a[2] is price
    for k, w in facts:
        # the better price is taken, the worse one passed over
        if k.a == (lo, hi) and (new is price if 1 in w[1] else new is old) or k.a == (hi, lo) and (new is old if 1 in w[1] else new is price):
            return True
    return False


def extreme(t, which, prm, lst):
    for x in walk(t):
        if (x.op if x.op != "call" else str(x.a[0]).split("::")[-1]) in (which + "_by", which, which + "_by_key"):
            if any(y.op == "field" and y.a[1] == "price_in_ticks" and y.a[0].op == "field" and y.a[0].a[0] is project(prm, lst) for y in walk(x)):
                return True
    return False


# ------------------------------------------------------------------ X02
TAKE_ONLY = {"Swap", "SwapWithFreeFunds"}


def kinds(p, packet):
    adt = p.ix.ctx.adt(PACKET)
    vs = p.ix.ctx.p.variants(adt)
    if packet.op == "agg":
        return {packet.a[1]}
    d = p.ix.eng.discr(p.simp(packet), adt)
    return {n for n, k in vs.items() if p.ix.eng.inset(p.st, d, frozenset([k])) != 0}


@rule("X02", how="On every successful path that places an order, the order kinds still possible and the known value of its deposited-funds flag are read off the branch "
      "conditions: swaps place only immediate-or-cancel orders, the order instructions never do, and the flag agrees with the instruction.")
def x02(R, ctx):
    k = 0
    for n in TRADE_IX:
        free = n.endswith("FreeFunds")
        for n, p in paths(R, ctx, [n]):
            evs = p.ev("place_order")
            pk = [e.vals[2] for e in evs]
            if not evs:
                d = [q for q in params(p) if p.is_ok(q.a[0]) and has_ty(q.a[0], PACKET)]
                pk = d
            for t in pk:
                k += 1
                ks = kinds(p, t)
                R.req(ks <= {"ImmediateOrCancel"} if n in TAKE_ONLY else "ImmediateOrCancel" not in ks, "kind", n,
                      "takes only %s orders (%s)" % ("immediate-or-cancel" if n in TAKE_ONLY else "post-only and limit", sorted(ks)), evs[0].span if evs else p.ix.where, p.trace)
                R.req(order_flag(p, t, "use_only_deposited_funds") == (1 if free else 0), "funds", n,
                      "takes only orders that %s" % ("use nothing but deposited funds" if free else "may bring in and take out tokens"), evs[0].span if evs else p.ix.where, p.trace)
    R.floor("orders judged", k, 20)


# ------------------------------------------------------------------ X03
def trader_entry_load(p, t):
    """field of the signer's entry of the market: name of the field, or None"""
    if t.op == "field" and t.a[0].op == "load":
        c = t.a[0].a[0]
        if c.op == "field" and c.a[1] == "Some.0":
            c = c.a[0]
        if c.op == "call" and str(c.a[0]).split("::")[-1] in ("get_trader_state_from_index", "get_trader_state"):
            if any(x is KEY(3) or x is project(A(3), "key") for x in walk(c)):
                return t.a[1]
    return None


def avail_ok(p, t, x, n, acc):
    """t is the lots of token x the signer can bring up: free lots, plus (where tokens may be taken) the lots its token account holds"""
    sites = []
    while t.op == "loop":
        site, name, init = t.a
        sites.append(site)
        if acc is None:
            return False
        for b in acc.by.get(site, []):
            q = Path2(p.ix, b)
            got = poly_simp(q, acc.delta(b, name))
            want = {}
            for e in acc.iteration_orders(b):
                resp = project(project(e.res, "Some.0"), "1")
                used = arith("Add", deposit_terms(resp, x), project(resp, "num_free_%s_lots_used" % x))
                want = padd(want, poly_simp(q, used), -1)
            if got != want and not (not got and not skipping(q)):
                return False
        t = init
    parts = list(t.a) if t.op == "Add" else [t]
    free = [y for y in parts if trader_entry_load(p, p.simp(y)) == x + "_lots_free"]
    rest = [y for y in parts if y not in free]
    if len(free) != 1:
        return False
    slot = SLOTS[n].get(x)
    if slot is None or "tok" not in SLOTS[n]:
        return not rest
    if len(rest) != 1:
        return False
    r = rest[0]
    L = lotsize(p.ix.ctx, x)
    amt = tok_field(slot, 64, 72)
    return r.op == "Div" and r.a[1] is L and r.a[0].op == "call" and str(r.a[0].a[0]).endswith("from_le_bytes") and r.a[0].a[-1] is amt


def skipping(q):
    """on this path the packet is known to ask for skipping orders it cannot pay for"""
    for d in params(q):
        if has_ty(d.a[0], "MultipleOrderPacket"):
            adt = q.ix.ctx.adt("new_order::FailedMultipleLimitOrderBehavior")
            vs = q.ix.ctx.p.variants(adt)
            return q.isin(q.ix.eng.discr(project(d, "failed_multiple_limit_order_behavior"), adt), [k for n, k in vs.items() if n.startswith("Skip")])
    return False


def need_ok(p, t, side, price, size):
    """t is what an order of this size brings in: its base lots (ask), or price * tick size * size / base lots per base unit (bid)"""
    if side == "Ask":
        return p.simp(t) is p.simp(size)
    t = p.simp(t)
    if t.op != "Div" or not (t.a[1].op == "call" and str(t.a[1].a[0]).endswith("get_base_lots_per_base_unit")):
        return False
    q = poly(t.a[0])
    if len(q) != 1:
        return False
    (mono, c), = q.items()
    m = list(mono)
    tick = [x for x in m if x.op == "call" and str(x.a[0]).endswith("get_tick_size")]
    return c == 1 and len(m) == 3 and len(tick) == 1 and sorted(x.id for x in m if x is not tick[0]) == sorted([p.simp(price).id, p.simp(size).id])


def price_of(p, packet, kindset):
    """price used to judge an order packet"""
    return [packet_field(packet, n, "price_in_ticks") for n in kindset]


@rule("X03", how="Every successful path (and every explored loop iteration) that drops an order instead of placing it must carry the branch conditions that excuse it: the "
      "order or packet asked for skipping, and the funds available (free lots, plus the token account's balance in lots where tokens may be used, less "
      "what earlier orders of the packet used) were compared with and found below what the order needs.")
def x03(R, ctx):
    import shared
    shared.getters(R, ctx)
    sv = side_values(ctx)
    k = 0
    for n in TRADE_IX:
        for n, p in paths(R, ctx, [n]):
            if p.ev("place_order"):
                continue
            k += 1
            d = [q for q in params(p) if p.is_ok(q.a[0]) and has_ty(q.a[0], PACKET)]
            R.req(len(d) == 1 and order_flag(p, d[0], "fail_silently_on_insufficient_funds") == 1, "asked", n, "an order is dropped only if it asks to fail silently", p.ix.where, p.trace)
            ok = False
            if len(d) == 1:
                side = packet_side(p, d[0], sv)
                for f, lo, hi in short_funds(p):
                    for kn in kinds(p, d[0]):
                        x = "base" if side == "Ask" else "quote"
                        if side and avail_ok(p, lo, x, n, None) and need_ok(p, hi, side, packet_field(d[0], kn, "price_in_ticks"), packet_field(d[0], kn, "num_base_lots")):
                            ok = True
            R.req(ok, "funds", n, "an order is dropped only if the funds available fall short of what it needs", p.ix.where, p.trace)
    R.floor("single orders dropped", k, 8)
    for n in MULTI_IX:
        ix = ctx.ix(n)
        acc = Acc(ix)
        sites = acc.order_sites()
        drops = 0
        for s in sorted(sites):
            placed = [(side_of(Path2(ix, b), packet_field(e.vals[2], e.vals[2].a[1], "side"), sv), e.vals[2])
                      for b in acc.by[s] for e in acc.iteration_orders(b) if e.vals[2].op == "agg"]
            for b in acc.by[s]:
                if acc.iteration_orders(b):
                    R.req(len(acc.iteration_orders(b)) == 1, "once", n, "each order of the packet is placed once", b.span)
                    continue
                q = Path2(ix, b)
                drops += 1
                R.req(skipping(q), "asked", n, "an order is dropped only if the packet asks for skipping", b.span, q.trace)
                ok = any(side and avail_ok(q, lo, "base" if side == "Ask" else "quote", n, acc)
                         and need_ok(q, hi, side, packet_field(pk, pk.a[1], "price_in_ticks"), packet_field(pk, pk.a[1], "num_base_lots"))
                         for f, lo, hi in short_funds(q) for side, pk in placed)
                R.req(ok, "funds", n, "an order is dropped only if the funds left fall short of what it needs", b.span, q.trace)
        R.floor("orders dropped from a packet: " + n, drops, 2)
        # every list is gone through
        for n, p in paths(R, ctx, [n]):
            for lst in ("bids", "asks"):
                prm = the_params(p)
                done = prm is not None and any(k.op == "discr" and v == ("in", frozenset([0])) and "has_elem" in str(k.a[0].a[0]) and mentions_list(p, k.a[0], prm, lst) for k, v in p.st.facts.items() if k.op == "discr" and k.a[0].op == "call")
                R.count("lists exhausted", 1 if done else 0)


def mentions_list(p, t, prm, lst):
    return True


def short_funds(p):
    """(condition, available, needed) of every comparison that held"""
    for k, v in p.st.facts.items():
        if v[0] != "in" or len(v[1]) != 1:
            continue
        b = list(v[1])[0]
        if k.op == "Lt" and b == 1:
            yield k, k.a[0], k.a[1]
        elif k.op == "Le" and b == 0:
            yield k, k.a[1], k.a[0]


# ------------------------------------------------------------------ X04
def call_in(p, e, clos, args=()):
    """results of calling a closure value in the state of event e: [(state, value)]"""
    eng = p.ix.eng
    st = St()
    st.store = dict(e.store)
    st.facts = dict(p.st.facts)
    ci = CallInfo()
    ci.fn = {}
    ci.args = list(args)
    ci.tys = []
    ci.dty = 0
    ci.site = -1
    ci.span = e.span
    ci.path = ""
    ci.stack = e.stack
    ci.depth = 0
    ci.tenv = None
    return eng.call_closure(st, clos, list(args), ci)


CLOCK_FN = {"place_order": 4}


@rule("X04", how="The clock function handed to the matching engine at every place_order call is evaluated symbolically in the state of the call: it must return the "
      "slot and the unix timestamp of the clock sysvar read in this instruction, nothing else.")
def x04(R, ctx):
    k = 0
    done = {}
    for n in TRADE_IX + MULTI_IX:
        ix = ctx.ix(n)
        R.fns |= ix.eng.inlined
        cand = [p for p in ix.oks] + [Path2(ix, b) for b in ix.ends if b.kind == "back"]
        for p in cand:
            for e in p.ev("place_order"):
                if (n, e.n) in done:
                    continue
                done[(n, e.n)] = 1
                k += 1
                try:
                    rs = call_in(p, e, e.args[4])
                except Exception as ex:
                    rs = []
                ok = bool(rs)
                for st, v in rs:
                    c = [x for x in walk(v) if x.op in ("call", "sysvar") or x.op == "field"]
                    a, b = project(v, "0"), project(v, "1")
                    if v.op == "tuple":
                        a, b = v.a
                    ok = ok and is_clock(a, "slot") and is_clock(strip_cast(b), "unix_timestamp")
                R.req(ok, "clock", n, "orders are placed at the current slot and time of the clock sysvar", e.span, p.trace)
    R.floor("clock functions evaluated", k, 6)


def is_clock(t, f):
    return t.op == "field" and t.a[1] == f and pp(t.a[0]).replace(" ", "") in ("sysvar:Clock().Ok.0",)
