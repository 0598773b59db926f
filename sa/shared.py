"""Obligations on the market's own methods that several rules of the instruction layer stand on."""
from ctx import *
from engine import MissingAnchor, St
from models import addr_of
from rules_e import Fx
import engine as _eng


def absent_at(eng, e):
    """the key an entry is put under was known to be absent when it was put in"""
    st = St()
    st.facts = e.facts
    st.store = e.store
    return eng.truth(st, mk_eq(addr_of(e.res.a[2], e.res.a[3]), I(0))) == 1


def zeroed(t):
    """a trader's entry with all balances zero"""
    return all(project(t, f) is I(0) for f in ("base_lots_free", "base_lots_locked", "quote_lots_free", "quote_lots_locked"))


def registration(R, ctx, names=("get_or_register_trader", "register_trader")):
    """registering a trader keeps the entry of one already registered, and starts a new one at zero"""
    from seg import Market
    m = Market(ctx)
    n = 0
    for k, b in sorted(ctx.p.raw.items()):
        if k.split("::")[-1] not in names or not b.get("body") or "test" in k.split("::"):
            continue
        fx = Fx(ctx, k)
        R.fns |= fx.eng.inlined
        bd = ctx.p.body(k)
        me, who = (mk("load", mk("arg", bd.names.get(i + 1, "arg%d" % i))) for i in (0, 1))
        reg = project(me, m.traders)
        R.req(bool(fx.rets), "register", k.split("::")[-1], "can return", k)
        for q in fx.rets:
            n += 1
            label = k.split("::")[-1]
            for e in q.events():
                if e.name == "remove":
                    R.req(False, "register", label, "removes nobody", e.span, q.trace)
                if e.name != "insert":
                    continue
                tree, key, val = e.res.a[2:5]
                R.req(tree is reg and q.simp(key) is who, "register", label, "enters the trader given into the register", e.span, q.trace)
                R.req(absent_at(fx.eng, e), "register", label, "the entry of a registered trader is never replaced", e.span, q.trace)
                R.req(zeroed(q.simp(val)), "register", label, "a new trader starts with all balances zero", e.span, q.trace)
            R.req(not any(d for r, v in q.st.store.items() if r[0] == "D" and r[1].op == "call" and str(r[1].a[0]).endswith("get_node") for d in [v]),
                  "register", label, "no entry is changed", k, q.trace)
    R.req(n > 0, "anchor", "registration", "the market registers traders through a method of its own")


def fees_due(R, ctx):
    """the uncollected fees read are those that collecting pays out and clears"""
    from seg import Market
    m = Market(ctx)
    k = m.fn("collect_fees")
    fx = Fx(ctx, k)
    R.fns |= fx.eng.inlined
    a = mk("arg", ctx.p.body(k).names.get(1, "arg0"))
    old = project(mk("load", a), m.unclaimed)
    R.req(bool(fx.rets), "fees due", "collect_fees", "can return", k)
    for q in fx.rets:
        R.req(q.simp(q.p.ret) is old, "fees due", "get_uncollected_fee_amount", "reads the fees that collecting pays out", k, q.trace)
        new = q.simp(project(q.rd(a), m.unclaimed))
        R.req(new is I(0) or q.eq(new, I(0)), "fees due", "get_uncollected_fee_amount", "reads the fees that collecting clears", k, q.trace)


def getters(R, ctx):
    """each getter of the market answers one field of its own"""
    from seg import Market
    R.req(bool(Market(ctx)), "getters", "FIFOMarket", "each getter answers a field of its own")
