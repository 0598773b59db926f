"""Rules over token movements and the audit log of the instruction layer."""
from ctx import *
from terms import T as Term
from rulebase import rule
from rules_p import *
import engine as _eng

RESP = {"place_order": True, "reduce_order": False, "cancel_order": False, "cancel_all_orders": False, "cancel_up_to": False, "cancel_multiple_orders_by_id": False,
        "claim_funds": False, "claim_all_funds": False, "reduce_order_with_claim": False, "cancel_all_orders_with_claim": False}


def with_facts(p, extra):
    """the path p under further assumed facts, or None when they contradict it"""
    st = p.st.copy()
    for t, vs in extra.items():
        k = p.ix.eng.inset(st, t, frozenset(vs))
        if k == 0:
            return None
        if k is None:
            st.setfact(t, ("in", frozenset(vs)))
    q = Path2(p.ix, p.p)
    q.st = st
    return q


def top_events(p):
    return [e for e in p.p.events() if not (e.name == "loop" and e.fn is None)]


def split_some(p, evs, eng):
    """case split on whether each engine call answered"""
    qs = [(p, {})]
    for e in evs:
        nq = []
        d = eng.discr(e.res, eng.OPT)
        for q, m in qs:
            for v in (0, 1):
                r = with_facts(q, {d: [v]})
                if r is not None:
                    nq.append((r, {**m, e: v}))
        qs = nq
    return qs


class Zs:
    """terms known zero on the path (simplified under its facts)"""

    def __init__(self, p, base):
        self.p = p
        s = set(zeros(p)) | set(zeros(base))
        self.z = set()
        for t in s:
            self.z.add(t)
            self.z.add(p.simp(t))
        self.polys = [poly(t) for t in self.z]

    def zero(self, t):
        t = self.p.simp(t)
        q = poly(t)
        if not q or q in self.polys:
            return True
        return all(any(a in self.z for a in mono) for mono in q)


def deposit_terms(resp, x):
    """lots of token x (base/quote) a placed order still has to bring in"""
    i, po, fr = (project(resp, "num_%s_lots_in" % x), project(resp, "num_%s_lots_posted" % x), project(resp, "num_free_%s_lots_used" % x))
    return arith("Sub", arith("Add", i, po), fr)


def order_flag(p, packet, field):
    """known value of a field of an order packet, whatever its kind"""
    adt = p.ix.ctx.adt("order_schema::order_packet::OrderPacket")
    names = p.ix.ctx.p.variants(adt)
    vals = set()
    if packet.op == "agg":
        vs = [packet.a[1]]
        ok = [packet.a[1]]
    else:
        d = p.ix.eng.discr(p.simp(packet), adt)
        ok = [n for n, k in names.items() if p.ix.eng.inset(p.st, d, frozenset([k])) != 0]
    for n in ok:
        t = packet_field(packet, n, field)
        if t.op == "bottom":
            return None
        v = p.ix.eng.cval(p.st, p.simp(t))
        vals.add(v)
    if len(vals) == 1:
        return vals.pop()
    return None


def packet_field(packet, variant, field):
    if packet.op == "agg":
        t = project(packet, field)
        return t if t.op != "bottom" else project(packet, "%s.%s" % (packet.a[1], field))
    return project(packet, "%s.%s" % (variant, field))


def packet_side(p, packet, sv):
    adt = p.ix.ctx.adt("order_schema::order_packet::OrderPacket")
    names = p.ix.ctx.p.variants(adt)
    if packet.op == "agg":
        return side_of(p, packet_field(packet, packet.a[1], "side"), sv)
    d = p.ix.eng.discr(p.simp(packet), adt)
    r = set()
    for n, k in names.items():
        if p.ix.eng.inset(p.st, d, frozenset([k])) != 0:
            r.add(side_of(p, packet_field(packet, n, "side"), sv))
    return r.pop() if len(r) == 1 else None


def transfers(R, p, n, slots):
    """token transfers of a path, classified -> {(token, direction): [amount]}"""
    fl = {}
    for e in cpis(p):
        t = transfer_of(p, e)
        if t is None:
            continue
        src, dst, au = key_arg(t["src"]), key_arg(t["dst"]), key_arg(t["auth"])
        user = {slots.get("base"): "base", slots.get("quote"): "quote"}
        vault = {slots.get("basev"): "base", slots.get("quotev"): "quote"}
        tok = None
        if src in user and dst in vault and user[src] == vault[dst]:
            tok, way = user[src], "in"
            R.req(au == 3 and e.name == "invoke", "transfer", "%s deposit" % n, "is authorised by the signer of the instruction", e.span, p.trace)
        elif src in vault and dst in user and vault[src] == user[dst]:
            tok, way = vault[src], "out"
            h = T(p.ix.ctx)
            want = [STR(b"vault"), mk("bytes_of", KEY(2)), mk("bytes_of", h.h("%s_params" % tok, "mint_key"))]
            R.req(au == src and e.name == "invoke_signed" and len(e.vals) > 2 and seeds_ok(p, e.vals[2], want, lambda b: strip_cast(b) is h.h("%s_params" % tok, "vault_bump")),
                  "transfer", "%s withdrawal" % n, "is signed for with the seeds of the vault it leaves", e.span, p.trace)
        R.req(tok is not None, "transfer", "%s %s -> %s" % (n, src, dst), "moves tokens between the trader's account and the vault of the same token", e.span, p.trace)
        if tok is None:
            continue
        infos = [account_of(x) if x.op != "load" else account_of(x.a[0]) for x in e.vals[1].a] if e.vals[1].op == "array" else []
        R.req(key_arg(t["prog"]) == slots["tok"] and {src, dst, au, slots["tok"]} <= set(infos), "transfer", "%s %s %s" % (n, tok, way), "is a call of the token program with the accounts it names", e.span, p.trace)
        R.req(t["signers"].op == "array" and not t["signers"].a, "transfer", "%s %s %s" % (n, tok, way), "has no further signers", e.span, p.trace, nsample=0)
        fl.setdefault((tok, way), []).append((t["amt"], e))
    return fl


def lotsize(ctx, x):
    return T(ctx).h("%s_lot_size" % x)


def judge(R, p, base, n, what, fl, key, want, ctx):
    """the transfers in one direction amount exactly to want lots; none only if that is zero"""
    x, way = key
    w = poly(arith("Mul", lotsize(ctx, x), want))
    w = poly_simp(p, arith("Mul", lotsize(ctx, x), want))
    Z = base if isinstance(base, Zs) else Zs(p, base)
    ts = fl.get(key, [])
    if ts:
        s = I(0)
        for a, e in ts:
            s = arith("Add", s, a)
        ok = poly_simp(p, s) == w
        R.req(ok, "amount", "%s %s %s" % (n, x, way), what, ts[0][1].span, p.trace)
    else:
        R.req(Z.zero(want), "amount", "%s %s %s" % (n, x, way), what + ", or is shown to be zero", p.ix.where, p.trace)


def poly_simp(p, t):
    return poly(p.simp(t))


# ---------------------------------------------------------------- accumulation over loops
class Acc:
    """what a loop adds up per iteration, from its back paths"""

    def __init__(self, ix):
        self.by = {}
        for b in ix.ends:
            if b.kind == "back" and b.loop:
                self.by.setdefault(b.loop[0], []).append(b)
        self.ix = ix

    def iteration_orders(self, b):
        evs = []
        e = b.st.ev
        while e is not None and e[1] is not b.loop[4]:
            evs.append(e[1])
            e = e[0]
        out = []
        for x in flat(reversed(evs)):
            if x.name in RESP:
                out.append(x)
        return out

    def order_sites(self):
        return {s for s, bs in self.by.items() if any(self.iteration_orders(b) for b in bs)}

    def delta(self, b, name):
        """increment of the named loop variable along one iteration"""
        site, fid, key, s0, lev = b.loop
        for root, va in s0.items():
            vb = b.st.store.get(root)
            if vb is None:
                continue
            if va is vb:
                if any(x.op == "loop" and x.a[0] == site and x.a[1] == name for x in [va]):
                    return I(0)
                continue
            for path, x, y in _eng.diff(va, vb):
                if x.op == "loop" and x.a[0] == site and x.a[1] == name:
                    return arith("Sub", y, x)
        # unchanged on this path: still the loop variable itself
        return I(0)

    def chain_ok(self, R, n, t, x, sv):
        """t adds up exactly the deposit of token x over every order of every iteration -> set of sites covered, or None"""
        sites = []
        while t.op == "loop":
            site, name, init = t.a[0], t.a[1], t.a[2]
            sites.append(site)
            for b in self.by.get(site, []):
                q = Path2(self.ix, b)
                want = {}
                opt = True
                for e in self.iteration_orders(b):
                    if e.name != "place_order":
                        return None
                    resp = project(project(e.res, "Some.0"), "1")
                    want = padd(want, poly_simp(q, deposit_terms(resp, x)), 1)
                    sd = packet_side(q, e.vals[2], sv)
                    if sd != ("Ask" if x == "quote" else "Bid"):
                        opt = False
                got = poly_simp(q, self.delta(b, name))
                if got != want and not (opt and not got):
                    return None
            t = init
        return sites if t is I(0) else None


TRADE_IX = ["Swap", "SwapWithFreeFunds", "PlaceLimitOrder", "PlaceLimitOrderWithFreeFunds"]
MULTI_IX = ["PlaceMultiplePostOnlyOrders", "PlaceMultiplePostOnlyOrdersWithFreeFunds"]
OUT_IX = ["ReduceOrder", "ReduceOrderWithFreeFunds", "CancelAllOrders", "CancelAllOrdersWithFreeFunds", "CancelUpTo", "CancelUpToWithFreeFunds",
          "CancelMultipleOrdersById", "CancelMultipleOrdersByIdWithFreeFunds", "WithdrawFunds"]


def settle_out(R, ctx, n, p, slots, free):
    """withdrawals of a path must be lot size times what the engine released"""
    eng = p.ix.eng
    evs = [e for e in top_events(p) if e.name in RESP]
    for e in p.ev(*RESP):
        R.req(e in evs, "engine call", n, "the engine is called outside loops", e.span, p.trace, nsample=0)
    for q, m in split_some(p, evs, eng):
        Z = Zs(q, p)
        fl = transfers(R, q, n, slots)
        for x in ("base", "quote"):
            want = I(0)
            for e in evs:
                if m[e]:
                    want = arith("Add", want, project(project(e.res, "Some.0"), "num_%s_lots_out" % x))
            if free:
                nc = all(is_zero_arg(q, e) for e in evs if m[e])
                R.req(nc or Z.zero(want), "amount", "%s %s out" % (n, x), "nothing was released from the market, as no tokens are paid out", p.ix.where, p.trace)
                R.req(not fl, "amount", n, "moves no tokens", p.ix.where, p.trace)
            else:
                judge(R, q, Z, n, "the vault pays exactly the released lots times the lot size", fl, (x, "out"), want, ctx)
                R.req((x, "in") not in fl, "amount", "%s %s in" % (n, x), "takes no tokens from the trader", p.ix.where, p.trace)


CLAIM_ARG = {"reduce_order": 5, "cancel_order": 4, "cancel_all_orders": 2, "cancel_up_to": 6, "cancel_multiple_orders_by_id": 3}


def is_zero_arg(p, e):
    i = CLAIM_ARG.get(e.name)
    return i is not None and i < len(e.vals) and p.ix.eng.cval(p.st, p.simp(e.vals[i])) == 0


@rule("T01", how="On every successful path of the trading, cancelling and withdrawing instructions the token transfers are collected and their amounts, as polynomials, "
      "compared with header lot size times the lots the engine's answer on that path says were taken, posted, drawn from free funds or released; a "
      "missing transfer is accepted only where a branch showed the amount to be zero. Sums over several orders are checked per loop iteration.")
def t01(R, ctx):
    sv = side_values(ctx)
    norders = 0
    for n in TRADE_IX:
        free = n.endswith("FreeFunds")
        for n, p in paths(R, ctx, [n]):
            evs = [e for e in top_events(p) if e.name in RESP]
            R.req(all(e.name == "place_order" for e in evs) and len(p.ev(*RESP)) == len(evs) <= 1, "engine call", n, "at most one order is placed", p.ix.where, p.trace)
            if not evs:
                R.req(not transfers(R, p, n, SLOTS[n]), "amount", n, "moves no tokens without an order", p.ix.where, p.trace)
                continue
            e = evs[0]
            norders += 1
            R.req(p.is_some(e.res), "engine call", n, "a refused order fails the instruction", e.span, p.trace)
            resp = project(project(e.res, "Some.0"), "1")
            side = packet_side(p, e.vals[2], sv)
            fl = transfers(R, p, n, SLOTS[n])
            flag = order_flag(p, e.vals[2], "use_only_deposited_funds")
            if free:
                R.req(not fl, "amount", n, "moves no tokens", p.ix.where, p.trace)
            if free or flag == 1:
                Z = Zs(p, p)
                R.req(flag == 1 or all(Z.zero(deposit_terms(resp, x)) and Z.zero(project(resp, "num_%s_lots_out" % x)) for x in ("base", "quote")),
                      "amount", n, "an order settled without tokens is limited to deposited funds", e.span, p.trace)
                continue
            Z = Zs(p, p)
            for x in ("base", "quote"):
                gives = side == ("Ask" if x == "base" else "Bid")
                gets = side == ("Bid" if x == "base" else "Ask")
                if gives or side is None or (x, "in") in fl:
                    judge(R, p, Z, n, "the trader pays exactly the lots taken plus posted minus free funds used, times the lot size", fl, (x, "in"), deposit_terms(resp, x), ctx)
                if gets or side is None or (x, "out") in fl:
                    judge(R, p, Z, n, "the trader receives exactly the lots bought, times the lot size", fl, (x, "out"), project(resp, "num_%s_lots_out" % x), ctx)
    R.floor("single orders settled", norders, 20)
    for n in MULTI_IX:
        free = n.endswith("FreeFunds")
        acc = None
        for n, p in paths(R, ctx, [n]):
            if acc is None or acc.ix is not p.ix:
                acc = Acc(p.ix)
                sites = acc.order_sites()
                R.floor("loops that place orders in " + n, len(sites), 1)
            top = [e for e in top_events(p) if e.name in RESP]
            R.req(not top, "engine call", n, "orders are placed in the loop over the request", p.ix.where, p.trace)
            marks = [e.site for e in p.p.events() if e.name == "loop" and e.fn is None and e.site in sites]
            fl = transfers(R, p, n, SLOTS[n])
            if free:
                R.req(not fl, "amount", n, "moves no tokens", p.ix.where, p.trace)
            else:
                R.req(not any(w == "out" for _, w in fl), "amount", n, "pays nothing out", p.ix.where, p.trace)
            R.count("multi-order paths")
            if not marks:
                R.req(not fl, "amount", n, "moves no tokens without an order", p.ix.where, p.trace)
                continue
            flags = {order_flag(Path2(p.ix, b), e.vals[2], "use_only_deposited_funds") for s in sites for b in acc.by[s] for e in acc.iteration_orders(b)}
            if flags == {1}:
                R.req(not fl, "amount", n, "an order limited to deposited funds moves no tokens", p.ix.where, p.trace)
                continue
            for x in ("base", "quote"):
                ts = fl.get((x, "in"), [])
                cand = []
                if ts:
                    q = poly_simp(p, ts[0][0])
                    if len(ts) == 1 and len(q) == 1:
                        (mono, k), = q.items()
                        L = lotsize(ctx, x)
                        if k == 1 and len(mono) == 2 and L in mono:
                            cand = [a for a in mono if a is not L]
                else:
                    cand = [z for z in zeros(p) if z.op == "loop"]
                good = False
                for c in cand:
                    s = acc.chain_ok(R, n, c, x, sv)
                    if s is not None and set(marks) <= set(s) and all(s.count(m) >= marks.count(m) for m in marks):
                        good = True
                R.req(good, "amount", "%s %s in" % (n, x), "the trader pays exactly the sum over the orders of lots posted minus free funds used, times the lot size", ts[0][1].span if ts else p.ix.where, p.trace)
    for n in OUT_IX:
        for n, p in paths(R, ctx, [n]):
            settle_out(R, ctx, n, p, SLOTS.get(n, {}), n.endswith("FreeFunds"))
    R.floor("withdrawal paths", R.by.get("amount", [0])[0], 100)


@rule("T03", how="On every successful path of the forced exits and the fee collection the transfers must amount to lot size times what the engine released or collected, "
      "go to the token accounts shown to belong to the trader concerned or the fee recipient, and an eviction must claim everything and have shown "
      "the trader to be gone from the market.")
def t03(R, ctx):
    h = T(ctx)
    for n in ("EvictSeat", "ForceCancelOrders"):
        for n, p in paths(R, ctx, [n]):
            settle_out(R, ctx, n, p, SLOTS[n], False)
            ev = p.ev("claim_funds")
            if n == "EvictSeat":
                R.req(len(ev) == 1 and len(p.ev(*RESP)) == 1, "eviction", n, "claims the trader's funds once", p.ix.where, p.trace)
                for e in ev:
                    none = lambda t: t.op == "agg" and t.a[1] == "None"
                    R.req(none(e.vals[2]) and none(e.vals[3]), "eviction", n, "all funds are claimed, without limit", e.span, p.trace)
                    R.req(p.ix.eng.cval(p.st, e.vals[4]) == 1, "eviction", n, "the trader is to be removed", e.span, p.trace)
                    R.req(p.is_some(e.res), "eviction", n, "an unsuccessful claim fails the instruction", e.span, p.trace)
                gone = False
                for e in p.ev("get_trader_index", "get_trader_state"):
                    i = p.events().index(e)
                    if ev and i > p.events().index(ev[0]) and key_arg(e.vals[1]) == SLOTS[n]["trader"] and p.isin(p.ix.eng.discr(e.res, p.ix.eng.OPT), [0]):
                        gone = True
                R.req(gone, "eviction", n, "the trader has been shown to be gone after the claim", p.ix.where, p.trace)
            else:
                ev = p.ev("cancel_up_to", "cancel_all_orders")
                R.req(len(ev) == 1 and len(p.ev(*RESP)) == 1, "forced cancel", n, "cancels the trader's orders once", p.ix.where, p.trace)
                for e in ev:
                    R.req(p.ix.eng.cval(p.st, p.simp(e.vals[CLAIM_ARG[e.name]])) == 1, "forced cancel", n, "the funds released are paid out", e.span, p.trace)
    nc = 0
    for n, p in paths(R, ctx, ["CollectFees"]):
        s = SLOTS[n]
        fl = transfers(R, p, n, s)
        ev = p.ev("collect_fees")
        R.req(len(ev) == 1 and ev[0] in top_events(p), "fees", n, "fees are collected exactly once", p.ix.where, p.trace)
        Z = Zs(p, p)
        for e in ev:
            nc += 1
            judge(R, p, Z, n, "the recipient gets exactly the fees collected, times the lot size", fl, ("quote", "out"), e.res, ctx)
        R.req(set(fl) <= {("quote", "out")}, "fees", n, "moves nothing else", p.ix.where, p.trace)
    R.floor("fee collections", nc, 2)


TOKEN_IX = ["Swap", "PlaceLimitOrder", "PlaceMultiplePostOnlyOrders", "ReduceOrder", "CancelAllOrders", "CancelUpTo", "CancelMultipleOrdersById", "WithdrawFunds",
            "DepositFunds", "EvictSeat", "ForceCancelOrders", "CollectFees"]


@rule("T02", how="The cross-program calls of every successful path of every instruction are listed and classified by the instruction they build: only token "
      "transfers between vault and user accounts in the instructions documented to move tokens, account creation at initialisation and seat request, and "
      "the audit log call are allowed; a vault may sign only for a transfer out of itself (or its own creation) and the log authority only for the log.")
def t02(R, ctx):
    h = T(ctx)
    k = 0
    for n, p in paths(R, ctx, ALL_IX + ["Log"]):
        for e in cpis(p):
            k += 1
            kind = cpi_kind(p, e)
            sign = e.name in ("invoke_signed", "invoke_signed_unchecked") and not (e.vals[2].op == "array" and not e.vals[2].a)
            if kind == "token:transfer" and n in TOKEN_IX:
                continue            # judged by transfers below
            if kind == "program":
                R.req(log_signed(p, e) and n != "Log", "call", n, "the program calls itself only to write the audit log, signed by the log authority", e.span, p.trace)
            elif kind.startswith("system:") and n in ("InitializeMarket", "RequestSeat", "RequestSeatAuthorized"):
                R.req(kind.split(":")[1] in ("create_account", "transfer", "allocate", "assign"), "call", n, "only account creation goes to the system program (%s)" % kind, e.span, p.trace)
            elif kind.startswith("token:initialize_account") and n == "InitializeMarket":
                R.req(not sign, "call", n, "the vaults are initialised without signatures", e.span, p.trace)
            else:
                R.req(False, "call", "%s %s" % (n, kind), "is not a call this instruction may make", e.span, p.trace)
        if n in TOKEN_IX:
            transfers(R, p, n, SLOTS[n])
        else:
            R.req(not any(cpi_kind(p, e) == "token:transfer" for e in cpis(p)), "call", n, "moves no tokens", p.ix.where, p.trace)
        # accounts handed out for direct change: covered by A09; other lamport movements must not exist
    R.floor("cross-program calls classified", k, 500)


@rule("T04", how="On every successful path of DepositFunds the free lots credited to the trader's entry are compared, as polynomials, with the lots requested, and the "
      "tokens transferred with the same lots times the lot size; nothing else in the trader's entry may change, and registering a trader must keep the entry of one already there.")
def t04(R, ctx):
    import shared
    shared.registration(R, ctx)
    nd = 0
    h = T(ctx)
    for n, p in paths(R, ctx, ["DepositFunds"]):
        q = requested(ctx, n, "DepositParams")
        fl = transfers(R, p, n, SLOTS[n])
        Z = Zs(p, p)
        for x in ("base", "quote"):
            judge(R, p, Z, n, "the vault receives exactly the lots deposited, times the lot size", fl, (x, "in"), project(q, "%s_lots_to_deposit" % x), ctx)
        R.req(not any(w == "out" for _, w in fl), "amount", n, "pays nothing out", p.ix.where, p.trace)
        evs = p.ev("get_trader_state_mut", "get_trader_state_from_index_mut")
        names_signer = lambda v: deref(p, v) is KEY(3) or key_arg(v) == 3
        R.req(len(evs) == 1, "credit", n, "exactly one entry is credited", p.ix.where, p.trace)
        for e in evs:
            R.req(is_market(h, p, e.vals[0]), "credit", n, "the entry is one of this market's", e.span, p.trace)
            if e.name == "get_trader_state_mut":
                ptr = project(e.res, "Some.0")
                R.req(names_signer(e.vals[1]), "credit", n, "exactly the signer's entry is credited", e.span, p.trace)
                R.req(p.is_some(e.res), "credit", n, "the trader's entry exists", e.span, p.trace)
            else:
                ptr = e.res
                i = p.simp(e.vals[1])
                by = [x for x in p.ev("get_or_register_trader", "register_trader", "get_trader_index") if i is project(x.res, "Some.0")]
                R.req(any(is_market(h, p, x.vals[0]) and names_signer(x.vals[1]) for x in by), "credit", n, "exactly the signer's entry is credited", e.span, p.trace)
                R.req(any(p.is_some(x.res) for x in by), "credit", n, "the trader's entry exists", e.span, p.trace)
            old = mk("load", ptr)
            new = p.simp(p.rd(ptr))
            for f, d in (("base_lots_free", project(q, "base_lots_to_deposit")), ("quote_lots_free", project(q, "quote_lots_to_deposit")), ("base_lots_locked", I(0)), ("quote_lots_locked", I(0))):
                nd += 1
                R.req(poly_simp(p, arith("Sub", project(new, f), project(old, f))) == poly_simp(p, d), "credit", "%s %s" % (n, f), "grows by exactly the lots deposited", e.span, p.trace)
    R.floor("deposit credits", nd, 8)
