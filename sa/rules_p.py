"""Rules over the instruction layer: every successful path of process_instruction, per instruction tag."""
from ctx import *
from terms import T as Term
from rulebase import rule


def paths(R, ctx, names):
    for n in names:
        ix = ctx.ix(n)
        R.cov["paths:" + n] = len(ix.oks)
        R.fns |= ix.eng.inlined
        R.notes = sorted(set(R.notes) | set(ix.eng.unknown))
        R.req(len(ix.oks) > 0, "reachable", n, "the instruction has a successful path")
        for p in ix.oks:
            yield n, p


def T(ctx):
    t = getattr(ctx, "_terms", None)
    if t is None:
        t = ctx._terms = Terms(ctx)
    return t


# ------------------------------------------------------------------ A01
ENGINE_TRADER = {"place_order": 1, "reduce_order": 1, "cancel_order": 1, "cancel_all_orders": 1, "cancel_up_to": 1,
                 "cancel_multiple_orders_by_id": 1, "claim_funds": 1, "claim_all_funds": 1, "get_or_register_trader": 1,
                 "try_remove_trader_state": 1, "reduce_order_with_claim": 1, "cancel_order_with_claim": 1, "cancel_all_orders_with_claim": 1}


@rule("A01", how="For each instruction the whole of process_instruction is followed along every branch to a successful return; on each such path "
      "the signer flag of account 3 (account 0 for Log) must be a branch condition that held, and the trader handed to every market operation "
      "must be that signer's key (the designated trader account for the two forced-exit instructions).")
def a01(R, ctx):
    ncalls = 0
    for n, p in paths(R, ctx, ALL_IX):
        R.req(p.true(SIGNER(3)), "signer", n, "account 3 is checked to have signed", p.ix.where, p.trace)
        if n == "RequestSeatAuthorized":
            R.req(p.true(SIGNER(4)), "signer", n, "the payer (account 4) is checked to have signed", p.ix.where, p.trace)
        want = KEY(trader_slot(n))
        for e in p.events():
            if (e.fn or {}).get("trait", "") and e.fn["trait"].endswith(MARKET_TRAITS) and e.name in ENGINE_TRADER:
                ncalls += 1
                got = e.vals[ENGINE_TRADER[e.name]]
                got = deref(p, got)
                if n == "ChangeSeatStatus":
                    ok = p.eq(got, project(T(ctx).seat(4), "trader"))
                else:
                    ok = p.eq(got, want)
                R.req(ok, "trader identity", "%s -> %s" % (n, e.name), "the trader acted for is the %s" % ("transaction signer" if trader_slot(n) == 3 else "account named for the forced exit"), e.span, p.trace)
    for n, p in paths(R, ctx, ["Log"]):
        R.req(p.true(SIGNER(0)), "signer", n, "the log authority account is checked to have signed", p.ix.where, p.trace)
    R.floor("market operations on behalf of a trader", ncalls, 12)


def deref(p, t):
    """value of a possibly-pointer key argument"""
    if t.op == "field" and t.a[1] in ("key", "owner"):
        return mk("load", t)
    return t


# ------------------------------------------------------------------ A02
@rule("A02", how="On every successful path of an administrative instruction, equality of the market header's authority with the key of the signing "
      "account must have been established by a branch that held; ClaimAuthority must instead have established equality with the named successor.")
def a02(R, ctx):
    h = T(ctx)
    for n, p in paths(R, ctx, ADMIN_IX):
        R.req(p.eq(h.h("authority"), KEY(3)), "authority", n, "the signer is checked to be the market authority", p.ix.where, p.trace)
        R.req(p.true(SIGNER(3)), "signer", n, "the authority is checked to have signed", p.ix.where, p.trace)
    for n, p in paths(R, ctx, ["ClaimAuthority"]):
        R.req(p.eq(h.h("successor"), KEY(3)), "successor", n, "the signer is checked to be the named successor", p.ix.where, p.trace)
    for n, p in paths(R, ctx, ["EvictSeat", "ForceCancelOrders"]):
        s = SLOTS[n]
        R.req(p.isin(project(h.seat(s["seat"]), "approval_status"), [0, 2]), "seat not approved", n,
              "forced exit only for a trader whose seat is not approved", p.ix.where, p.trace)
        R.req(p.eq(project(h.seat(s["seat"]), "trader"), KEY(s["trader"])), "seat trader", n, "the seat belongs to the trader named", p.ix.where, p.trace)


# ------------------------------------------------------------------ A09 header write sets
HEADER_WRITES = {
    "ClaimAuthority": {"authority": lambda h, p: KEY(3)},
    "NameSuccessor": {"successor": None},
    "ChangeMarketStatus": {"status": None},
    "ChangeFeeRecipient": {"fee_recipient": lambda h, p: KEY(4)},
}


def params(p):
    """decoded instruction parameter terms on this path"""
    r = []
    for k in p.st.facts:
        if k.op == "discr" and k.a[0].op == "call" and str(k.a[0].a[0]).endswith("try_from_slice"):
            r.append(project(k.a[0], "Ok.0"))
    return r


def header_delta(R, ctx, n, p):
    """{field: new value} of the market header on this path; None when something else of the account is written"""
    h = T(ctx)
    v = h.final(p.st, 2)
    out = {}
    okslices = {("sub", 0, h.hsize), ("sub", h.hsize, None)}
    if v.op == "upd" and v.a[0] is BYTES(2):
        bad = [k for k, _ in v.a[1] if k not in okslices]
        R.req(not bad, "account layout", n, "the market account is written only as header and market data, not %s" % bad, p.ix.where, p.trace)
    elif v is not BYTES(2):
        R.req(False, "account layout", n, "the market account is rewritten as a whole: %s" % short(pp(v))[:120], p.ix.where, p.trace)
    f = h.hfinal(p)
    for fld in ctx.header_fields:
        nv = project(f, fld)
        if nv is not h.h(fld):
            out[fld] = nv
    return out


def flatten_fields(t, base):
    return t


@rule("A09", how="The final contents of the market header are computed symbolically for every successful path of every instruction and compared, "
      "field by field, with its contents on entry; only the documented field may differ (plus the sequence number), and it may only receive the "
      "documented value. Stores into other accounts' data or lamports are collected the same way and checked against a per-instruction list.")
def a09(R, ctx):
    h = T(ctx)
    sadt = [a for a in ctx.p.adts if a.endswith("program::accounts::Seat")][0]
    sfields = [f[0] for f in ctx.p.adts[sadt]["variants"][0]["fields"]]
    for n, p in paths(R, ctx, ALL_IX):
        if n == "InitializeMarket":
            continue
        d = header_delta(R, ctx, n, p)
        allowed = HEADER_WRITES.get(n, {})
        for fld, nv in d.items():
            if fld == "market_sequence_number":
                continue
            R.req(fld in allowed, "header field", "%s.%s" % (n, fld), "this instruction must not change the header field", p.ix.where, p.trace)
            if fld in allowed and allowed[fld] is not None:
                R.req(p.eq(nv, allowed[fld](h, p)), "header value", "%s.%s" % (n, fld), "the field receives the documented value", p.ix.where, p.trace)
            elif fld == "successor":
                R.req(any(p.eq(nv, q) for q in params(p)), "header value", "%s.%s" % (n, fld), "the successor is the key given as parameter", p.ix.where, p.trace)
        for fld in ctx.header_fields:
            R.req(fld in d or True, "field compared", n + "." + fld, "compared")
        # stores into accounts other than the market
        for root in p.st.store:
            if root[0] != "D":
                continue
            i = account_of(root[1])
            if i is None or i == 2 and root[1] is CELL(2):
                continue
            ok = n in ("RequestSeat", "RequestSeatAuthorized", "ChangeSeatStatus") and i == SLOTS[n]["seat"] and root[1] is CELL(i)
            ok = ok or n == "ChangeMarketStatus" and "lamports" in pp(root[1])
            R.req(ok, "account write", "%s account %s" % (n, i), "the instruction must not write this account directly", p.ix.where, p.trace)
            R.count("direct account writes checked")
            if ok and n == "ChangeSeatStatus":
                for fld in sfields:
                    if fld != "approval_status":
                        R.req(p.eq(project(seat_final(h, p, i), fld), project(h.seat(i), fld)), "seat field", "%s.%s" % (n, fld), "only the approval of the seat may change", p.ix.where, p.trace)
            elif ok and n.startswith("RequestSeat"):
                f = seat_final(h, p, i)
                R.req(p.eq(project(f, "market"), KEY(2)), "seat field", n + ".market", "a new seat names this market", p.ix.where, p.trace)
                R.req(p.eq(project(f, "trader"), KEY(trader_slot(n))), "seat field", n + ".trader", "a new seat names the trader it is requested for", p.ix.where, p.trace)
    # which fields may be reached at all
    for n in HEADER_WRITES:
        for fld in HEADER_WRITES[n]:
            any_ = any(fld in header_delta(R, ctx, n, p) or n == "ChangeMarketStatus" for p in ctx.ix(n).oks)
            R.req(any_, "effect", "%s.%s" % (n, fld), "the instruction has a path that changes its field")


def account_of(t):
    """index of the account a pointer belongs to"""
    x = t
    while True:
        if x.op == "field" and isinstance(x.a[1], tuple) and x.a[1][0] == "#" and x.a[0].op == "load" and x.a[0].a[0] is ACC:
            return x.a[1][1].a[0] if is_int(x.a[1][1]) else -1
        if x.op in ("field", "load"):
            x = x.a[0]
        elif x.op == "ref" and x.a[0][0] == "D":
            x = x.a[0][1]
        else:
            return None


# ------------------------------------------------------------------ A03
@rule("A03", how="Value flow into the header's authority and successor fields over every successful path: the authority only ever receives the key "
      "of a signer already known equal to the stored successor, naming a successor never touches the authority, and at creation both are the creator.")
def a03(R, ctx):
    h = T(ctx)
    for n, p in paths(R, ctx, ALL_IX):
        f = h.hfinal(p)
        na, ns = project(f, "authority"), project(f, "successor")
        if n == "InitializeMarket":
            R.req(p.eq(na, KEY(3)) and p.eq(ns, KEY(3)), "creator", n, "authority and successor start as the creator", p.ix.where, p.trace)
            continue
        if n == "ClaimAuthority":
            R.req(p.eq(na, h.h("successor")) and p.eq(na, KEY(3)) and p.true(SIGNER(3)), "claim", n, "the new authority is the stored successor, who signed", p.ix.where, p.trace)
        else:
            R.req(na is h.h("authority") or p.eq(na, h.h("authority")), "authority unchanged", n, "only ClaimAuthority changes the authority", p.ix.where, p.trace)
        if n == "NameSuccessor":
            R.req(p.eq(h.h("authority"), KEY(3)), "naming", n, "only the current authority names a successor", p.ix.where, p.trace)
            R.req(any(p.eq(ns, q) for q in params(p)), "naming", n, "the successor recorded is the one given", p.ix.where, p.trace)
        else:
            R.req(ns is h.h("successor"), "successor unchanged", n, "only NameSuccessor changes the successor", p.ix.where, p.trace)


# ------------------------------------------------------------------ A04
@rule("A04", how="On every successful path of ChangeFeeRecipient that has not established the uncollected fees to be zero, a signer check and key "
      "equality for the current fee recipient must have held; every other instruction leaves the fee recipient as it was.")
def a04(R, ctx):
    import shared
    shared.fees_due(R, ctx)
    h = T(ctx)
    nz = 0
    for n, p in paths(R, ctx, ["ChangeFeeRecipient"]):
        fees = [e.res for e in p.ev("get_uncollected_fee_amount")]
        zero = any(p.true(mk_eq(f, I(0))) for f in fees)
        prev = any(p.eq(h.h("fee_recipient"), KEY(i)) and p.true(SIGNER(i)) for i in range(3, 8))
        if not zero:
            nz += 1
        R.req(zero or prev, "consent", n, "with fees uncollected, the current fee recipient must have signed", p.ix.where, p.trace)
        R.req(bool(fees) or prev, "consent", n, "the uncollected fees are consulted", p.ix.where, p.trace)
        R.req(p.eq(project(h.hfinal(p), "fee_recipient"), KEY(4)), "new recipient", n, "the account given becomes the fee recipient", p.ix.where, p.trace)
        R.req(p.eq(h.h("authority"), KEY(3)), "authority", n, "the market authority signed", p.ix.where, p.trace)
    for n, p in paths(R, ctx, [x for x in ALL_IX if x not in ("ChangeFeeRecipient", "InitializeMarket")]):
        R.req(project(h.hfinal(p), "fee_recipient") is h.h("fee_recipient"), "unchanged", n, "the fee recipient is not changed", p.ix.where, p.trace)
    R.floor("paths with fees outstanding", nz, 1)


# ------------------------------------------------------------------ A05
def disc_ok(p, t, tyname):
    """the field is known equal to the discriminant hash of the type"""
    for k, v in p.st.facts.items():
        if k.op == "Eq" and v[0] == "in" and v[1] == frozenset([1]):
            for x, y in ((k.a[0], k.a[1]), (k.a[1], k.a[0])):
                if x is t and y.op == "call" and str(y.a[0]).endswith("from_le_bytes"):
                    for w in walk(y):
                        if w.op == "call" and str(w.a[0]).endswith("keccak::hashv"):
                            ws = list(walk(w))
                            if any(z.op == "typename" and z.a[0].endswith(tyname) for z in ws) and any(z.op == "bytes" and bytes(z.a[0]) == PROGRAM_BYTES for z in ws):
                                return True
    return False


@rule("A05", how="For every instruction and successful path, the branch conditions that held must include: program account and log authority keys equal "
      "to the program id and its log PDA (recomputed here), market account owned by the program, and the header's discriminant equal to the hash "
      "for the header type (zero discriminant and uninitialised status for InitializeMarket).")
def a05(R, ctx):
    h = T(ctx)
    for n, p in paths(R, ctx, ALL_IX):
        R.req(any(p.eq(KEY(0), c) for c in consts(p, PROGRAM_BYTES)), "program account", n, "account 0 is checked to be this program", p.ix.where, p.trace)
        R.req(any(p.eq(KEY(1), c) for c in consts(p, LOG_BYTES)), "log authority", n, "account 1 is checked to be the program's log authority", p.ix.where, p.trace)
        R.req(any(p.eq(OWNER(2), c) for c in consts(p, PROGRAM_BYTES)), "market owner", n, "the market account is checked to be owned by this program", p.ix.where, p.trace)
        if n == "InitializeMarket":
            R.req(p.true(mk_eq(h.h("discriminant"), I(0))), "fresh market", n, "the account does not hold a market yet", p.ix.where, p.trace)
            R.req(p.true(mk_eq(h.h("status"), I(0))), "fresh market", n, "the account's status is uninitialised", p.ix.where, p.trace)
        else:
            R.req(disc_ok(p, h.h("discriminant"), "MarketHeader"), "discriminant", n, "the account is checked to hold a market header", p.ix.where, p.trace)
        for e in p.events():
            if e.name.startswith("load_with_dispatch"):
                R.req(e.vals[1] is h.MKTB or norm_mktb(e.vals[1], h), "market bytes", "%s -> %s" % (n, e.name), "the market is the validated account's data after the header", e.span, p.trace)
                if n != "InitializeMarket":
                    R.req(e.vals[0] is h.h("market_size_params"), "market size", "%s -> %s" % (n, e.name), "the market is laid out by the size recorded in its header", e.span, p.trace)
                R.count("market loads")
    for n, p in paths(R, ctx, ["Log"]):
        R.req(any(p.eq(KEY(0), c) for c in consts(p, LOG_BYTES)), "log authority", n, "account 0 is the program's log authority", p.ix.where, p.trace)
    R.floor("market loads", R.cov.get("market loads", 0), 18)


def norm_mktb(t, h):
    while t.op == "upd":
        t = t.a[0]
    return t is h.MKTB


_consts = {}


def consts(p, raw):
    """constant pubkey terms with these bytes among the facts of the path"""
    r = []
    for k in p.st.facts:
        if k.op == "Eq":
            for x in k.a:
                y = norm(x)
                if y.op in ("agg", "bytes") and is_pubkey(y, raw):
                    r.append(x)
    return r


# ------------------------------------------------------------------ A06 token accounts
def ext_eq(p, t, crate):
    for k, v in p.st.facts.items():
        if k.op == "Eq" and v[0] == "in" and v[1] == frozenset([1]):
            for x, y in ((k.a[0], k.a[1]), (k.a[1], k.a[0])):
                if is_ext(y, crate) and p.eq(x, t):
                    return True
    return False


def tok_field(i, lo, hi):
    return project(BYTES(i), ("sub", lo, hi))


def tok_mint(p, i, key):
    return p.eq(tok_field(i, 0, 32), mk("bytes_of", key)) or p.eq(tok_field(i, 0, 32), key)


def tok_owner(p, i, key):
    return p.eq(tok_field(i, 32, 64), mk("bytes_of", key)) or p.eq(tok_field(i, 32, 64), key)


@rule("A06", how="For each instruction that carries token accounts, every successful path must have established: trader token accounts owned by the "
      "token program, of token-account size, of the market's base/quote mint and belonging to the acting trader; vaults equal to the header's "
      "recorded vault keys with the right mint and self-owned; token program account equal to the SPL token program.")
def a06(R, ctx):
    h = T(ctx)
    for n, p in paths(R, ctx, [x for x in SLOTS if "tok" in SLOTS[x] and x != "InitializeMarket"]):
        s = SLOTS[n]
        who = KEY(trader_slot(n))
        for side in ("base", "quote"):
            prm = side + "_params"
            mint = h.h(prm, "mint_key")
            if side in s:
                i = s[side]
                o = who if n != "CollectFees" else h.h("fee_recipient")
                R.req(ext_eq(p, OWNER(i), TOK), "token account", "%s %s account" % (n, side), "owned by the token program", p.ix.where, p.trace)
                R.req(p.true(mk_eq(mk("len", BYTES(i)), I(165))), "token account", "%s %s account" % (n, side), "has the size of a token account", p.ix.where, p.trace)
                R.req(tok_mint(p, i, mint), "token account", "%s %s account" % (n, side), "is of the market's %s mint" % side, p.ix.where, p.trace)
                R.req(tok_owner(p, i, o), "token account", "%s %s account" % (n, side), "belongs to %s" % ("the acting trader" if n != "CollectFees" else "the fee recipient"), p.ix.where, p.trace)
            if side + "v" in s:
                i = s[side + "v"]
                vk = h.h(prm, "vault_key")
                R.req(p.eq(KEY(i), vk), "vault", "%s %s vault" % (n, side), "is the vault recorded in the header", p.ix.where, p.trace)
                R.req(ext_eq(p, OWNER(i), TOK), "vault", "%s %s vault" % (n, side), "owned by the token program", p.ix.where, p.trace)
                R.req(tok_mint(p, i, mint), "vault", "%s %s vault" % (n, side), "is of the market's %s mint" % side, p.ix.where, p.trace)
                R.req(tok_owner(p, i, vk) or tok_owner(p, i, KEY(i)), "vault", "%s %s vault" % (n, side), "is its own authority", p.ix.where, p.trace)
        R.req(ext_eq(p, KEY(s["tok"]), TOK), "token program", n, "the token program account is the SPL token program", p.ix.where, p.trace)


# ------------------------------------------------------------------ A07 seats
SEATED = {"SwapWithFreeFunds", "PlaceLimitOrder", "PlaceLimitOrderWithFreeFunds", "PlaceMultiplePostOnlyOrders",
          "PlaceMultiplePostOnlyOrdersWithFreeFunds", "DepositFunds"}


@rule("A07", how="On every successful path of the instructions reserved to seat holders, the seat account must have been shown to be owned by the "
      "program, at the PDA of (market, signer), with a valid discriminant, naming this market and this trader, and in Approved status; forced exits "
      "and seat administration must have shown the same binding for the seat they act on.")
def a07(R, ctx):
    h = T(ctx)
    for n, p in paths(R, ctx, sorted(SEATED) + ["EvictSeat", "ForceCancelOrders", "ChangeSeatStatus"]):
        i = SLOTS[n]["seat"]
        seat = h.seat(i)
        who = {"EvictSeat": KEY(4), "ForceCancelOrders": KEY(4), "ChangeSeatStatus": project(seat, "trader")}.get(n, KEY(3))
        R.req(any(p.eq(OWNER(i), c) for c in consts(p, PROGRAM_BYTES)), "seat", n, "the seat account is owned by the program", p.ix.where, p.trace)
        R.req(pda_eq(p, KEY(i), [STR(b"seat"), KEY(2), who], ctx), "seat", n, "the seat is the PDA of this market and trader", p.ix.where, p.trace)
        R.req(disc_ok(p, project(seat, "discriminant"), "Seat"), "seat", n, "the account holds a seat", p.ix.where, p.trace)
        R.req(p.eq(project(seat, "market"), KEY(2)), "seat", n, "the seat is for this market", p.ix.where, p.trace)
        if n != "ChangeSeatStatus":
            R.req(p.eq(project(seat, "trader"), who), "seat", n, "the seat is for this trader", p.ix.where, p.trace)
        if n in SEATED:
            R.req(p.true(mk_eq(project(seat, "approval_status"), I(1))), "seat", n, "the seat is approved", p.ix.where, p.trace)


# ------------------------------------------------------------------ A08
@rule("A08", how="Every successful path of the Log instruction must have established that account 0 signed and is the program's log authority PDA, and "
      "must perform no cross-program call, market operation or account write; audit records are only ever emitted signed with the log PDA seeds.")
def a08(R, ctx):
    for n, p in paths(R, ctx, ["Log"]):
        R.req(p.true(SIGNER(0)) and any(p.eq(KEY(0), c) for c in consts(p, LOG_BYTES)), "authentic", n, "the log authority PDA signed", p.ix.where, p.trace)
        bad = [e for e in p.events() if e.name not in ("loop",) and not (e.fn or {}).get("name", "").startswith("sol_log")]
        R.req(not bad, "inert", n, "the Log instruction has no effects (%s)" % [e.name for e in bad], p.ix.where, p.trace)
        R.req(not [r for r in p.st.store if r[0] == "D" and account_of(r[1]) is not None], "inert", n, "the Log instruction writes no account", p.ix.where, p.trace)
    k = 0
    for n, p in paths(R, ctx, ALL_IX):
        for e in cpis(p):
            if cpi_kind(p, e) == "program":
                k += 1
                R.req(log_signed(p, e), "log seeds", n, "the audit record is signed with the log authority's seeds", e.span, p.trace)
    R.floor("audit record calls", k, 27)


def log_signed(p, e):
    if e.name != "invoke_signed":
        return False
    s = e.vals[2]
    if s.op != "array" or len(s.a) != 1 or s.a[0].op != "array" or len(s.a[0].a) != 2:
        return False
    a, b = s.a[0].a
    return a is STR(b"log") and (b.op == "bytes" and bytes(b.a[0]) == b"\xff" or b.op == "array" and len(b.a) == 1 and b.a[0] is I(255))


# ------------------------------------------------------------------ S01 status gates
CROSS = ["Swap", "SwapWithFreeFunds"]
POST = ["PlaceLimitOrder", "PlaceLimitOrderWithFreeFunds", "PlaceMultiplePostOnlyOrders", "PlaceMultiplePostOnlyOrdersWithFreeFunds", "DepositFunds", "RequestSeat"]
REDUCE = ["ReduceOrder", "CancelAllOrders", "CancelUpTo", "CancelMultipleOrdersById", "WithdrawFunds"]


def status_rank(ctx):
    v = [a for a in ctx.p.adts if a.endswith("status::MarketStatus")]
    if not v:
        raise MissingAnchor("MarketStatus")
    return ctx.p.variants(v[0])


@rule("S01", how="The market status values for which a successful path exists are read off the branch conditions of each instruction's paths and "
      "compared with the operations that status permits; on paths where an order may have matched, only the Active status may remain.")
def s01(R, ctx):
    h = T(ctx)
    st = status_rank(ctx)
    act, po, pa, cl = st["Active"], st["PostOnly"], st["Paused"], st["Closed"]
    for names, allowed, what in ((CROSS, [act], "taking liquidity"), (POST, [act, po], "placing, depositing or requesting a seat"), (REDUCE, [act, po, pa, cl], "reducing, cancelling or withdrawing")):
        for n, p in paths(R, ctx, names):
            R.req(p.isin(h.h("status"), allowed), "status", n, "%s only in status %s" % (what, sorted(k for k, v in st.items() if v in allowed)), p.ix.where, p.trace)
    nx = 0
    for n, p in paths(R, ctx, ["PlaceLimitOrder", "PlaceLimitOrderWithFreeFunds"]):
        for e in p.ev("place_order"):
            # may this order have executed? the matched amounts of the response
            resp = project(project(e.res, "Some.0"), "1")
            nx += 1
            matched = [project(resp, "num_%s_lots_%s" % (x, d)) for x in ("base", "quote") for d in ("in", "out")]
            none = all(zero_known(p, m) for m in matched)
            active = p.isin(h.h("status"), [act])
            R.req(active or none, "crossing", n, "an order that executed against the book only passes while the market is active", e.span, p.trace)
    R.floor("limit orders placed", nx, 4)


def zeros(p):
    """terms known to be 0 on the path; a zero sum of unsigned terms makes every addend 0, and a zero product of an amount and a
    (non-zero) lot size makes the amount 0"""
    if hasattr(p, "_zeros"):
        return p._zeros
    z = set()
    work = []
    for k, v in p.st.facts.items():
        if v[0] != "in":
            continue
        if v[1] == frozenset([0]):
            if k.op == "Lt" and k.a[0] is I(0):
                work.append(k.a[1])
            elif k.op == "Le" and k.a[0] is I(1):
                work.append(k.a[1])
            elif k.op not in ("Eq", "Lt", "Le"):
                work.append(k)
        elif v[1] == frozenset([1]):
            if k.op == "Eq":
                if k.a[0] is I(0):
                    work.append(k.a[1])
                elif k.a[1] is I(0):
                    work.append(k.a[0])
            elif k.op == "Lt" and k.a[1] is I(1) or k.op == "Le" and k.a[1] is I(0):
                work.append(k.a[0])
    while work:
        t = work.pop()
        if t in z:
            continue
        z.add(t)
        if t.op == "Add":
            work.extend(t.a)
        elif t.op == "Mul":
            work.extend(t.a)
    p._zeros = z
    return z


def zero_known(p, t):
    return p.true(mk_eq(t, I(0))) or t in zeros(p)


# ------------------------------------------------------------------ S02 market status transitions
TRANSITIONS = {("Uninitialized", "PostOnly"), ("Active", "PostOnly"), ("Active", "Paused"), ("Active", "Active"), ("PostOnly", "Active"),
               ("PostOnly", "Paused"), ("PostOnly", "Closed"), ("PostOnly", "PostOnly"), ("Closed", "Tombstoned"), ("Closed", "Paused"),
               ("Closed", "Closed"), ("Closed", "PostOnly"), ("Paused", "Active"), ("Paused", "PostOnly"), ("Paused", "Closed"), ("Paused", "Paused")}


def requested(ctx, n, tyname):
    """the decoded parameter of the instruction"""
    r = set()
    for p in ctx.ix(n).oks:
        for q in params(p):
            ty = [x for x in walk(q) if x.op == "tyname"]
            if ty and any(x.a[0].endswith(tyname) for x in ty):
                r.add(q)
    if len(r) != 1:
        raise MissingAnchor("%s decodes one %s from its data (found %d)" % (n, tyname, len(r)))
    return list(r)[0]


@rule("S02", how="ChangeMarketStatus is followed once per pair of (current status, requested status): a successful path must exist exactly for the pairs of "
      "the transition table, and on each the final header status must be the requested one.")
def s02(R, ctx):
    h = T(ctx)
    st = status_rank(ctx)
    q = requested(ctx, "ChangeMarketStatus", "MarketStatus")
    dq = mk("discr", q, ctx.adt("status::MarketStatus"))
    for a in st:
        for b in st:
            ix = ctx.ix_with("ChangeMarketStatus", {h.h("status"): {st[a]}, dq: {st[b]}})
            R.fns |= ix.eng.inlined
            ok = (a, b) in TRANSITIONS
            R.count("pairs of statuses")
            R.req(bool(ix.oks) == ok, "transition", "%s -> %s" % (a, b), "is %s" % ("allowed" if ok else "refused"), ix.where, ix.oks[0].trace if ix.oks else None)
            for p in ix.oks:
                f = p.simp(project(h.hfinal(p), "status"))
                gone = any(c.name == "realloc" for c in p.events())
                if b == "Tombstoned":
                    R.req(gone, "effect", "%s -> %s" % (a, b), "the market account is removed", p.ix.where, p.trace)
                else:
                    R.req(p.eq(f, I(st[b])) and not gone, "effect", "%s -> %s" % (a, b), "the status recorded is the one requested", p.ix.where, p.trace)
    for n, p in paths(R, ctx, [x for x in ALL_IX if x not in ("ChangeMarketStatus", "InitializeMarket")]):
        f = project(h.hfinal(p), "status")
        R.req(f is h.h("status"), "unchanged", n, "no other instruction changes the market status", p.ix.where, p.trace)
    R.floor("pairs of statuses", R.cov.get("pairs of statuses", 0), 36)


# ------------------------------------------------------------------ S03 seats
SEAT_TRANSITIONS = {("NotApproved", "Approved"), ("Approved", "NotApproved"), ("Approved", "Retired"), ("NotApproved", "Retired")}


def seat_ranks(ctx):
    v = [a for a in ctx.p.adts if a.endswith("status::SeatApprovalStatus")]
    if not v:
        raise MissingAnchor("SeatApprovalStatus")
    return ctx.p.variants(v[0])


def seat_final(h, p, i):
    return p.simp(project(h.final(p.st, i), ("cast", SEAT_TY)))


@rule("S03", how="ChangeSeatStatus is followed once per pair of (current approval, requested approval): a successful path must exist exactly for the allowed "
      "pairs (an unchanged request is a no-op), the final approval must be the one requested, only the approval field of the seat may change, and "
      "approving must register the seat's trader with the market on every successful path while no other transition touches the market's traders.")
def s03(R, ctx):
    import shared
    shared.registration(R, ctx)
    h = T(ctx)
    st = seat_ranks(ctx)
    q = requested(ctx, "ChangeSeatStatus", "SeatApprovalStatus")
    i = SLOTS["ChangeSeatStatus"]["seat"]
    seat = h.seat(i)
    sadt = [a for a in ctx.p.adts if a.endswith("program::accounts::Seat")][0]
    fields = [f[0] for f in ctx.p.adts[sadt]["variants"][0]["fields"]]
    for a in st:
        for b in st:
            ix = ctx.ix_with("ChangeSeatStatus", {project(seat, "approval_status"): {st[a]}, mk("discr", q, ctx.adt("status::SeatApprovalStatus")): {st[b]}})
            R.fns |= ix.eng.inlined
            R.count("pairs of approvals")
            ok = (a, b) in SEAT_TRANSITIONS or a == b
            R.req(bool(ix.oks) == ok, "transition", "%s -> %s" % (a, b), "is %s" % ("allowed" if ok else "refused"), ix.where, ix.oks[0].trace if ix.oks else None)
            for p in ix.oks:
                f = seat_final(h, p, i)
                R.req(p.eq(project(f, "approval_status"), I(st[b])), "effect", "%s -> %s" % (a, b), "the approval recorded is the one requested", p.ix.where, p.trace)
                for fld in fields:
                    if fld != "approval_status":
                        R.req(p.eq(project(f, fld), project(seat, fld)), "effect", "%s -> %s" % (a, b), "no other field of the seat changes (%s)" % fld, p.ix.where, p.trace)
                reg = p.ev("get_or_register_trader")
                if (a, b) == ("NotApproved", "Approved"):
                    good = [e for e in reg if p.eq(deref(p, e.vals[1]), project(seat, "trader")) and p.is_some(e.res)]
                    R.req(bool(good), "registration", "%s -> %s" % (a, b), "the trader is registered with the market, and failure to register fails the instruction", p.ix.where, p.trace)
                else:
                    R.req(not reg, "registration", "%s -> %s" % (a, b), "no trader is registered", p.ix.where, p.trace)
    R.floor("pairs of approvals", R.cov.get("pairs of approvals", 0), 9)
    # nothing else registers traders except placing orders inside the engine
    for n, p in paths(R, ctx, [x for x in ALL_IX if x != "ChangeSeatStatus"]):
        R.req(not p.ev("get_or_register_trader") or n == "DepositFunds", "registration", n, "no other instruction registers a trader with the market", p.ix.where, p.trace)


# ------------------------------------------------------------------ S04 tombstone
def emptied(p, t, pred):
    """on path p some term X with pred(X) is known to be an empty collection"""
    for k, v in p.st.facts.items():
        if v[0] != "in":
            continue
        if k.op == "call" and str(k.a[0]).endswith("is_empty") and v[1] == frozenset([1]) and pred(k.a[-1]):
            return True
        if k.op == "call" and str(k.a[0]).split("::")[-1] in ("len", "size") and v[1] == frozenset([0]) and pred(k.a[-1]):
            return True
        if k.op in ("Eq",) and v[1] == frozenset([1]) and any(x is I(0) for x in k.a):
            y = k.a[1] if k.a[0] is I(0) else k.a[0]
            if y.op == "call" and str(y.a[0]).split("::")[-1] in ("len", "size") and pred(y.a[-1]):
                return True
    return any(y.op == "call" and str(y.a[0]).split("::")[-1] in ("len", "size") and pred(y.a[-1]) for y in zeros(p))


@rule("S04", how="On every successful path of ChangeMarketStatus that removes the account (follows the Closed to Tombstoned request), branches that held must "
      "have shown both books empty, no uncollected fees and no registered trader, read from this market; the lamports must all go to the named "
      "receiver or the authority and the account must be handed to the system program at size zero. No other path frees or drains the market account.")
def s04(R, ctx):
    import shared
    shared.fees_due(R, ctx)
    h = T(ctx)
    st = status_rank(ctx)
    dq = mk("discr", requested(ctx, "ChangeMarketStatus", "MarketStatus"), ctx.adt("status::MarketStatus"))
    ix = ctx.ix_with("ChangeMarketStatus", {h.h("status"): {st["Closed"]}, dq: {st["Tombstoned"]}})
    R.fns |= ix.eng.inlined
    kinds = set()
    sv = side_values(ctx)
    for p in ix.oks:
        for side in ("Bid", "Ask"):
            ok = emptied(p, None, lambda x: (c := call_of(x, "::get_book", "::get_book_mut")) is not None and is_market(h, p, c[1][0]) and side_of(p, c[1][1], sv) == side)
            R.req(ok, "precondition", "%s book" % side, "the %s side must be empty" % side, p.ix.where, p.trace)
        R.req(emptied(p, None, lambda x: (c := call_of(x, "::get_registered_traders", "::get_registered_traders_mut")) is not None and is_market(h, p, c[1][0])),
              "precondition", "traders", "no trader may be registered", p.ix.where, p.trace)
        fees = [e for e in p.ev("get_uncollected_fee_amount") if is_market(h, p, e.vals[0])]
        R.req(any(zero_known(p, e.res) for e in fees), "precondition", "fees", "no fee may be uncollected", p.ix.where, p.trace)
        # lamports, separately with and without an account for the receiver
        cases = []
        for k in [k for k in set(list(p.st.facts) + [x for r_, v in p.st.store.items() if r_[0] == "D" and "lamports" in pp(r_[1]) for x in walk(v)])
                  if k.op == "discr" and k.a[0].op == "call" and str(k.a[0].a[0]) in ("has_account", "has_elem", "slice_get") and "accounts[4]" in pp(k)]:
            # an account asked for is a result; an element asked for is an option
            there = 0 if k.a[0].a[0] == "has_account" else 1
            for given in (0, 1):
                cases += [(given, sc) for sc in p.ix.eng.assume(p.st.copy(), mk_eq(k, I(there)), 1 - given)]
            break
        R.req(bool(cases), "lamports", "destination", "whether a receiver is given is looked at", p.ix.where, p.trace)
        for absent, sc in cases:
            kinds.add(absent)
            dst = None
            for root, v in p.st.store.items():
                if root[0] != "D" or "lamports" not in pp(root[1]):
                    continue
                a = account_of(root[1])
                v = dsimp(p.ix.eng, sc, v)
                if a is not None and v is LAMPORTS(a):
                    continue
                if a == 2:
                    R.req(p.eq(v, I(0)), "lamports", "market", "the market keeps no lamports", p.ix.where, p.trace)
                else:
                    R.req(dst is None, "lamports", "account %s" % a, "one account receives the lamports", p.ix.where, p.trace)
                    dst = a
                    R.req(v.op == "Add" and set(v.a) == {LAMPORTS(a), LAMPORTS(2)}, "lamports", "account %s" % a, "the destination gains exactly the market's lamports", p.ix.where, p.trace)
            R.req(dst is not None, "lamports", "destination", "the market's lamports are moved", p.ix.where, p.trace)
            if dst is not None:
                R.req(dst == (3 if absent else 4), "lamports", "destination", "the receiver given is used, else the authority", p.ix.where, p.trace)
        asg = p.ev("assign")
        R.req(any(account_of(e.vals[0]) == 2 and is_ext(e.vals[1], SYS) for e in asg), "removal", "owner", "the account is returned to the system program", p.ix.where, p.trace)
        re = p.ev("realloc")
        R.req(any(account_of(e.vals[0]) == 2 and e.vals[1] is I(0) for e in re), "removal", "size", "the account's data is removed", p.ix.where, p.trace)
    R.floor("removals with and without a receiver", len(kinds), 2)
    for n, p in paths(R, ctx, ALL_IX):
        if n == "ChangeMarketStatus":
            t = p.isin(dq, [st["Tombstoned"]])
            if t:
                continue
        bad = [e.name for e in p.ev("assign", "realloc") if account_of(e.vals[0]) is not None]
        R.req(not bad, "no other removal", n, "no other path frees the account (%s)" % bad, p.ix.where, p.trace)


def side_values(ctx):
    v = [a for a in ctx.p.adts if a.endswith("state::enums::Side")]
    if not v:
        raise MissingAnchor("Side")
    return {d: n for n, d in ctx.p.variants(v[0]).items()}


def side_of(p, t, sv):
    if t.op == "agg":
        return t.a[1]
    d = p.discr(t, "state::enums::Side")
    for k, n in sv.items():
        if p.isin(d, [k]):
            return n
    return None


def is_market(h, p, t):
    """t is the market held in the validated market account"""
    for x in walk(t):
        if x.op == "call" and "load_with_dispatch" in str(x.a[0]):
            return norm_mktb(x.a[3], h) and x.a[2] is h.h("market_size_params")
    return False


# ------------------------------------------------------------------ S05 / S06 account creation
def key_arg(t):
    """account index of an account-key argument (pointer or value)"""
    t = norm(t)
    if t.op == "load":
        t = t.a[0]
    if t.op == "field" and t.a[1] == "key":
        return account_of(t)
    return None


def bump_term(p, t, addr_ok):
    """t is the bump of find_program_address accepted by addr_ok(term of the call)"""
    t = strip_cast(p.simp(t))
    if t.op == "field" and t.a[1] == "1":
        return addr_ok(t.a[0])
    return False


def strip_cast(t):
    while t.op in ("cast", "trunc", "zext") and t.a and t.a[0].__class__ is Term:
        t = t.a[0]
    return t


def seeds_ok(p, t, want, bump_ok):
    """t is [[want..., [bump]]]"""
    if t.op != "array" or len(t.a) != 1 or t.a[0].op != "array" or len(t.a[0].a) != len(want) + 1:
        return False
    ss = t.a[0].a
    for a, b in zip(ss, want):
        if not p.eq(norm(a), norm(b)):
            return False
    last = ss[-1]
    return last.op == "array" and len(last.a) == 1 and bump_ok(last.a[0])


def is_fpa(p, t, want):
    c = call_of(t, "find_program_address")
    if not c or c[1][0].op != "array" or len(c[1][0].a) != len(want):
        return False
    return all(p.eq(norm(a), norm(b)) for a, b in zip(c[1][0].a, want)) and is_pubkey(c[1][1], PROGRAM_BYTES)


def rent_of(t, space):
    """t is the rent-exempt minimum of an account of this size, or that but at least 1"""
    if t.op == "max" and I(1) in t.a:
        t = t.a[0] if t.a[1] is I(1) else t.a[1]
    return t.op == "call" and str(t.a[0]).endswith("minimum_balance") and t.a[-1] is I(space)


def creation(R, n, p, i, payer, space, owner_ok, want, sysslot):
    """the system calls that bring account i into being"""
    what = "account %d" % i
    bump = lambda b: bump_term(p, b, lambda c: is_fpa(p, c, want))
    sysc = []
    for e in cpis(p):
        c = call_of(e.vals[0])
        if c and "system_instruction" in c[0]:
            sysc.append((c[0].split("::")[-1], c[1], e))
    mine = [(k, a, e) for k, a, e in sysc if any(key_arg(x) == i for x in a[:2])]
    kinds = sorted(set(k for k, _, _ in mine))
    signed = lambda e: e.name == "invoke_signed" and seeds_ok(p, e.vals[2], want, bump)
    R.req(kinds in (["create_account"], ["allocate", "assign"], ["allocate", "assign", "transfer"]), "creation", "%s %s" % (n, what), "is created by the system program (%s)" % kinds, p.ix.where, p.trace)
    for k, a, e in mine:
        if k == "create_account":
            R.req(key_arg(a[0]) == payer and key_arg(a[1]) == i, "creation", "%s %s" % (n, what), "is paid for by the designated payer", e.span, p.trace)
            R.req(rent_of(p.simp(a[2]), space), "creation", "%s %s" % (n, what), "is rent exempt", e.span, p.trace)
            R.req(a[3] is I(space), "creation", "%s %s" % (n, what), "has the size %d" % space, e.span, p.trace)
            R.req(owner_ok(a[4]), "creation", "%s %s" % (n, what), "is owned by the intended program", e.span, p.trace)
            R.req(signed(e), "creation", "%s %s" % (n, what), "is signed for with its own seeds", e.span, p.trace)
            R.req(p.true(mk_eq(LAMPORTS(i), I(0))), "creation", "%s %s" % (n, what), "the direct form is only used on an empty account", e.span, p.trace)
        elif k == "transfer":
            R.req(key_arg(a[0]) == payer and key_arg(a[1]) == i, "creation", "%s %s" % (n, what), "is topped up by the designated payer", e.span, p.trace)
            t = p.simp(a[2])
            R.req(t.op in ("ssub", "Sub") and rent_of(t.a[0], space) and t.a[1] is LAMPORTS(i), "creation", "%s %s" % (n, what), "is topped up to rent exemption", e.span, p.trace)
        elif k == "allocate":
            R.req(a[1] is I(space) and signed(e), "creation", "%s %s" % (n, what), "has the size %d, signed with its seeds" % space, e.span, p.trace)
        elif k == "assign":
            R.req(owner_ok(a[1]) and signed(e), "creation", "%s %s" % (n, what), "is owned by the intended program, signed with its seeds", e.span, p.trace)
    if kinds == ["allocate", "assign"]:
        short_ = [k for k in zeros(p) if k.op == "ssub" and rent_of(k.a[0], space) and k.a[1] is LAMPORTS(i)]
        short_ += [k for k, v in p.st.facts.items() if k.op == "Lt" and k.a[0] is LAMPORTS(i) and rent_of(k.a[1], space) and v == ("in", frozenset([0]))]
        R.req(bool(short_), "creation", "%s %s" % (n, what), "is left without a top-up only when already rent exempt", p.ix.where, p.trace)
    for k, a, e in sysc:
        R.req(ext_eq(p, KEY(sysslot), SYS), "creation", n, "the system program account is the system program", e.span, p.trace)


def isdisc(p, t, tyname):
    if not (t.op == "call" and str(t.a[0]).endswith("from_le_bytes")):
        return False
    ws = list(walk(t))
    return any(w.op == "call" and str(w.a[0]).endswith("keccak::hashv") for w in ws) and any(z.op == "typename" and z.a[0].endswith(tyname) for z in ws) \
        and any(z.op == "bytes" and bytes(z.a[0]) == PROGRAM_BYTES for z in ws)


@rule("S06", how="On every successful path of the two seat requests, the seat account must have been empty and system-owned, shown equal to the PDA of "
      "(market, trader), created by the system program for this program with rent exemption and its own seeds at the payer's cost, and its final "
      "contents must be a seat for this market and trader that is not approved. Other instructions create no accounts but the vaults at initialisation.")
def s06(R, ctx):
    h = T(ctx)
    sadt = ctx.adt("program::accounts::Seat")
    size = [t["size"] for t in ctx.p.types if t.get("def", "").endswith("program::accounts::Seat") and "size" in t][0]
    for n, p in paths(R, ctx, ["RequestSeat", "RequestSeatAuthorized"]):
        s = SLOTS[n]
        i = s["seat"]
        who = KEY(3) if n == "RequestSeat" else KEY(s["trader"])
        want = [STR(b"seat"), KEY(2), who]
        R.req(pda_eq(p, KEY(i), want, ctx), "address", n, "the account is the seat PDA of this market and trader", p.ix.where, p.trace)
        R.req(p.true(mk_eq(mk("len", BYTES(i)), I(0))) and ext_eq(p, OWNER(i), SYS), "fresh", n, "the account did not exist", p.ix.where, p.trace)
        creation(R, n, p, i, 3 if n == "RequestSeat" else s["payer"], size, lambda t: is_pubkey(t if t.op != "load" else t, PROGRAM_BYTES), want, s["sys"])
        f = seat_final(h, p, i)
        R.req(isdisc(p, project(f, "discriminant"), "Seat"), "contents", n, "carries the seat discriminant", p.ix.where, p.trace)
        R.req(p.eq(project(f, "market"), KEY(2)), "contents", n, "names this market", p.ix.where, p.trace)
        R.req(p.eq(project(f, "trader"), who), "contents", n, "names the trader", p.ix.where, p.trace)
        R.req(p.eq(project(f, "approval_status"), I(0)), "contents", n, "is not approved", p.ix.where, p.trace)
    for n, p in paths(R, ctx, [x for x in ALL_IX if x not in ("RequestSeat", "RequestSeatAuthorized", "InitializeMarket")]):
        bad = [cpi_kind(p, e) for e in cpis(p) if cpi_kind(p, e).startswith("system:")]
        R.req(not bad, "no creation", n, "makes no system program call (%s)" % bad, p.ix.where, p.trace)


@rule("S05", how="On every successful path of InitializeMarket, the conditions that held and the values stored are compared with the contract: fee at most "
      "10000 basis points; lot sizes dividing units and lots per unit dividing the tick; both mints token-program mints; vaults shown equal to the PDA of "
      "(market, mint), created self-owned; market data freshly zero (sequence number 0), sized by the parameters recorded in the header; header fields "
      "equal to the parameters, mint decimals, computed lot sizes, vault keys and bumps, creator as authority, status post-only.")
def s05(R, ctx):
    h = T(ctx)
    st = status_rank(ctx)
    n = "InitializeMarket"
    s = SLOTS[n]
    for n, p in paths(R, ctx, [n]):
        q = [x for x in params(p)]
        R.req(len(q) == 1, "parameters", n, "one parameter block is decoded", p.ix.where, p.trace)
        if not q:
            continue
        q = q[0]
        f = h.hfinal(p)
        P = lambda *ks: proj(q, *ks)
        # bounds and divisibility
        fee = P("taker_fee_bps")
        R.req(at_most(p, fee, 10000), "bound", "taker fee", "is at most 10000 basis points", p.ix.where, p.trace)
        raw = p.simp(project(f, "raw_base_units_per_base_unit"))
        rp = P("raw_base_units_per_base_unit")
        some = p.discr_is(rp, "core::option::Option")
        expect_raw = {1: project(rp, "Some.0"), 0: I(1)}.get(some)
        R.req(raw.op == "ite" or expect_raw is not None and raw is expect_raw, "header", "raw base units", "is the parameter, or 1 when absent", p.ix.where, p.trace)
        unit = {}
        for side, slot in (("base", s["base_mint"] if "base_mint" in s else s["basemint"]), ("quote", s["quotemint"])):
            R.req(ext_eq(p, OWNER(slot), TOK), "mint", side, "is owned by the token program", p.ix.where, p.trace)
            v = s[side + "v"]
            want = [STR(b"vault"), KEY(2), KEY(slot)]
            R.req(pda_eq(p, KEY(v), want, ctx), "vault", side, "is the PDA of this market and mint", p.ix.where, p.trace)
            R.req(p.true(mk_eq(mk("len", BYTES(v)), I(0))) and ext_eq(p, OWNER(v), SYS), "vault", side, "did not exist", p.ix.where, p.trace)
            creation(R, n, p, v, 3, 165, lambda t: is_ext(t, TOK), want, s["sys"])
            ini = [c for e in cpis(p) for c in [call_of(e.vals[0])] if c and c[0].split("::")[-1].startswith("initialize_account")]
            R.req(any(is_ext(c[1][0], TOK) and key_arg(c[1][1]) == v and key_arg(c[1][2]) == slot and key_arg(c[1][3]) == v for c in ini), "vault", side,
                  "is initialised as a token account of the mint with itself as owner", p.ix.where, p.trace)
            prm = project(f, side + "_params")
            R.req(p.eq(project(prm, "mint_key"), KEY(slot)), "header", side + " mint", "is the mint given", p.ix.where, p.trace)
            R.req(p.eq(project(prm, "vault_key"), KEY(v)), "header", side + " vault", "is the vault created", p.ix.where, p.trace)
            R.req(bump_term(p, project(prm, "vault_bump"), lambda c: is_fpa(p, c, want)), "header", side + " bump", "is the bump of the vault", p.ix.where, p.trace)
            dec = strip_cast(project(prm, "decimals"))
            R.req(dec.op == "field" and dec.a[1] == "decimals" and any(w is mk("load", project(mk("load", project(A(slot), "data")), "cell")) or w is BYTES(slot) or w is CELL(slot) for w in walk(dec)),
                  "header", side + " decimals", "is the mint's decimals", p.ix.where, p.trace)
            unit[side] = [w for w in walks(list(p.st.facts)) if w.op == "call" and str(w.a[0]).endswith("::pow") and w.a[2] is I(10) and strip_cast(w.a[3]) is dec]
        # lot sizes: header.lot_size = unit / lots per unit, with an exactness check
        lots = {"base": P("num_base_lots_per_base_unit"), "quote": P("num_quote_lots_per_quote_unit")}
        for side in ("base", "quote"):
            ls = p.simp(project(f, side + "_lot_size"))
            good = ls.op == "Div" and ls.a[1] is lots[side] and any(w in unit[side] for w in walk(ls.a[0]))
            if good and side == "base":
                m = ls.a[0]
                good = m.op == "Mul" and len(m.a) == 2 and any(x in unit[side] for x in m.a) and any(p.eq(p.simp(x), raw) or strip_cast(p.simp(x)) is strip_cast(raw) for x in m.a)
            elif good:
                good = ls.a[0] in unit[side]
            R.req(good, "header", side + " lot size", "is atoms per unit divided by lots per unit", p.ix.where, p.trace)
            if ls.op == "Div":
                R.req(any(p.simp(z) is mk("Rem", ls.a[0], ls.a[1]) or z is mk("Rem", ls.a[0], ls.a[1]) for z in zeros(p)), "divisibility", side, "lots per unit divide atoms per unit", p.ix.where, p.trace)
        tick = P("tick_size_in_quote_lots_per_base_unit")
        R.req(any(z is mk("Rem", tick, lots["base"]) for z in zeros(p)), "divisibility", "tick", "base lots per unit divide the tick size", p.ix.where, p.trace)
        ta = p.simp(project(f, "tick_size_in_quote_atoms_per_base_unit"))
        R.req(ta.op == "Mul" and set(ta.a) == {p.simp(project(f, "quote_lot_size")), tick}, "header", "tick size", "is the tick in quote lots times the quote lot size", p.ix.where, p.trace)
        for fld, val in (("market_size_params", P("market_size_params")), ("fee_recipient", P("fee_collector")), ("authority", KEY(3)), ("successor", KEY(3)), ("status", I(st["PostOnly"]))):
            R.req(p.eq(project(f, fld), val), "header", fld, "receives the documented value", p.ix.where, p.trace)
        R.req(isdisc(p, project(f, "discriminant"), "MarketHeader"), "header", "discriminant", "is the market header's", p.ix.where, p.trace)
        # market data
        ld = p.ev("load_with_dispatch_init")
        R.req(len(ld) == 1 and p.eq(ld[0].vals[0], P("market_size_params")) and norm_mktb(ld[0].vals[1], h), "market data", n, "is laid out by the size given", p.ix.where, p.trace)
        sq = p.ev("get_sequence_number")
        R.req(any(zero_known(p, e.res) for e in sq), "market data", n, "must not be initialised yet (sequence number 0)", p.ix.where, p.trace)
        it = p.ev("initialize_with_params")
        R.req(len(it) == 1 and p.eq(it[0].vals[1], tick) and p.eq(it[0].vals[2], lots["base"]), "market data", n, "is initialised once with the tick size and lots per unit given", p.ix.where, p.trace)
        sf = p.ev("set_fee")
        R.req(len(sf) == 1 and p.eq(strip_cast(sf[0].vals[1]), fee), "market data", n, "takes the fee given", p.ix.where, p.trace)


def proj(t, *ks):
    for k in ks:
        t = project(t, k)
    return t


def walks(ts):
    seen = set()
    for t in ts:
        for w in walk(t):
            if w not in seen:
                seen.add(w)
                yield w


def at_most(p, t, n):
    e = p.ix.eng
    for k, v in p.st.facts.items():
        if v[0] != "in" or len(v[1]) != 1 or k.op not in ("Lt", "Le"):
            continue
        b = next(iter(v[1]))
        x, y = k.a
        sx, sy = strip_cast(x), strip_cast(y)
        if sx is t and is_int(y) and b == 1 and y.a[0] - (1 if k.op == "Lt" else 0) <= n:
            return True
        if sy is t and is_int(x) and b == 0 and x.a[0] - (1 if k.op == "Le" else 0) <= n:
            return True
    return False


# ------------------------------------------------------------------ S07 dispatch
@rule("S07", how="Every market loader and the size function are followed once per combination of the book and seat sizes their branches mention: a "
      "combination must be accepted by all or refused by all, accepted ones must be interpreted as the market type of exactly that size (or report "
      "that type's size), over the bytes given, and the loaders for existing markets must have shown a positive sequence number while every "
      "instruction other than InitializeMarket uses only those.")
def s07(R, ctx):
    import shared
    shared.getters(R, ctx)
    from engine import explore
    fns = {}
    for f in ("load_with_dispatch", "load_with_dispatch_mut", "load_with_dispatch_init", "get_market_size"):
        k = ctx.p.one(f)
        prm, byt = mk("arg", "params"), mk("arg", "bytes")
        args = [prm, byt][:1 if f == "get_market_size" else 2]
        eng, ends = explore(ctx.p, k, args=args)
        R.fns |= eng.inlined
        base = mk("load", prm)
        fld = [project(base, x) for x in ("bids_size", "asks_size", "num_seats")]
        vals = [set(), set(), set()]
        for p in ends:
            for t, v in p.st.facts.items():
                for i in range(3):
                    if t is fld[i]:
                        vals[i] |= set(v[1])
                    if t.op == "Eq" and fld[i] in t.a:
                        vals[i] |= set(x.a[0] for x in t.a if is_int(x))
        fns[f] = (k, args, fld, vals, byt)
    dom = [sorted(set().union(*[fns[f][3][i] for f in fns])) for i in range(3)]
    sizes = {}
    for t in ctx.p.types:
        if t.get("def", "").endswith("::FIFOMarket") and "size" in t:
            sizes[tuple(int(x) for x in t["cargs"])] = (t["size"], t["s"])
    nacc = 0
    for cfg in [(a, b, c) for a in dom[0] for b in dom[1] for c in dom[2]]:
        acc = {}
        for f, (k, args, fld, vals, byt) in fns.items():
            eng, ends = explore(ctx.p, k, args=args, facts={fld[i]: ("in", frozenset([cfg[i]])) for i in range(3)})
            oks = [p for p in ends if p.kind == "ret" and eng.inset(p.st, eng.discr(p.ret, eng.RES), frozenset([0])) != 0]
            acc[f] = bool(oks)
            for p in oks:
                if f == "get_market_size":
                    v = project(p.ret, "Ok.0")
                    R.req(cfg in sizes and v is I(sizes[cfg][0]), "layout", "%s%s" % (f, cfg), "reports the size of the market type of that size", k)
                    continue
                ld = [t for t, v in p.st.facts.items() if t.op == "discr" and t.a[0].op == "call" and "load_" in str(t.a[0].a[0]) and v == ("in", frozenset([1]))]
                R.req(cfg in sizes and len(ld) == 1 and any(x.op == "tyname" and x.a[0] == sizes[cfg][1] for x in walk(ld[0])) and byt in list(walk(ld[0])), "layout", "%s%s" % (f, cfg),
                      "interprets the given bytes as the market type of that size", k)
                if f == "load_with_dispatch_mut":
                    R.req(positive_seq(eng, p), "initialised", "%s%s" % (f, cfg), "only opens markets that have been initialised", k)
        R.count("combinations")
        R.req(len(set(acc.values())) == 1, "agreement", str(cfg), "is accepted by all loaders and the size function, or by none (%s)" % {f: a for f, a in acc.items()}, fns["get_market_size"][0])
        nacc += all(acc.values())
    R.floor("accepted sizes", nacc, 12)
    for n, p in paths(R, ctx, [x for x in ALL_IX if x != "InitializeMarket"]):
        bad = [e for e in p.events() if e.name == "load_with_dispatch_init"]
        R.req(not bad, "initialised", n, "does not open the market with the initialisation loader", p.ix.where, p.trace)


def positive_seq(eng, p):
    for t, v in p.st.facts.items():
        s = str(t.a[0]) if t.op == "call" else ""
        if (s.endswith("get_sequence_number") or "sequence_number" in pp(t)):
            if t.op not in ("Eq", "Lt", "Le", "Ge", "Gt") and (v[0] == "notin" and 0 in v[1] or v[0] == "in" and 0 not in v[1]):
                return True
            if t.op == "Lt" and t.a[0] is I(0) and v == ("in", frozenset([1])):
                return True
    return False
