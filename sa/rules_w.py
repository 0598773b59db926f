"""Rules on the client side of the program: the instructions its builders build."""
from ctx import *
from rulebase import rule
from rules_p import *
from rules_t import *
import rules_x
from terms import T

MARKET, TRADER, BASE, QUOTE, BACC, QACC, PAY, SEATK = "market", "trader", "base", "quote", "base account", "quote account", "payload", "seat"
T6 = (MARKET, TRADER, BASE, QUOTE)
C6 = (MARKET, TRADER, BACC, QACC, BASE, QUOTE)
IXS = "instruction_builders::"
# public builder -> (role of each parameter, [instructions built: (tag or how it depends on the payload, payload)])
BUILDERS = {
    "create_new_order_instruction": (T6 + (PAY,), [("order", PAY)]),
    "create_new_order_instruction_with_custom_token_accounts": (C6 + (PAY,), [("order", PAY)]),
    "create_new_order_with_free_funds_instruction": ((MARKET, TRADER, PAY), [("free order", PAY)]),
    "create_new_multiple_order_instruction": (T6 + (PAY,), [("PlaceMultiplePostOnlyOrders", PAY)]),
    "create_new_multiple_order_instruction_with_custom_token_accounts": (C6 + (PAY,), [("PlaceMultiplePostOnlyOrders", PAY)]),
    "create_new_multiple_order_with_free_funds_instruction": ((MARKET, TRADER, PAY), [("PlaceMultiplePostOnlyOrdersWithFreeFunds", PAY)]),
    "create_cancel_all_order_with_free_funds_instruction": ((MARKET, TRADER), [("CancelAllOrdersWithFreeFunds", None)]),
    "create_cancel_up_to_with_free_funds_instruction": ((MARKET, TRADER, PAY), [("CancelUpToWithFreeFunds", PAY)]),
    "create_cancel_multiple_orders_by_id_with_free_funds_instruction": ((MARKET, TRADER, PAY), [("CancelMultipleOrdersByIdWithFreeFunds", PAY)]),
    "create_reduce_order_with_free_funds_instruction": ((MARKET, TRADER, PAY), [("ReduceOrderWithFreeFunds", PAY)]),
    "create_deposit_funds_instruction": (T6 + (PAY,), [("DepositFunds", PAY)]),
    "create_deposit_funds_instruction_with_custom_token_accounts": ((MARKET, TRADER, SEATK, BACC, QACC, BASE, QUOTE, PAY), [("DepositFunds", PAY)]),
    "reduce_order_instruction": (T6 + (PAY,), [("ReduceOrder", PAY)]),
    "create_reduce_order_instruction_with_custom_token_accounts": (C6 + (PAY,), [("ReduceOrder", PAY)]),
    "create_cancel_all_orders_instruction": (T6, [("CancelAllOrders", None)]),
    "create_cancel_all_orders_instruction_with_custom_token_accounts": (C6, [("CancelAllOrders", None)]),
    "create_cancel_up_to_instruction": (T6 + (PAY,), [("CancelUpTo", PAY)]),
    "create_cancel_up_to_instruction_with_custom_token_accounts": (C6 + (PAY,), [("CancelUpTo", PAY)]),
    "create_cancel_multiple_orders_by_id_instruction": (T6 + (PAY,), [("CancelMultipleOrdersById", PAY)]),
    "create_cancel_multiple_orders_by_id_instruction_with_custom_token_accounts": (C6 + (PAY,), [("CancelMultipleOrdersById", PAY)]),
    "create_withdraw_funds_instruction": (T6, [("WithdrawFunds", {"quote_lots_to_withdraw": None, "base_lots_to_withdraw": None})]),
    "create_withdraw_funds_instruction_with_custom_token_accounts": (C6, [("WithdrawFunds", {"quote_lots_to_withdraw": None, "base_lots_to_withdraw": None})]),
    "create_withdraw_funds_with_custom_amounts_instruction": (T6 + ("base lots", "quote lots"), [("WithdrawFunds", {"quote_lots_to_withdraw": ("some", "quote lots"), "base_lots_to_withdraw": ("some", "base lots")})]),
    "create_withdraw_funds_with_custom_amounts_instruction_with_custom_token_accounts": (C6 + (PAY,), [("WithdrawFunds", PAY)]),
    "create_request_seat_instruction": ((TRADER, MARKET), [("RequestSeat", None)]),
    "create_evict_seat_instruction": (("authority", MARKET, TRADER, BASE, QUOTE), [("EvictSeat", None)]),
    "create_claim_authority_instruction": (("authority", MARKET), [("ClaimAuthority", None)]),
    "create_name_successor_instruction": (("authority", MARKET, PAY), [("NameSuccessor", PAY)]),
    "create_change_market_status_instruction": (("authority", MARKET, PAY), [("ChangeMarketStatus", PAY)]),
    "create_request_seat_authorized_instruction": (("authority", "payer", MARKET, TRADER), [("RequestSeatAuthorized", None)]),
    "create_change_seat_status_instruction": (("authority", MARKET, TRADER, PAY), [("ChangeSeatStatus", PAY)]),
    "create_collect_fees_instruction_default": ((MARKET, "signer", "fee owner", QUOTE), [("CollectFees", None)]),
    "create_collect_fees_instruction": ((MARKET, "signer", QACC, QUOTE), [("CollectFees", None)]),
    "create_change_fee_recipient_instruction": (("authority", MARKET, "new recipient"), [("ChangeFeeRecipient", None)]),
    "create_change_fee_recipient_with_unclaimed_fees_instruction": (("authority", MARKET, "new recipient", "old recipient"), [("ChangeFeeRecipient", None)]),
    "create_force_cancel_orders_instructions": ((MARKET, TRADER, "authority", BASE, QUOTE), [("ForceCancelOrders", "each side")]),
    "create_initialize_market_instruction": ((MARKET, BASE, QUOTE, "signer", "sizes", "qlots", "blots", "tick", "fee", "fee owner", "raw"), [("InitializeMarket", "init")]),
    "create_initialize_market_instructions": ((MARKET, BASE, QUOTE, "signer", "sizes", "qlots", "blots", "tick", "fee", "fee owner", "raw"), [("create", None), ("InitializeMarket", "init")]),
    "create_initialize_market_instructions_default": ((MARKET, BASE, QUOTE, "signer", "sizes", "qlots", "blots", "tick", "fee", "raw"), [("create", None), ("InitializeMarket", "init")]),
}
INIT = {"market_size_params": "sizes", "num_quote_lots_per_quote_unit": "qlots", "tick_size_in_quote_lots_per_base_unit": "tick", "num_base_lots_per_base_unit": "blots",
        "taker_fee_bps": "fee", "fee_collector": "fee owner", "raw_base_units_per_base_unit": "raw"}
# accounts that the instruction writes, pays from or moves tokens of, beyond the market account
WRITES = {"base", "quote", "basev", "quotev", "payer"}
SEAT_WRITERS = ("RequestSeat", "RequestSeatAuthorized", "ChangeSeatStatus")
PAYERS = ("RequestSeat", "InitializeMarket", "ChangeMarketStatus")      # the signer pays, or receives the lamports of a removed market


class Built:
    """an Instruction value"""

    def __init__(self, t):
        self.t = t
        self.program = project(t, "program_id")
        a = project(t, "accounts")
        a = elements(a)
        self.metas = a and [meta(x) for x in a]
        self.data = pieces(project(t, "data"))


def elements(t):
    """the elements of a vector, or None"""
    if t.op == "concat":
        r = [elements(x) for x in t.a]
        return None if None in r else sum(r, [])
    return list(t.a[1]) if t.op == "vecof" else list(t.a) if t.op == "array" else None


def meta(t):
    """(key, is_signer, is_writable) terms of an AccountMeta"""
    c = call_of(t, "AccountMeta::new", "AccountMeta::new_readonly")
    if c:
        return c[1][0], c[1][1], I(0 if c[0].endswith("readonly") else 1)
    return project(t, "pubkey"), project(t, "is_signer"), project(t, "is_writable")


def pieces(t):
    """the bytes of a vector as a list of parts"""
    if t.op == "array":
        return list(t.a)
    if t.op == "bytes":
        return [I(x) for x in t.a[0]]
    if t.op == "call" and str(t.a[0]).endswith("::concat") and t.a[-1].op == "array":
        return sum((pieces(x) for x in t.a[-1].a), [])
    if t.op == "concat":
        return sum((pieces(x) if x.op in ("array", "concat", "bytes") else [x] for x in t.a), [])
    return [t]


def cases_of(eng, st, t, left=40):
    """[(state, value)]: every choice inside t decided"""
    t = dsimp(eng, st, t)
    c = next((x.a[0] for x in walk(t) if x.op == "ite"), None)
    if c is None or left <= 0:
        return [(st, t)]
    r = []
    for v in (1, 0):
        for st2 in eng.assume(st.copy(), c, v):
            r += cases_of(eng, st2, t, left - 1)
    return r


class B:
    """one builder: its parameters by role"""

    def __init__(self, ctx, key, roles):
        self.key = key
        self.ctx = ctx
        self.body = ctx.p.body(key)
        self.args = {}
        for i, r in enumerate(roles):
            self.args[r] = mk("arg", self.body.names.get(i + 1, "arg%d" % i))
        self.roles = roles
        self.packet = ctx.adt("order_packet::OrderPacket")

    def by_ref(self, role):
        t = self.ctx.p.ty(self.ctx.p.raw[self.key]["body"]["locals"][self.roles.index(role) + 1])
        return t["k"] == "ref"

    def val(self, role):
        """the value of a parameter, whether passed by reference or not"""
        a = self.args[role]
        return (a, mk("load", a))

    def ptr(self, t, role):
        return role in self.args and norm(t) in self.val(role)

    def pda(self, t, *seeds):
        """t is the program's derived address for the seeds (roles or byte strings)"""
        t = norm(t)
        if not (t.op == "field" and t.a[1] == "0"):
            return False
        c = call_of(t.a[0], "find_program_address")
        if not c or c[1][0].op != "array" or not is_pubkey(c[1][1], PROGRAM_BYTES):
            return False
        got = [norm(s) for s in c[1][0].a]
        return len(got) == len(seeds) and all((g is norm(STR(s))) if isinstance(s, bytes) else self.ptr(g, s) for g, s in zip(got, seeds))

    def ata(self, t, owner, mint):
        c = call_of(t, "get_associated_token_address")
        return bool(c) and len(c[1]) == 2 and self.ptr(c[1][0], owner) and self.ptr(c[1][1], mint)

    def is_role(self, t, tag, role):
        """t is the key of the account the instruction takes in this role"""
        signer = next((r for r in ("authority", "signer", TRADER) if r in self.args), None)
        if role == "trader":
            return self.ptr(t, TRADER)
        if role == "signer":
            return self.ptr(t, signer)
        if role == "seat":
            return self.ptr(t, SEATK) if SEATK in self.args else self.pda(t, b"seat", MARKET, TRADER)
        if role in ("basev", "quotev"):
            return self.pda(t, b"vault", MARKET, BASE if role == "basev" else QUOTE)
        if role in ("base", "quote"):
            acc = BACC if role == "base" else QACC
            if acc in self.args:
                return self.ptr(t, acc)
            return self.ata(t, "fee owner" if tag == "CollectFees" else TRADER, BASE if role == "base" else QUOTE)
        if role in ("basemint", "quotemint"):
            return self.ptr(t, BASE if role == "basemint" else QUOTE)
        if role == "tok":
            return is_ext(t, TOK)
        if role == "sys":
            return is_ext(t, SYS)
        return self.ptr(t, {"payer": "payer", "newrec": "new recipient", "prevrec": "old recipient"}[role])


def decodes(ctx, tag):
    """names of the types the program decodes from the payload of this instruction"""
    r = set()
    for p in ctx.ix(tag).oks:
        for k in p.st.facts:
            for x in walk(k):
                if x.op == "call" and str(x.a[0]).endswith("try_from_slice") and len(x.a) > 2 and x.a[2] is rules_x.PAYLOAD():
                    r |= {y.a[0] for y in x.a if y.__class__ is T and y.op == "tyname"}
    return r


def tagname(b, eng, st, how):
    """the instruction that a builder choosing by the kind of order must build, or None if the case does not settle the kind"""
    if how not in ("order", "free order"):
        return how
    ks = [mk("load", b.args[PAY]), b.args[PAY]]
    var = {n: v for n, v in b.variants.items()}
    for k in ks:
        d = eng.discr(k, b.packet)
        if eng.inset(st, d, frozenset([var["ImmediateOrCancel"]])) == 1:
            return "Swap" if how == "order" else "SwapWithFreeFunds"
        if eng.inset(st, d, frozenset(v for n, v in var.items() if n != "ImmediateOrCancel")) == 1:
            return "PlaceLimitOrder" if how == "order" else "PlaceLimitOrderWithFreeFunds"
    return None


def payload_ok(R, b, what, data, sides):
    """the bytes after the tag are the serialised payload"""
    if what is None:
        return not data
    if len(data) != 1 or data[0].op != "ser":
        return False
    v = data[0].a[0]
    if what == PAY:
        return b.ptr(v, PAY)
    if what == "init":
        want = dict(INIT)
        if "fee owner" not in b.args:
            want["fee_collector"] = "signer"
        return all(b.ptr(project(v, f), r) for f, r in want.items())
    if what == "each side":
        s = project(v, "side")
        sides.append(s.a[1] if s.op == "agg" else None)
        return all(none(project(v, f)) for f in ("tick_limit", "num_orders_to_search", "num_orders_to_cancel"))
    for f, w in what.items():
        x = project(v, f)
        if w is None and not none(x) or w is not None and not (x.op == "agg" and x.a[1] == "Some" and b.ptr(project(x, "Some.0"), w[1])):
            return False
    return True


def none(t):
    return t.op == "agg" and t.a[1] == "None"


@rule("W01", how="Each public instruction builder is followed symbolically with its parameters as symbols, per case of the order kind. The instruction value it "
      "returns is compared with the interface the program enforces (the account positions that A01-A08 and S05-S06 show the program to check): the "
      "program's id, the tag of the operation named by the builder, the payload serialised from exactly the parameters given and of the type the program "
      "decodes for that tag, and at each position the account of that role, derived from the market, trader and mints given, signing exactly where the "
      "program demands a signature and writable wherever the instruction writes, pays from or moves tokens.")
def w01(R, ctx):
    found = {}
    for k, raw in ctx.p.raw.items():
        if raw["kind"] == "Fn" and IXS in raw["path"] and raw.get("vis") == "Public":
            found[raw["name"]] = k
    for n in sorted(set(found) - set(BUILDERS)):
        R.count("public builders without a published contract")
    sizes = {tuple(int(x) for x in t["cargs"]): t["size"] for t in ctx.p.types if t.get("def", "").endswith("::FIFOMarket") and "size" in t}
    for n, (roles, insts) in BUILDERS.items():
        if n not in found:
            R.req(False, "anchor", n, "the public builder exists")
            continue
        b = B(ctx, found[n], roles)
        b.variants = dict(ctx.p.variants(b.packet))
        R.req(b.body.argc == len(roles), "interface", n, "takes %d parameters" % len(roles))
        if b.body.argc != len(roles):
            continue
        facts = [{}]
        if "sizes" in roles:
            base = mk("load", b.args["sizes"]) if b.by_ref("sizes") else b.args["sizes"]
            fld = [project(base, x) for x in ("bids_size", "asks_size", "num_seats")]
            facts = [{f: ("in", frozenset([v])) for f, v in zip(fld, cfg)} for cfg in sorted(sizes)]
        nok = 0
        for i, fc in enumerate(facts):
            eng, ends = explore(ctx.p, found[n], opaque=p_opaque, facts=fc)
            R.fns |= eng.inlined
            size = sizes[sorted(sizes)[i]] if "sizes" in roles else None
            for e in ends:
                R.req(e.kind == "ret", "returns", n, "always returns (%s)" % e.kind, e.span)
                if e.kind == "ret":
                    for st, t in cases_of(eng, e.st, e.ret):
                        nok += one_case(R, ctx, b, n, eng, st, t, insts, size, e.span)
        R.req(nok > 0, "returns", n, "has a case that builds its instructions")
        R.count("builder cases", nok)
    R.floor("builder cases", R.cov.get("builder cases", 0), 38)


def one_case(R, ctx, b, n, eng, st, t, insts, size, where):
    if t.op == "agg" and t.a[0].endswith("Result"):
        R.req(t.a[1] == "Ok", "returns", n, "builds its instructions (%s)" % short(pp(t))[:100], where)
        if t.a[1] != "Ok":
            return 0
        t = project(t, "Ok.0")
    lst = elements(t) or [t]
    sides = []
    want = list(insts)
    if insts[0][1] == "each side":
        want = insts * 2
    R.req(len(lst) == len(want), "instructions", n, "builds %d instructions (%d)" % (len(want), len(lst)), where)
    for x, (how, what) in zip(lst, want):
        if how == "create":
            creates_market(R, b, n, x, size, where)
        else:
            check_built(R, ctx, b, n, eng, st, x, how, what, sides, where)
    if insts[0][1] == "each side":
        R.req(sorted(map(str, sides)) == ["Ask", "Bid"], "payload", n, "one instruction cancels the bids and one the asks", where)
    return 1


def creates_market(R, b, n, t, size, where):
    c = call_of(t, "system_instruction::create_account")
    R.req(bool(c), "market account", n, "first creates the market account through the system program", where)
    if not c:
        return
    frm, to, lam, space, owner = c[1][:5]
    R.req(b.ptr(frm, "signer") and b.ptr(to, MARKET), "market account", n, "the creator pays for the account of the market named", where)
    R.req(is_pubkey(owner, PROGRAM_BYTES), "market account", n, "the account is owned by the program", where)
    R.req(is_int(space) and space.a[0] == size + 576, "market account", n, "the account holds exactly the header and the market of the size asked for (%s)" % short(pp(space))[:100], where)
    m = call_of(lam, "minimum_balance")
    R.req(bool(m) and m[1][-1] is space, "market account", n, "it is rent exempt at that size", where)


def check_built(R, ctx, b, n, eng, st, t, how, what, sides, where):
    tr = lambda: ["%s, for %s:" % (n, how), short(pp(t))[:3000]]
    if not (t.op == "agg" and str(t.a[0]).endswith("Instruction")):
        R.req(False, "instruction", n, "the value built is an instruction (%s)" % short(pp(t))[:100], where, tr)
        return
    x = Built(t)
    tag = tagname(b, eng, st, how)
    R.req(tag is not None, "tag", n, "the kind of the order decides the instruction", where, tr)
    if tag is None:
        return
    R.req(is_pubkey(x.program, PROGRAM_BYTES), "program", n, "the instruction is addressed to this program", where, tr)
    d = x.data
    R.req(bool(d) and is_int(d[0]) and d[0].a[0] == ctx.tags[tag], "tag", n, "carries the tag of %s" % tag, where, tr)
    R.req(payload_ok(R, b, what, d[1:], sides), "payload", n, "carries exactly the parameters of %s it was given" % tag, where, tr)
    dec = decodes(ctx, tag)
    if what is None:
        R.req(not dec, "payload", n, "%s takes no payload (%s)" % (tag, sorted(dec)), where, tr)
    else:
        ty = None
        if what == PAY:
            i = b.roles.index(PAY)
            ti = ctx.p.ty(ctx.p.deref_ty(ctx.p.raw[b.key]["body"]["locals"][i + 1]))
            ty = ti.get("def") or ti.get("k")
        elif d[1:] and d[1].op == "ser" and d[1].a[0].op == "agg":
            ty = d[1].a[0].a[0]
        R.req(ty is not None and any(same_ty(ty, y) for y in dec), "payload", n, "of the type %s decodes (%s, %s)" % (tag, ty, sorted(dec)), where, tr)
    # accounts
    slots = {0: "program", 1: "log", 2: MARKET, 3: "signer"}
    for r, i in SLOTS.get(tag, {}).items():
        slots[i] = r
    if tag == "ChangeFeeRecipient" and "old recipient" not in b.args:
        slots = {i: r for i, r in slots.items() if r != "prevrec"}
    R.req(x.metas is not None and len(x.metas) == len(slots), "accounts", n, "passes the %d accounts of %s" % (len(slots), tag), where, tr)
    if x.metas is None or len(x.metas) != len(slots):
        return
    for i, r in sorted(slots.items()):
        key, sg, wr = x.metas[i]
        if r == "program":
            good = is_pubkey(key, PROGRAM_BYTES)
        elif r == "log":
            good = is_pubkey(key, LOG_BYTES)
        elif r == MARKET:
            good = b.ptr(key, MARKET)
        else:
            good = b.is_role(key, tag, r)
        R.req(good, "account", "%s account %d" % (n, i), "is the %s account of %s" % (r, tag), where, tr)
        signs = r in ("signer", "payer", "prevrec")
        R.req(is_int(sg) and bool(sg.a[0]) == signs, "signature", "%s account %d" % (n, i), "the %s account %s" % (r, "signs" if signs else "need not sign"), where, tr)
        writes = r == MARKET or r in WRITES or r == "seat" and tag in SEAT_WRITERS or r == "signer" and tag in PAYERS
        if writes:
            R.req(is_int(wr) and wr.a[0] == 1, "writable", "%s account %d" % (n, i), "the %s account is writable" % r, where, tr)


def same_ty(a, b):
    a, b = str(a), str(b)
    strip = lambda s: s.split("::")[-1]
    return strip(a) == strip(b)
