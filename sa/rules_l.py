"""Rules on what is stored and sent: wire formats, stored layouts, and the packet constructors clients use."""
from ctx import *
from rulebase import rule
from rules_p import *
from rules_t import *
from rules_e import Fx, EVENTS, HEADER_ORDER
from terms import T, walk

LEAF = {"u8", "u16", "u32", "u64", "u128", "i64", "bool"}


# published wire formats: a list of variants for an enum, a list of fields for a struct
WIRE = {
    "enums::Side": ["Bid", "Ask"],
    "enums::SelfTradeBehavior": ["Abort", "CancelProvide", "DecrementTake"],
    "status::MarketStatus": ["Uninitialized", "Active", "PostOnly", "Paused", "Closed", "Tombstoned"],
    "status::SeatApprovalStatus": ["NotApproved", "Approved", "Retired"],
    "new_order::FailedMultipleLimitOrderBehavior": ["FailOnInsufficientFundsAndAmendOnCross", "FailOnInsufficientFundsAndFailOnCross",
                                                    "SkipOnInsufficientFundsAndAmendOnCross", "SkipOnInsufficientFundsAndFailOnCross"],
    "order_packet::OrderPacket": [
        ("PostOnly", ["side:Side", "price_in_ticks:u64", "num_base_lots:u64", "client_order_id:u128", "reject_post_only:bool", "use_only_deposited_funds:bool",
                      "last_valid_slot:Option<u64>", "last_valid_unix_timestamp_in_seconds:Option<u64>", "fail_silently_on_insufficient_funds:bool"]),
        ("Limit", ["side:Side", "price_in_ticks:u64", "num_base_lots:u64", "self_trade_behavior:SelfTradeBehavior", "match_limit:Option<u64>", "client_order_id:u128",
                   "use_only_deposited_funds:bool", "last_valid_slot:Option<u64>", "last_valid_unix_timestamp_in_seconds:Option<u64>",
                   "fail_silently_on_insufficient_funds:bool"]),
        ("ImmediateOrCancel", ["side:Side", "price_in_ticks:Option<u64>", "num_base_lots:u64", "num_quote_lots:u64", "min_base_lots_to_fill:u64",
                               "min_quote_lots_to_fill:u64", "self_trade_behavior:SelfTradeBehavior", "match_limit:Option<u64>", "client_order_id:u128",
                               "use_only_deposited_funds:bool", "last_valid_slot:Option<u64>", "last_valid_unix_timestamp_in_seconds:Option<u64>"]),
    ],
    "new_order::CondensedOrder": ["price_in_ticks:u64", "size_in_base_lots:u64", "last_valid_slot:Option<u64>", "last_valid_unix_timestamp_in_seconds:Option<u64>"],
    "new_order::MultipleOrderPacket": ["bids:Vec<CondensedOrder>", "asks:Vec<CondensedOrder>", "client_order_id:Option<u128>",
                                       "failed_multiple_limit_order_behavior:FailedMultipleLimitOrderBehavior"],
    "reduce_order::CancelOrderParams": ["side:Side", "price_in_ticks:u64", "order_sequence_number:u64"],
    "reduce_order::ReduceOrderParams": ["base_params.side:Side", "base_params.price_in_ticks:u64", "base_params.order_sequence_number:u64", "size:u64"],
    "cancel_multiple_orders::CancelUpToParams": ["side:Side", "tick_limit:Option<u64>", "num_orders_to_search:Option<u32>", "num_orders_to_cancel:Option<u32>"],
    "cancel_multiple_orders::CancelMultipleOrdersByIdParams": ["orders:Vec<CancelOrderParams>"],
    "withdraw::WithdrawParams": ["quote_lots_to_withdraw:Option<u64>", "base_lots_to_withdraw:Option<u64>"],
    "deposit::DepositParams": ["quote_lots_to_deposit:u64", "base_lots_to_deposit:u64"],
    "accounts::MarketSizeParams": ["bids_size:u64", "asks_size:u64", "num_seats:u64"],
    "initialize::InitializeParams": ["market_size_params.bids_size:u64", "market_size_params.asks_size:u64", "market_size_params.num_seats:u64",
                                     "num_quote_lots_per_quote_unit:u64", "tick_size_in_quote_lots_per_base_unit:u64", "num_base_lots_per_base_unit:u64",
                                     "taker_fee_bps:u16", "fee_collector:Pubkey", "raw_base_units_per_base_unit:Option<u32>"],
    "fifo::FIFOOrderId": ["price_in_ticks:u64", "order_sequence_number:u64"],
}
RECORDS = {"events::" + st: f for _, st, f in EVENTS if st}

TAGS = {"Swap": 0, "SwapWithFreeFunds": 1, "PlaceLimitOrder": 2, "PlaceLimitOrderWithFreeFunds": 3, "ReduceOrder": 4, "ReduceOrderWithFreeFunds": 5,
        "CancelAllOrders": 6, "CancelAllOrdersWithFreeFunds": 7, "CancelUpTo": 8, "CancelUpToWithFreeFunds": 9, "CancelMultipleOrdersById": 10,
        "CancelMultipleOrdersByIdWithFreeFunds": 11, "WithdrawFunds": 12, "DepositFunds": 13, "RequestSeat": 14, "Log": 15,
        "PlaceMultiplePostOnlyOrders": 16, "PlaceMultiplePostOnlyOrdersWithFreeFunds": 17, "InitializeMarket": 100, "ClaimAuthority": 101,
        "NameSuccessor": 102, "ChangeMarketStatus": 103, "ChangeSeatStatus": 104, "RequestSeatAuthorized": 105, "EvictSeat": 106, "ForceCancelOrders": 107,
        "CollectFees": 108, "ChangeFeeRecipient": 109}


def is_codec(e, fn, k):
    p = str(fn.get("path", ""))
    return "BorshDeserialize" in p or "BorshSerialize" in p


class Codec:
    """the order in which a type's borsh code reads and writes its parts, taken from that code"""

    def __init__(self, R, ctx):
        self.R, self.ctx = R, ctx
        self.impl = {}
        for im in ctx.p.impls:
            for tr in ("BorshDeserialize", "BorshSerialize"):
                if im["trait"].endswith("::" + tr) and im["args"]:
                    self.impl[tr, self.name(im["args"][0])] = dict(im["items"]).get(tr[5:].lower())
        self.memo = {}

    def name(self, ti):
        t = self.ctx.p.types[ti]
        return t.get("def") or t["s"]

    def adt(self, ti):
        t = self.ctx.p.types[ti]
        return self.ctx.p.adts.get(t.get("def")) if t["k"] == "adt" else None

    def is_local_struct(self, ti):
        a = self.adt(ti)
        return a is not None and a["local"] and a["kind"] == "struct"

    def token(self, ti):
        """how a value of this type is named in a published format"""
        t = self.ctx.p.types[ti]
        if t["k"] == "adt":
            a = self.ctx.p.adts[t["def"]]
            if a["local"] and a["kind"] == "struct" and len(a["variants"][0]["fields"]) == 1:
                return self.token(a["variants"][0]["fields"][0][1])
            n = t["def"].split("::")[-1]
            if n in ("Option", "Vec"):
                return "%s<%s>" % (n, self.token(t["args"][0]))
            return n
        return t["s"]

    def leaves(self, path, ti):
        """the parts a value read as a whole is made of"""
        if self.is_local_struct(ti):
            fs = self.ctx.p.adts[self.ctx.p.types[ti]["def"]]["variants"][0]["fields"]
            if len(fs) == 1 and self.token(ti) in LEAF:
                return [(path, self.token(ti))]
            sub = self.reads(self.name(ti))
            if sub is not None and len(sub) == 1:
                return [("%s.%s" % (path, f) if path else f, t) for f, t in sub[0][1]]
        return [(path, self.token(ti))]

    def place(self, v, path, ti, vals):
        """which of the given values make up v: [(index, path, type)] or None"""
        for i, x in enumerate(vals):
            if v is x:
                return [(i, path)]
        if self.is_local_struct(ti):
            r = []
            for f, ft, _ in self.ctx.p.adts[self.ctx.p.types[ti]["def"]]["variants"][0]["fields"]:
                s = self.place(project(v, f), path + "." + f if path else f, ft, vals)
                if s is None:
                    return None
                r += s
            return r
        return None

    def reads(self, name):
        """[(variant, [(path, token)])] in order of the tag, as the decoder reads them"""
        if name in self.memo:
            return self.memo[name]
        self.memo[name] = None
        key = self.impl.get(("BorshDeserialize", name))
        if key is None:
            return None
        adt = self.ctx.p.adts[name]
        fx = Fx(self.ctx, key, opaque=is_codec)
        self.R.fns |= fx.eng.inlined
        out = []
        for vi, v in enumerate(adt["variants"]):
            got = None
            n = 0
            for p in fx.rets:
                evs = p.events()
                if any(e.name == "loop" for e in evs) or not p.is_ok(p.p.ret):
                    continue
                tag = []
                if adt["kind"] == "enum":
                    if not evs:
                        return None
                    tagv = project(evs[0].res, "Ok.0")
                    q = with_facts(p, {tagv: [vi]})
                    if q is None or self.ctx.p.types[evs[0].fn["targs"][0]]["s"] != "u8":
                        continue
                    evs = evs[1:]
                else:
                    q = p
                n += 1
                if any(e.name != "deserialize" for e in evs):
                    return None
                x = project(q.simp(q.p.ret), "Ok.0")
                x = q.simp(x)
                if adt["kind"] == "enum" and (x.op != "agg" or x.a[1] != v["name"]):
                    return None
                vals = [project(e.res, "Ok.0") for e in evs]
                where = []
                for f, ft, _ in v["fields"]:
                    s = self.place(q.simp(project(x, v["name"] + "." + f if adt["kind"] == "enum" else f)), f, ft, vals)
                    if s is None:
                        return None
                    where += s
                if sorted(i for i, _ in where) != list(range(len(evs))):
                    return None
                seq = []
                for i, path in sorted(where):
                    seq += self.leaves(path, evs[i].fn["targs"][0])
                got = (v["name"], seq)
            if n != 1:
                return None
            out.append(got)
        self.memo[name] = out
        return out

    def writes(self, name):
        """the same, as the encoder writes them; None where it cannot be told"""
        key = self.impl.get(("BorshSerialize", name))
        if key is None:
            return None
        adt = self.ctx.p.adts[name]
        fx = Fx(self.ctx, key, opaque=is_codec)
        self.R.fns |= fx.eng.inlined
        b = self.ctx.p.body(key)
        me = mk("load", mk("arg", b.names.get(1, "arg0")))
        out = []
        for vi, v in enumerate(adt["variants"]):
            got, n = None, 0
            for p in fx.rets:
                q = p
                if adt["kind"] == "enum":
                    q = with_facts(p, {fx.eng.discr(me, name): [int(v["discr"])]})
                    if q is None:
                        continue
                if not q.is_ok(q.simp(q.p.ret)):
                    continue
                n += 1
                evs = q.events()
                if adt["kind"] == "enum":
                    if not evs or not self.tag_written(q, evs[0], vi):
                        return None
                    evs = evs[1:]
                seq = []
                for e in evs:
                    if e.name != "serialize":
                        return None
                    x = q.simp(e.vals[0])
                    path = self.path_in(x, me, v["name"] if adt["kind"] == "enum" else None, v["fields"])
                    if path is None:
                        return None
                    seq += self.leaves(path, e.fn["targs"][0])
                got = (v["name"], seq)
            if n != 1:
                return None
            out.append(got)
        return out

    def tag_written(self, q, e, vi):
        if e.name == "serialize":
            return self.ctx.p.types[e.fn["targs"][0]]["s"] == "u8" and q.ix.eng.cval(q.st, q.simp(e.vals[0])) == vi
        if e.name != "write_all":
            return False
        x = q.simp(e.vals[-1])
        if x.op == "call" and str(x.a[0]).endswith("u8>::to_le_bytes"):
            return q.ix.eng.cval(q.st, x.a[-1]) == vi
        if x.op == "bytes":
            return bytes(x.a[0]) == bytes([vi])
        return x.op == "array" and len(x.a) == 1 and q.ix.eng.cval(q.st, x.a[0]) == vi

    def path_in(self, x, me, variant, fields, depth=0):
        for f, ft, _ in fields:
            y = project(me, variant + "." + f if variant else f)
            if x is y:
                return f
            if depth < 3 and self.is_local_struct(ft):
                fs = self.ctx.p.adts[self.ctx.p.types[ft]["def"]]["variants"][0]["fields"]
                s = self.path_in(x, y, None, fs, depth + 1)
                if s is not None:
                    return f + "." + s
        return None

    def compare(self, suffix, spec):
        """both directions of one type against its published format"""
        R, ctx = self.R, self.ctx
        name = ctx.adt(suffix)
        short = suffix.split("::")[-1]
        enum = ctx.p.adts[name]["kind"] == "enum"
        if enum:
            want = [(v, []) if isinstance(v, str) else v for v in spec]
        else:
            want = [(short, spec)]
        want = [(v, [tuple(x.split(":")) for x in fs]) for v, fs in want]
        k = 0
        for what, got in (("decoded", self.reads(name)), ("encoded", self.writes(name))):
            tr = "BorshDeserialize" if what == "decoded" else "BorshSerialize"
            where = self.impl.get((tr, name))
            if got is None:
                R.req(False, "codec", "%s %s" % (short, what), "the order in which its parts are %s can be read from its %s code" % (what, tr), where)
                continue
            R.req([v for v, _ in got] == [v for v, _ in want], "variants", "%s %s" % (short, what), "the kinds are numbered as published (%s)" % [v for v, _ in got][:8], where)
            for (v, fs), (v2, ws) in zip(got, want):
                k += len(ws)
                fs = [(self.tidy(name, v, p), t) for p, t in fs]
                R.req(fs == ws, "fields", "%s %s%s" % (short, what, " " + v if enum else ""), "the parts are those published, in that order (found %s)" % ", ".join("%s:%s" % x for x in fs)[:300], where)
        return k

    def tidy(self, name, v, p):
        return p[:-6] if p.endswith(".inner") else p


@rule("W02", how="The borsh code of every type that crosses the wire (instruction payloads, order packets, returned order ids, log records) is followed symbolically, "
      "kind by kind; the order, type and destination of every part it reads, and of every part it writes, is taken from that code and compared with the published "
      "format, as are the numbers of the instructions.")
def w02(R, ctx):
    c = Codec(R, ctx)
    n = 0
    for s, spec in WIRE.items():
        n += c.compare(s, spec)
    for s, spec in RECORDS.items():
        n += c.compare(s, spec)
    R.floor("parts compared", n, 200)
    have = {k: int(v) for k, v in ctx.tags.items()}
    for k, v in TAGS.items():
        R.req(have.get(k) == v, "tag", k, "is instruction number %d" % v)
    used = set()
    for name in TAGS:
        for p in ctx.ix(name).oks:
            for f in p.st.facts:
                for x in walk(f):
                    if x.op == "call" and str(x.a[0]).endswith("try_from_slice"):
                        for y in x.a:
                            if y.__class__ is T and y.op == "tyname":
                                used.add(str(y.a[0]))
    for u in sorted(used):
        R.req(u.endswith("::Pubkey") or any(u.endswith(s) for s in WIRE), "covered", u, "every type decoded from a payload has a published format here")
    R.floor("payload types decoded by the program", len(used), 10)


# ------------------------------------------------------------------ W03
STORED = {
    "program::accounts::MarketHeader": (576, "discriminant 0 8, status 8 8, market_size_params 16 24, base_params 40 72, base_lot_size 112 8, quote_params 120 72, quote_lot_size 192 8, "
                               "tick_size_in_quote_atoms_per_base_unit 200 8, authority 208 32, fee_recipient 240 32, market_sequence_number 272 8, successor 280 32, "
                               "raw_base_units_per_base_unit 312 4"),
    "program::accounts::MarketSizeParams": (24, "bids_size 0 8, asks_size 8 8, num_seats 16 8"),
    "program::accounts::TokenParams": (72, "decimals 0 4, vault_bump 4 4, mint_key 8 32, vault_key 40 32"),
    "program::accounts::Seat": (128, "discriminant 0 8, market 8 32, trader 40 32, approval_status 72 8"),
    "trader_state::TraderState": (96, "quote_lots_locked 0 8, quote_lots_free 8 8, base_lots_locked 16 8, base_lots_free 24 8"),
    "fifo::FIFOOrderId": (16, "price_in_ticks 0 8, order_sequence_number 8 8"),
    "fifo::FIFORestingOrder": (32, "trader_index 0 8, num_base_lots 8 8, last_valid_slot 16 8, last_valid_unix_timestamp_in_seconds 24 8"),
    "fifo::FIFOMarket": (None, "base_lots_per_base_unit 256 8, tick_size_in_quote_lots_per_base_unit 264 8, order_sequence_number 272 8, taker_fee_bps 280 8, "
                         "collected_quote_lot_fees 288 8, unclaimed_quote_lot_fees 296 8, bids 304 B, asks A A, traders T T"),
    "shank_structs::MarketHeader": (576, "discriminant 0 8, status 8 8, market_size_params 16 24, base_params 40 72, base_lot_size 112 8, quote_params 120 72, quote_lot_size 192 8, "
                                    "tick_size_in_quote_atoms_per_base_unit 200 8, authority 208 32, fee_recipient 240 32, market_sequence_number 272 8, successor 280 32, "
                                    "raw_base_units_per_base_unit 312 4"),
}
SIZES12 = [(512, 512, 128), (512, 512, 1025), (512, 512, 1153), (1024, 1024, 128), (1024, 1024, 2049), (1024, 1024, 2177),
           (2048, 2048, 128), (2048, 2048, 4097), (2048, 2048, 4225), (4096, 4096, 128), (4096, 4096, 8193), (4096, 4096, 8321)]
NUMBERED = {"status::MarketStatus": WIRE["status::MarketStatus"], "status::SeatApprovalStatus": WIRE["status::SeatApprovalStatus"]}
NODE, ROOT = 16, 32   # a tree of n entries: its own fields, then n times four registers and the entry


@rule("W03", how="The layout the compiler gives every stored type (size, offset of each field, stability of the representation) is compared with the layout of the "
      "accounts that exist: market header, seat, trader balances, order ids, resting orders and the whole market at every published size; and the stored "
      "numbers of the market and seat statuses are evaluated in both directions.")
def w03(R, ctx):
    P = ctx.p
    n = 0
    for suffix, (total, spec) in STORED.items():
        name = ctx.adt(suffix)
        a = P.adts[name]
        fields = [f[0] for f in a["variants"][0]["fields"]]
        want = {}
        for x in spec.split(", "):
            f, o, z = x.split()
            want[f] = (o, z)
        R.req("IS_C" in a["repr"], "representation", suffix, "the representation is the declared one (repr(C))")
        found = [t for t in P.types if t.get("def") == name and "offs" in t]
        if total is not None:
            R.req(len(found) >= 1, "layout", suffix, "the compiler's layout of the type is known")
        for t in found:
            size, label, dims = total, suffix, {}
            if t.get("cargs"):
                b, s, m = (int(x) for x in t["cargs"])
                label = "%s<%d,%d,%d>" % (suffix, b, s, m)
                bz, az, tz = tree(b, 16 + 32), tree(s, 16 + 32), tree(m, 32 + 96)
                dims = {"B": 304, "A": 304 + bz, "T": 304 + bz + az}
                size = 304 + bz + az + tz
            R.req(t["size"] == size, "size", label, "occupies %d bytes (found %d)" % (size, t["size"]))
            offs = dict(zip(fields, t["offs"]))
            order = sorted(fields, key=lambda f: offs[f])
            for f, (o, z) in want.items():
                o = dims[o] if o in dims else int(o)
                n += 1
                if f not in offs:   # renamed: whatever stands in its place must be a new name there
                    same = [g for g in fields if offs[g] == o and g not in want]
                    R.req(bool(same), "field", "%s.%s" % (label, f), "stands at offset %d" % o)
                    continue
                end = [offs[g] for g in order if offs[g] > offs[f]]
                width = (end[0] if end else t["size"]) - offs[f]
                R.req(offs[f] == o and (not z.isdigit() or width == int(z)), "field", "%s.%s" % (label, f), "is %s bytes at offset %d (found %d at %d)" % (z, o, width, offs[f]))
    mk12 = {tuple(int(x) for x in t["cargs"]) for t in P.types if t.get("def", "").endswith("fifo::FIFOMarket") and "size" in t}
    for s in SIZES12:
        R.req(s in mk12, "sizes", "%d/%d/%d" % s, "markets of this published size can still be loaded")
    for suffix, names in NUMBERED.items():
        name = ctx.adt(suffix)
        R.req([(v["name"], int(v["discr"])) for v in P.adts[name]["variants"]] == list(zip(names, range(len(names)))), "numbers", suffix, "are numbered as stored")
        convs = [(im, dict(im["items"]).get("from")) for im in P.impls if im["trait"] == "std::convert::From" and len(im["args"]) == 2 and P.types[im["args"][0]].get("def") == name
                 and P.types[im["args"][1]]["s"] == "u64"]
        R.req(len(convs) == 1, "numbers", suffix, "one conversion from the stored number")
        for im, key in convs:
            fx = Fx(ctx, key)
            R.fns |= fx.eng.inlined
            b = P.body(key)
            arg = mk("arg", b.names.get(1, "arg0"))
            for k, v in enumerate(names):
                seen = 0
                for p in fx.rets:
                    q = with_facts(p, {arg: [k]})
                    if q is None:
                        continue
                    seen += 1
                    x = q.simp(q.p.ret)
                    R.req(x.op == "agg" and x.a[1] == v, "numbers", "%s from %d" % (suffix, k), "reads as " + v, key, q.trace)
                R.req(seen >= 1, "numbers", "%s from %d" % (suffix, k), "can be read", key)
    R.floor("field positions compared", n, 100)


def tree(n, entry):
    """bytes of an ordered map of n entries"""
    return ROOT + n * (NODE + entry)


# ------------------------------------------------------------------ W04
NONE, TRUE, FALSE, ZERO = ("none",), ("true",), ("false",), ("zero",)
PO = dict(side="side", price_in_ticks="price_in_ticks", num_base_lots="num_base_lots", client_order_id=ZERO, reject_post_only=TRUE, use_only_deposited_funds=FALSE,
          last_valid_slot=NONE, last_valid_unix_timestamp_in_seconds=NONE, fail_silently_on_insufficient_funds=FALSE)
LI = dict(side="side", price_in_ticks="price_in_ticks", num_base_lots="num_base_lots", self_trade_behavior=("kind", "CancelProvide"), match_limit=NONE, client_order_id=ZERO,
          use_only_deposited_funds=FALSE, last_valid_slot=NONE, last_valid_unix_timestamp_in_seconds=NONE, fail_silently_on_insufficient_funds=FALSE)
IOC = dict(side="side", price_in_ticks=NONE, num_base_lots=ZERO, num_quote_lots=ZERO, min_base_lots_to_fill=ZERO, min_quote_lots_to_fill=ZERO,
           self_trade_behavior=("kind", "CancelProvide"), match_limit=NONE, client_order_id=ZERO, use_only_deposited_funds=FALSE, last_valid_slot=NONE,
           last_valid_unix_timestamp_in_seconds=NONE)
SP3, CID = ["side", "price_in_ticks", "num_base_lots"], "client_order_id"
TERMS = ["self_trade_behavior", "match_limit", CID, "use_only_deposited_funds"]
BID, ASK = ("kind", "Bid"), ("kind", "Ask")


def same(*names):
    return {n: n for n in names}


# constructor -> (kind built, parameters in order, fields differing from the kind's defaults)
MADE = {
    "new_post_only_default": ("PostOnly", SP3, {}),
    "new_post_only_default_with_client_order_id": ("PostOnly", SP3 + [CID], same(CID)),
    "new_adjustable_post_only_default_with_client_order_id": ("PostOnly", SP3 + [CID], dict(same(CID), reject_post_only=FALSE)),
    "new_post_only": ("PostOnly", SP3 + [CID, "reject_post_only", "use_only_deposited_funds"], same(CID, "reject_post_only", "use_only_deposited_funds")),
    "new_limit_order_default": ("Limit", SP3, {}),
    "new_limit_order_default_with_client_order_id": ("Limit", SP3 + [CID], same(CID)),
    "new_limit_order": ("Limit", SP3 + TERMS, same(*TERMS)),
    "new_fok_sell_with_limit_price": ("ImmediateOrCancel", ["price", "lots"] + TERMS, dict(same(*TERMS), side=ASK, price_in_ticks=("some", "price"), num_base_lots="lots", min_base_lots_to_fill="lots")),
    "new_fok_buy_with_limit_price": ("ImmediateOrCancel", ["price", "lots"] + TERMS, dict(same(*TERMS), side=BID, price_in_ticks=("some", "price"), num_base_lots="lots", min_base_lots_to_fill="lots")),
    "new_ioc_sell_with_limit_price": ("ImmediateOrCancel", ["price", "lots"] + TERMS, dict(same(*TERMS), side=ASK, price_in_ticks=("some", "price"), num_base_lots="lots")),
    "new_ioc_buy_with_limit_price": ("ImmediateOrCancel", ["price", "lots"] + TERMS, dict(same(*TERMS), side=BID, price_in_ticks=("some", "price"), num_quote_lots="lots")),
    "new_ioc_by_lots": ("ImmediateOrCancel", ["side", "price", "lots"] + TERMS, dict(same("side", *TERMS), price_in_ticks=("some", "price"), num_base_lots="lots")),
    "new_ioc_buy_with_slippage": ("ImmediateOrCancel", ["lots", "min"], dict(side=BID, num_quote_lots="lots", min_base_lots_to_fill="min")),
    "new_ioc_sell_with_slippage": ("ImmediateOrCancel", ["lots", "min"], dict(side=ASK, num_base_lots="lots", min_quote_lots_to_fill="min")),
    "new_ioc": ("ImmediateOrCancel", ["side", "price_in_ticks", "num_base_lots", "num_quote_lots", "min_base_lots_to_fill", "min_quote_lots_to_fill"] + TERMS +
                ["last_valid_slot", "last_valid_unix_timestamp_in_seconds"],
                same("side", "price_in_ticks", "num_base_lots", "num_quote_lots", "min_base_lots_to_fill", "min_quote_lots_to_fill", "last_valid_slot",
                     "last_valid_unix_timestamp_in_seconds", *TERMS)),
}
ORDER2 = dict(price_in_ticks="price_in_ticks", size_in_base_lots="size_in_base_lots", last_valid_slot=NONE, last_valid_unix_timestamp_in_seconds=NONE)
FAIL, AMEND = ("kind", "FailOnInsufficientFundsAndFailOnCross"), ("kind", "FailOnInsufficientFundsAndAmendOnCross")
MULTI = dict(bids="bids", asks="asks", client_order_id=NONE, failed_multiple_limit_order_behavior=FAIL)
OTHERS = [
    ("new_order::CondensedOrder", "new_default", ["price_in_ticks", "size_in_base_lots"], ORDER2),
    ("new_order::MultipleOrderPacket", "new", ["bids", "asks", CID, "reject"], dict(MULTI, client_order_id=CID, failed_multiple_limit_order_behavior=("if", "reject", FAIL, AMEND))),
    ("new_order::MultipleOrderPacket", "new_default", ["bids", "asks"], MULTI),
    ("new_order::MultipleOrderPacket", "new_with_failure_behavior", ["bids", "asks", CID, "behavior"], dict(MULTI, client_order_id=CID, failed_multiple_limit_order_behavior="behavior")),
    ("fifo::FIFOOrderId", "new_from_untyped", ["price", "seq"], dict(price_in_ticks="price", order_sequence_number="seq")),
    ("fifo::FIFOOrderId", "new", ["price", "seq"], dict(price_in_ticks="price", order_sequence_number="seq")),
]
MAX64 = (1 << 64) - 1
READ = {  # what each accessor of an order packet answers: kind -> field, or a fixed answer
    "side": {"PostOnly": "side", "Limit": "side", "ImmediateOrCancel": "side"},
    "client_order_id": {"PostOnly": CID, "Limit": CID, "ImmediateOrCancel": CID},
    "num_base_lots": {"PostOnly": "num_base_lots", "Limit": "num_base_lots", "ImmediateOrCancel": "num_base_lots"},
    "num_quote_lots": {"PostOnly": ZERO, "Limit": ZERO, "ImmediateOrCancel": "num_quote_lots"},
    "no_deposit_or_withdrawal": {"PostOnly": "use_only_deposited_funds", "Limit": "use_only_deposited_funds", "ImmediateOrCancel": "use_only_deposited_funds"},
    "fail_silently_on_insufficient_funds": {"PostOnly": "fail_silently_on_insufficient_funds", "Limit": "fail_silently_on_insufficient_funds", "ImmediateOrCancel": FALSE},
    "self_trade_behavior": {"Limit": "self_trade_behavior", "ImmediateOrCancel": "self_trade_behavior"},
    "get_last_valid_slot": {"PostOnly": "last_valid_slot", "Limit": "last_valid_slot", "ImmediateOrCancel": "last_valid_slot"},
    "get_last_valid_unix_timestamp_in_seconds": {k: "last_valid_unix_timestamp_in_seconds" for k in ("PostOnly", "Limit", "ImmediateOrCancel")},
    "is_post_only": {"PostOnly": TRUE, "Limit": FALSE, "ImmediateOrCancel": FALSE},
    "quote_lot_budget": {"PostOnly": NONE, "Limit": NONE, "ImmediateOrCancel": ("unless zero", "num_quote_lots", NONE)},
    "base_lot_budget": {k: ("unless zero", "num_base_lots", ("max",)) for k in ("PostOnly", "Limit", "ImmediateOrCancel")},
    "match_limit": {"PostOnly": ("max",), "Limit": ("or", "match_limit", {"Bid": MAX64, "Ask": MAX64}), "ImmediateOrCancel": ("or", "match_limit", {"Bid": MAX64, "Ask": MAX64})},
    "get_price_in_ticks": {"PostOnly": "price_in_ticks", "Limit": "price_in_ticks", "ImmediateOrCancel": ("or", "price_in_ticks", {"Bid": MAX64, "Ask": 0})},
    "is_ioc": {"PostOnly": FALSE, "Limit": FALSE, "ImmediateOrCancel": TRUE},
}


class Made:
    def __init__(self, R, ctx, key, params):
        self.R, self.ctx, self.key = R, ctx, key
        self.fx = Fx(ctx, key)
        R.fns |= self.fx.eng.inlined
        b = ctx.p.body(key)
        self.argc = b.argc
        self.args = {n: mk("arg", b.names.get(i + 1, "arg%d" % i)) for i, n in enumerate(params)}
        self.body = b

    def options(self):
        """whether each optional parameter is given"""
        t = self.ctx.p.types
        return [self.fx.eng.discr(a, self.fx.eng.OPT) for i, a in enumerate(self.args.values()) if t[self.body.locals[i + 1]].get("def", "").endswith("::Option")]

    def is_(self, q, x, w):
        """x is the wanted value on this path"""
        e = self.fx.eng
        x = q.simp(x)
        if isinstance(w, str):
            a = self.args[w]
            if x is a:
                return True
            # an option or flag rebuilt from the parameter it came from
            if x.op == "agg" and x.a[1] in ("Some", "None"):
                d = e.inset(q.st, e.discr(a, e.OPT), frozenset([1 if x.a[1] == "Some" else 0]))
                return d == 1 and (x.a[1] == "None" or q.simp(project(x, "Some.0")) is project(a, "Some.0"))
            k = e.cval(q.st, a)
            return k is not None and e.cval(q.st, x) == k
        if w[0] == "none":
            return x.op == "agg" and x.a[1] == "None"
        if w[0] == "some":
            return x.op == "agg" and x.a[1] == "Some" and self.is_(q, project(x, "Some.0"), w[1])
        if w[0] == "kind":
            return x.op == "agg" and x.a[1] == w[1]
        if w[0] == "if":
            k = e.cval(q.st, self.args[w[1]])
            return k is not None and self.is_(q, x, w[2] if k else w[3])
        return e.cval(q.st, x) == {"true": 1, "false": 0, "zero": 0, "max": MAX64}[w[0]]


def answers_or(m, q, me, kind, w):
    """the optional field where it is given, else the fixed value of the order's side"""
    e = m.fx.eng
    o = project(me, kind + "." + w[1])
    side = m.ctx.adt("state::enums::Side")
    sides = m.ctx.p.variants(side)
    seen = 0
    for given in (0, 1):
        for sd, v in sides.items():
            z = with_facts(q, {e.discr(o, e.OPT): [given], e.discr(project(me, kind + ".side"), side): [v]})
            if z is None:
                continue
            seen += 1
            x = z.simp(z.p.ret)
            if given and x is not z.simp(project(o, "Some.0")) or not given and e.cval(z.st, x) != w[2][sd]:
                return False
    return seen > 0


def answers_nonzero(m, q, me, kind, w):
    """the field, as an option where the answer for zero is one, or the fixed answer when it is zero"""
    f = project(me, kind + "." + w[1])
    seen = 0
    for zero in (0, 1):
        z = with_facts(q, {mk_eq(f, I(0)): [zero]})
        if z is None:
            continue
        seen += 1
        x = z.simp(z.p.ret)
        if zero and not m.is_(z, x, w[2]):
            return False
        if not zero:
            if w[2] == NONE:
                if not (x.op == "agg" and x.a[1] == "Some"):
                    return False
                x = z.simp(project(x, "Some.0"))
            if x is not z.simp(f):
                return False
    return seen > 0


def methods(ctx, adt):
    """functions attached to a type, by name"""
    r = {}
    for k, b in ctx.p.raw.items():
        if b["kind"] == "AssocFn" and b.get("impl_adt") == adt:
            r.setdefault(k.split("::")[-1], []).append(k)
    return r


def splits(q, terms):
    """the path under each outcome of the undecided flags"""
    r = [q]
    for t in terms:
        r = [z for y in r for z in (with_facts(y, {t: [0]}), with_facts(y, {t: [1]})) if z is not None]
    return r


@rule("W04", how="Each public constructor of an order packet, multi-order packet, condensed order and order id is followed symbolically; every field of the value it "
      "returns is compared, as a term, with the parameter or fixed value it stands for. Each accessor the engine reads packets through is followed for each "
      "kind of order and compared with the field it is named after.")
def w04(R, ctx):
    n = 0
    jobs = [("order_packet::OrderPacket", f, ps, dict({"PostOnly": PO, "Limit": LI, "ImmediateOrCancel": IOC}[kind], **diff), kind) for f, (kind, ps, diff) in MADE.items()]
    jobs += [(t, f, ps, fields, None) for t, f, ps, fields in OTHERS]
    for t, f, ps, fields, kind in jobs:
        name = ctx.adt(t)
        label = "%s::%s" % (t.split("::")[-1], f)
        ks = methods(ctx, name).get(f, [])
        R.req(len(ks) == 1, "anchor", label, "the constructor exists")
        for k in ks:
            m = Made(R, ctx, k, ps)
            R.req(m.argc == len(ps), "interface", label, "takes %d parameters" % len(ps), k)
            if m.argc != len(ps):
                continue
            R.req(bool(m.fx.rets), "returns", label, "can return", k)
            flags = [m.args[w[1]] for w in fields.values() if not isinstance(w, str) and w[0] == "if"] + m.options()
            for p in m.fx.rets:
                for q in splits(p, flags):
                    x = q.simp(q.p.ret)
                    for fld, w in fields.items():
                        n += 1
                        v = project(x, kind + "." + fld if kind else fld)
                        good = (kind is None or x.op == "agg" and x.a[1] == kind) and m.is_(q, v, w)
                        R.req(good, "field", "%s %s" % (label, fld), "is %s" % ("the parameter " + w if isinstance(w, str) else " ".join(map(str, w))), k, q.trace)
    R.floor("constructed fields traced", n, 150)
    packet = ctx.adt("order_packet::OrderPacket")
    variants = dict(ctx.p.variants(packet))
    r = 0
    ms = methods(ctx, packet)
    for f, per in READ.items():
        ks = ms.get(f, [])
        R.req(len(ks) >= 1, "anchor", "OrderPacket::" + f, "the accessor exists")
        for k in ks:
            m = Made(R, ctx, k, ["self"])
            me = mk("load", m.args["self"])
            for kind, w in per.items():
                seen = 0
                for p in m.fx.rets:
                    q = with_facts(p, {m.fx.eng.discr(me, packet): [variants[kind]]})
                    if q is None:
                        continue
                    seen += 1
                    r += 1
                    x = q.simp(q.p.ret)
                    if not isinstance(w, str) and w[0] == "or":
                        good = answers_or(m, q, me, kind, w)
                    elif not isinstance(w, str) and w[0] == "unless zero":
                        good = answers_nonzero(m, q, me, kind, w)
                    else:
                        good = q.simp(project(me, kind + "." + w)) is x if isinstance(w, str) else m.is_(q, x, w)
                    R.req(good, "reads", "%s of %s" % (f, kind), "answers %s" % (w if isinstance(w, str) else w[0]), k, q.trace)
                R.req(seen > 0, "reads", "%s of %s" % (f, kind), "is answered", k)
    R.floor("accessor answers compared", r, 30)
