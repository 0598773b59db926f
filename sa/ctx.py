"""Shared context of the rules: the program under analysis, explorations per instruction, obligation bookkeeping."""
import json
import os
import sys
import time

from terms import *
from engine import *

sys.setrecursionlimit(40000)

HDR_TY = "program::accounts::MarketHeader"
SEAT_TY = "program::accounts::Seat"


class Run:
    """one check run: obligations, violations, coverage"""

    def __init__(self, pid, prog):
        self.pid = pid
        self.p = prog
        self.obl = 0
        self.ok = 0
        self.by = {}
        self.viol = {}
        self.samples = []
        self.cov = {}
        self.notes = []
        self.fns = set()

    def req(self, cond, rule, subject, what, where=None, trace=None, nsample=2):
        """one obligation. rule: short rule id; subject: the construct judged; what: the failed requirement"""
        self.obl += 1
        c = self.by.setdefault(rule, [0, 0])
        c[0] += 1
        if cond:
            self.ok += 1
            c[1] += 1
            if c[1] <= nsample and len(self.samples) < 40:
                self.samples.append("%s: %s -- %s%s" % (rule, subject, what, " at %s" % where if where else ""))
            return True
        k = "%s|%s|%s" % (rule, subject, what)
        if k not in self.viol:
            self.viol[k] = {"key": k, "rule": rule, "construct": subject, "requirement": what, "where": where or "", "trace": [], "count": 0}
        v = self.viol[k]
        v["count"] += 1
        if trace and len(v["trace"]) < 3:
            v["trace"].append(trace() if callable(trace) else trace)
        return False

    def floor(self, name, n, least):
        """fail closed: the construct kind that carries the property must still exist"""
        self.cov[name] = n
        self.req(n >= least, "floor", name, "at least %d instances of '%s' must be found" % (least, name))

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n


def spanof(x):
    return x if isinstance(x, str) else str(x)


# --------------------------------------------------------------------------- instruction layer
MARKET_TRAITS = ("market_traits::WritableMarket", "market_traits::Market")
P_OPAQUE = {"load_with_dispatch", "load_with_dispatch_mut", "load_with_dispatch_init", "dispatch_market_size", "get_decimal_string"}


def p_opaque(e, fn, key):
    if (fn.get("trait") or "").endswith(MARKET_TRAITS):
        return True
    return fn["name"] in P_OPAQUE


ACC = mk("arg", "accounts")
DATA = mk("arg", "instruction_data")
PID = mk("arg", "program_id")


def A(i):
    return project(mk("load", ACC), ("#", I(i)))


def KEY(i):
    return mk("load", project(A(i), "key"))


def OWNER(i):
    return mk("load", project(A(i), "owner"))


def SIGNER(i):
    return project(A(i), "is_signer")


def CELL(i):
    return project(mk("load", project(A(i), "data")), "cell")


def BYTES(i):
    """contents of the account data"""
    return mk("load", CELL(i))


def LAMPORTS(i):
    return mk("load", project(mk("load", project(A(i), "lamports")), "cell"))


class Path2:
    """an Ok path with equality closure over its facts"""

    def __init__(self, ix, p):
        self.ix = ix
        self.p = p
        self.st = p.st
        self._uf = None
        self._evs = None

    # --- equality closure over positive Eq facts
    def uf(self):
        if self._uf is None:
            par = {}
            self._uf = par

            def find(x):
                while par.get(x, x) is not x:
                    x = par[x]
                return x
            self._find = find
            for k, v in self.st.facts.items():
                if k.op == "Eq" and v[0] == "in" and v[1] == frozenset([1]):
                    a, b = find(norm(k.a[0])), find(norm(k.a[1]))
                    if a is not b:
                        par[a] = b
        return self._uf

    def eq(self, a, b):
        """known equal on this path"""
        if a is b:
            return True
        if self.ix.eng.truth(self.st, mk_eq(a, b)) == 1:
            return True
        self.uf()
        return self._find(norm(a)) is self._find(norm(b))

    def ne(self, a, b):
        return self.ix.eng.truth(self.st, mk_eq(a, b)) == 0

    def true(self, t):
        return self.ix.eng.truth(self.st, t) == 1

    def false(self, t):
        return self.ix.eng.truth(self.st, t) == 0

    def isin(self, t, S):
        return self.ix.eng.inset(self.st, t, frozenset(S)) == 1

    def discr(self, t, suffix):
        return self.ix.eng.discr(self.simp(t), self.ix.ctx.adt(suffix))

    def discr_is(self, t, adt):
        """the variant number of t known on this path"""
        return self.ix.eng.cval(self.st, self.ix.eng.discr(self.simp(t), adt))

    def is_some(self, t):
        return self.isin(self.ix.eng.discr(self.simp(t), self.ix.eng.OPT), [1]) or self.isin(self.ix.eng.discr(t, self.ix.eng.OPT), [1])

    def is_ok(self, t):
        return self.isin(self.ix.eng.discr(self.simp(t), self.ix.eng.RES), [0]) or self.isin(self.ix.eng.discr(t, self.ix.eng.RES), [0])

    def simp(self, t):
        if not hasattr(self, "_sc"):
            self._sc = {}
        return dsimp(self.ix.eng, self.st, t, self._sc)

    def rd(self, ptr):
        return self.ix.eng.rd(self.st, ptr)

    def events(self):
        if self._evs is None:
            self._evs = list(flat(self.p.events()))
        return self._evs

    def ev(self, *names):
        return [e for e in self.events() if e.name in names]

    def trace(self):
        r = ["path of %s to a successful return:" % self.ix.name]
        for k, v in self.st.facts.items():
            r.append("  %s %s %s" % (short(pp(k))[:300], v[0], sorted(v[1])))
        for e in self.events():
            r.append("  event %s(%s) at %s" % (e.name, ", ".join(short(pp(x))[:200] for x in e.vals), e.span))
        return r


def dsimp(eng, st, t, cache=None):
    """resolve every choice in t that the path's facts decide"""
    if cache is None:
        cache = {}
    r = cache.get(t.id)
    if r is not None:
        return r
    if t.op == "ite":
        k = eng.truth(st, t.a[0])
        if k is None:
            c2 = dsimp(eng, st, t.a[0], cache)
            k = eng.truth(st, c2) if c2 is not t.a[0] else None
        if k is not None:
            r = dsimp(eng, st, t.a[1] if k else t.a[2], cache)
            cache[t.id] = r
            return r
    ch = False
    na = []
    for x in t.a:
        if x.__class__ is T:
            y = dsimp(eng, st, x, cache)
            ch = ch or y is not x
            na.append(y)
        elif isinstance(x, PairList):
            y = PairList((k, dsimp(eng, st, v, cache)) for k, v in x)
            ch = ch or y != x
            na.append(y)
        else:
            na.append(x)
    r = rebuild(t.op, na) if ch else t
    cache[t.id] = r
    return r


def norm(t):
    """strip wrappers that do not change identity of a key"""
    while t.op in ("bytes_of",) and len(t.a) == 1:
        t = t.a[0]
    return t


def flat(evs, inloop=False, depth=0):
    for e in evs:
        if e.name == "loop" and e.fn is None:
            for x in flat(e.inner or [], True, depth + 1):
                yield x
        else:
            yield e


def short(s):
    import re
    s = s.replace("***accounts[2].data.cell[0..576] as MarketHeader", "HEADER")
    s = s.replace("***accounts[2].data.cell[576..]", "MARKETBYTES")
    s = re.sub(r"Pubkey\{0:b'\\x05[^}]*'\}", "PROGRAM_ID", s)
    s = re.sub(r"Pubkey\{0:b'a[^}]*'\}", "LOG_AUTHORITY", s)
    s = re.sub(r"BorshDeserialize::try_from_slice\(\*instruction_data\[1\.\.\], tyname\([^)]*\)\)\.Ok\.0", "PARAMS", s)
    s = re.sub(r"dispatch_market::load_with_dispatch_mut\(HEADER.market_size_params, MARKETBYTES\)#\d+.Ok.0.inner", "MARKET", s)
    return s


class Ix:
    """exploration of process_instruction for one instruction tag"""

    def __init__(self, ctx, name, tag, facts=None):
        self.name = name
        self.tag = tag
        self.ctx = ctx
        self.p = ctx.p
        t = project(mk("load", DATA), ("#", I(0)))
        self.eng, self.ends = explore(ctx.p, ctx.entry, args=[PID, ACC, DATA], opaque=p_opaque, facts={**{t: ("in", frozenset([tag]))}, **(facts or {})})
        self.oks = [Path2(self, p) for p in self.ends if p.kind == "ret" and self.maybe_ok(p)]
        self.where = ctx.entry

    def maybe_ok(self, p):
        d = self.eng.discr(p.ret, self.eng.RES)
        return self.eng.inset(p.st, d, frozenset([0])) != 0


class Ctx:
    def __init__(self, mirpath):
        self.p = Program(mirpath)
        self.entry = self.p.one("process_instruction")
        self._ix = {}
        en = [a for a in self.p.adts if a.endswith("instruction::PhoenixInstruction") and self.p.adts[a]["kind"] == "enum"]
        if not en:
            raise MissingAnchor("PhoenixInstruction")
        self.tags = dict(self.p.variants(en[0]))
        hs = [a for a in self.p.adts if a.endswith("program::accounts::MarketHeader")]
        self.hdr_adt = hs[0]
        self.header_fields = [f[0] for f in self.p.adts[self.hdr_adt]["variants"][0]["fields"]]

    def adt(self, suffix):
        v = [a for a in self.p.adts if a == suffix or a.endswith("::" + suffix)]
        if len(v) != 1:
            raise MissingAnchor("one type %s (found %s)" % (suffix, v))
        return v[0]

    def ix(self, name):
        r = self._ix.get(name)
        if r is None:
            if name not in self.tags:
                raise MissingAnchor("instruction " + name)
            r = self._ix[name] = Ix(self, name, self.tags[name])
        return r

    def ix_with(self, name, facts):
        """exploration under assumed values of entry-state terms: {term: set of values}"""
        k = (name, tuple(sorted((t.id, tuple(sorted(v))) for t, v in facts.items())))
        r = self._ix.get(k)
        if r is None:
            r = self._ix[k] = Ix(self, name, self.tags[name], {t: ("in", frozenset(v)) for t, v in facts.items()})
        return r

    # header / market terms as they stand on entry
    @property
    def size(self):
        return mk("call", "std::mem::size_of", 0, mk("tyname", HDR_TY))


# --------------------------------------------------------------------------- terms of the instruction layer
def b58(s):
    al = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
    n = 0
    for c in s:
        n = n * 58 + al.index(c)
    return n.to_bytes(32, "big")


PROGRAM_B58 = "PhoeNiXZ8ByJGLkxNfZRnkUfjvmuYqLR89jjFHGqdXY"
PROGRAM_BYTES = b58(PROGRAM_B58)


def pda_with_bump(seeds, bump, program):
    import hashlib
    return hashlib.sha256(b"".join(seeds) + bytes([bump]) + program + b"ProgramDerivedAddress").digest()


LOG_BYTES = pda_with_bump([b"log"], 255, PROGRAM_BYTES)


def is_pubkey(t, raw):
    """t is the constant public key with these bytes"""
    t = norm(t)
    for x in walk(t):
        if x.op == "bytes" and bytes(x.a[0]) == raw:
            return t.op == "agg" and len(t.a) == 4 or t.op == "bytes"
    return False


def is_ext(t, crate):
    t = norm(t)
    return t.op == "extid" and t.a[0] == crate or (t.op == "call" and str(t.a[0]).startswith(crate + "::id"))


SYS = "solana_program::system_program"
TOK = "spl_token"

USER_IX = ["Swap", "SwapWithFreeFunds", "PlaceLimitOrder", "PlaceLimitOrderWithFreeFunds", "ReduceOrder", "ReduceOrderWithFreeFunds",
           "CancelAllOrders", "CancelAllOrdersWithFreeFunds", "CancelUpTo", "CancelUpToWithFreeFunds", "CancelMultipleOrdersById",
           "CancelMultipleOrdersByIdWithFreeFunds", "WithdrawFunds", "DepositFunds", "RequestSeat", "PlaceMultiplePostOnlyOrders",
           "PlaceMultiplePostOnlyOrdersWithFreeFunds"]
ADMIN_IX = ["NameSuccessor", "ChangeMarketStatus", "ChangeSeatStatus", "RequestSeatAuthorized", "EvictSeat", "ForceCancelOrders", "ChangeFeeRecipient"]
OTHER_IX = ["InitializeMarket", "ClaimAuthority", "CollectFees"]
ALL_IX = USER_IX + ADMIN_IX + OTHER_IX        # everything but Log

# account positions, the published interface of the program
_T4 = dict(base=4, quote=5, basev=6, quotev=7, tok=8)
_T5 = dict(seat=4, base=5, quote=6, basev=7, quotev=8, tok=9)
SLOTS = {
    "Swap": _T4, "ReduceOrder": _T4, "CancelAllOrders": _T4, "CancelUpTo": _T4, "CancelMultipleOrdersById": _T4, "WithdrawFunds": _T4,
    "PlaceLimitOrder": _T5, "DepositFunds": _T5, "PlaceMultiplePostOnlyOrders": _T5,
    "SwapWithFreeFunds": dict(seat=4), "PlaceLimitOrderWithFreeFunds": dict(seat=4), "PlaceMultiplePostOnlyOrdersWithFreeFunds": dict(seat=4),
    "EvictSeat": dict(trader=4, seat=5, base=6, quote=7, basev=8, quotev=9, tok=10),
    "ForceCancelOrders": dict(trader=4, seat=5, base=6, quote=7, basev=8, quotev=9, tok=10),
    "RequestSeat": dict(seat=4, sys=5), "RequestSeatAuthorized": dict(payer=4, trader=5, seat=6, sys=7), "ChangeSeatStatus": dict(seat=4),
    "CollectFees": dict(quote=4, quotev=5, tok=6), "ChangeFeeRecipient": dict(newrec=4, prevrec=5),
    "InitializeMarket": dict(basemint=4, quotemint=5, basev=6, quotev=7, sys=8, tok=9),
}
FREE_IX = [n for n in USER_IX if n.endswith("WithFreeFunds")]


def trader_slot(ix):
    return SLOTS.get(ix, {}).get("trader", 3)


class Terms:
    def __init__(self, ctx):
        def sized(suffix):
            for t in ctx.p.types:
                if t.get("def", "").endswith(suffix) and "size" in t and not t.get("args"):
                    return t["size"]
            raise MissingAnchor(suffix)
        self.hsize = sized("program::accounts::MarketHeader")
        self.HDR = project(project(BYTES(2), ("sub", 0, self.hsize)), ("cast", HDR_TY))
        self.MKTB = project(BYTES(2), ("sub", self.hsize, None))

    def h(self, *path):
        t = self.HDR
        for k in path:
            t = project(t, k)
        return t

    def seat(self, i):
        return project(BYTES(i), ("cast", SEAT_TY))

    def final(self, st, i):
        """final data of account i"""
        return st.store.get(("D", CELL(i)), BYTES(i))

    def hfinal(self, p):
        return p.simp(project(project(self.final(p.st, 2), ("sub", 0, self.hsize)), ("cast", HDR_TY)))


def call_of(t, *suffix):
    """t (or the payload of t's Ok/Some) is a call whose path ends in one of suffix -> (path, args)"""
    while t.op == "field" and t.a[1] in ("Ok.0", "Some.0"):
        t = t.a[0]
    if t.op == "call" and (not suffix or any(str(t.a[0]).endswith(s) for s in suffix)):
        return str(t.a[0]), t.a[2:]
    return None


def pda_eq(p, key, seeds, ctx):
    """on path p key is known to be the program's PDA for the seeds (terms)"""
    want = tuple(norm(s) for s in seeds)
    for k, v in p.st.facts.items():
        if k.op == "Eq" and v[0] == "in" and v[1] == frozenset([1]):
            for x, y in ((k.a[0], k.a[1]), (k.a[1], k.a[0])):
                x0 = norm(x)
                if x0.op == "field" and x0.a[1] == "0" and p.eq(y, key):
                    c = call_of(x0.a[0], "find_program_address")
                    if c and c[1][0].op == "array":
                        got = [norm(s) for s in c[1][0].a]
                        if len(got) == len(want) and all(a is b or p.eq(a, b) for a, b in zip(got, want)) and is_pubkey(c[1][1], PROGRAM_BYTES):
                            return True
    return False


STR = lambda s: mk("bytes", s) if isinstance(s, bytes) else mk("str", s)


def transfer_of(p, e):
    """token movement of an invoke / invoke_signed event"""
    c = call_of(e.vals[0])
    if c is None:
        return None
    path, a = c
    if path.endswith("spl_token::instruction::transfer"):
        return dict(kind="transfer", prog=a[0], src=a[1], dst=a[2], auth=a[3], signers=a[4], amt=a[5], e=e)
    if path.endswith("spl_token::instruction::transfer_checked"):
        return dict(kind="transfer", prog=a[0], src=a[1], mint=a[2], dst=a[3], auth=a[4], signers=a[5], amt=a[6], e=e)
    return None


def cpis(p):
    return p.ev("invoke", "invoke_signed", "invoke_unchecked", "invoke_signed_unchecked")


def cpi_kind(p, e):
    """'token transfer', 'audit log', 'system', 'init vault' or the callee path"""
    c = call_of(e.vals[0])
    if c:
        if "system_instruction" in c[0]:
            return "system:" + c[0].split("::")[-1]
        if "spl_token" in c[0]:
            return "token:" + c[0].split("::")[-1]
        return c[0]
    t = e.vals[0]
    if t.op == "agg" and t.a[0].endswith("Instruction"):
        return "program"
    return pp(t)[:80]
