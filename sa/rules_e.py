"""Rules on the audit log: what is recorded, that nothing recorded is lost, and that no step's failure is passed over."""
from ctx import *
from terms import T as Term
from rulebase import rule
from rules_p import *
from rules_t import *
from rules_x import *
import json
import engine as _eng


class Fx:
    """exploration of one function from an arbitrary state, in the shape the path helpers expect"""

    def __init__(self, ctx, key, opaque=None, **kw):
        self.ctx = ctx
        self.name = key.split("::")[-1]
        self.where = key
        self.key = key
        self.eng, self.ends = explore(ctx.p, key, opaque=opaque or (lambda e, fn, k: False), **kw)
        self.rets = [Path2(self, p) for p in self.ends if p.kind == "ret"]


RECORDER = "EventRecorder"


def methods_taking(ctx, adt, suffix):
    """methods of the type that take (a reference to) a value of the named type"""
    r = []
    for k, b in ctx.p.raw.items():
        if b["kind"] == "AssocFn" and b.get("impl_adt", "").endswith("::" + adt):
            body = ctx.p.body(k)
            for i in range(1, body.argc + 1):
                t = ctx.p.types[ctx.p.deref_ty(body.locals[i])]
                if t["k"] == "adt" and t["def"].endswith(suffix):
                    r.append(k)
    r = sorted(set(r))
    # a method that only another of them calls is a part of it
    inner = {x for x in r for k in r if k != x and ('"def": "%s"' % x) in json.dumps(ctx.p.raw[k])}
    return [x for x in r if x not in inner or outside(ctx, x, r)]


def outside(ctx, x, r):
    """is the method named by any other function?"""
    return any(('"def": "%s"' % x) in json.dumps(b) for k, b in ctx.p.raw.items() if k not in r and not any(k.startswith(y + "::") for y in r))


def one_of(lst, what):
    if len(lst) != 1:
        raise MissingAnchor("%s (found %s)" % (what, lst))
    return lst[0]


def selfval(fx):
    b = fx.ctx.p.body(fx.key)
    a = mk("arg", b.names.get(1, "arg0"))
    return a, mk("load", a), ("D", a)


def ser_parts(t):
    """a byte string as the list of its parts in order"""
    if t.op == "concat" or t.op == "call" and str(t.a[0]).endswith("concat"):
        r = []
        for x in t.a[2 if t.op == "call" else 0:]:
            r += ser_parts(x)
        return r
    if t.op == "array" and not t.a:
        return []
    return [t]


def field_names(ctx, adt):
    return [f[0] for f in ctx.p.adts[adt]["variants"][0]["fields"]]


# ------------------------------------------------------------------ E01
def log_data(p, t):
    """(instruction number, header aggregate, patched slice, count term) of an audit-log payload without events"""
    if t.op != "upd" or len(t.a[1]) != 1:
        return None
    (k, cnt), = t.a[1]
    ps = ser_parts(t.a[0])
    if len(ps) != 2 or ps[0].op not in ("array", "bytes"):
        return None
    first = ps[0]
    tag = first.a[0] if first.op == "array" and len(first.a) == 1 else None
    s = ps[1]
    if s.op != "ser":
        return None
    return tag, s.a[-1], k, cnt


SIZES = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "i64": 8, "u128": 16}


def wire_size(ctx, ti):
    t = ctx.p.types[ti]
    if t["s"] in SIZES:
        return SIZES[t["s"]]
    if t["s"].endswith("Pubkey"):
        return 32
    if t["k"] == "adt":
        a = ctx.p.adts[t["def"]]
        if a["kind"] == "struct":
            return sum(wire_size(ctx, f[1]) for f in a["variants"][0]["fields"])
    return -10 ** 6


HEADER_ORDER = ["instruction", "sequence_number", "timestamp", "slot", "market", "signer", "total_events"]


@rule("E01", how="On every successful path of every instruction the calls to the program itself are collected: there must be exactly one at the end, its data the Log tag and "
      "a serialized header whose seven fields are, as terms, the instruction's tag, the market's sequence number on entry, the clock sysvar's time and "
      "slot, the market key, the signer's key; and the final market header must hold that number plus one.")
def e01(R, ctx):
    h = T(ctx)
    logtag = ctx.tags["Log"]
    hadt = ctx.adt("events::AuditLogHeader")
    R.req(field_names(ctx, hadt) == HEADER_ORDER, "layout", "AuditLogHeader", "the fields stand in the published order")
    hlen = 2 + sum(wire_size(ctx, f[1]) for f in ctx.p.adts[hadt]["variants"][0]["fields"])
    seq0 = h.h("market_sequence_number")
    for n, p in paths(R, ctx, ALL_IX):
        evs = p.events()
        logs = [e for e in cpis(p) if cpi_kind(p, e) == "program"]
        R.req(len(logs) == 1, "one log", n, "the audit log is closed exactly once", p.ix.where, p.trace)
        if len(logs) != 1:
            continue
        e = logs[0]
        after = [x.name for x in evs[evs.index(e) + 1:]]
        R.req(all(x == "set_return_data" for x in after), "last", n, "nothing happens after the log is closed (%s)" % after, e.span, p.trace)
        R.req(p.is_ok(e.res), "emitted", n, "the log call succeeded", e.span, p.trace)
        ins = p.simp(e.vals[0])
        R.req(is_pubkey(project(ins, "program_id"), PROGRAM_BYTES), "callee", n, "the log goes to the program itself", e.span, p.trace)
        ac = project(ins, "accounts")
        acs = list(ac.a) if ac.op == "array" else []
        R.req(len(acs) == 1 and acs[0].op == "call" and is_pubkey(acs[0].a[2], LOG_BYTES) and acs[0].a[3] is I(1), "authority", n, "the log authority signs the log call", e.span, p.trace)
        sg = p.simp(e.vals[2]) if len(e.vals) > 2 else None
        R.req(sg is not None and any(x.op in ("bytes", "str") and x.a[0] in (b"log", "log") for x in walk(sg)) and any(x is I(255) for x in walk(sg)), "authority", n, "the log authority's seeds sign the log call", e.span, p.trace)
        d = log_data(p, p.simp(project(ins, "data")))
        R.req(d is not None, "shape", n, "the log data is the log tag followed by the header", e.span, p.trace)
        if d is None:
            continue
        tag, hd, k, cnt = d
        R.req(tag is not None and is_int(tag) and tag.a[0] == logtag, "log tag", n, "the log call carries the Log instruction number", e.span, p.trace)
        R.req(k == ("sub", hlen - 2, hlen), "count slot", n, "the event count is written over the last two header bytes", e.span, p.trace)
        R.req(any(is_int(x) and x.a[0] == 0 for x in cnt.a[2:]) if cnt.op == "call" else False, "count", n, "with nothing recorded the count is zero", e.span, p.trace)
        R.req(hd.op == "agg" and hd.a[1] == "Header", "header", n, "the first record is the header", e.span, p.trace)
        g = project(hd, "Header.0")
        fv = lambda f: p.simp(project(g, f))
        R.req(is_int(fv("instruction")) and fv("instruction").a[0] == p.ix.tag, "instruction", n, "the header names the instruction", e.span, p.trace)
        R.req(fv("sequence_number") is seq0, "sequence number", n, "the header carries the market's sequence number", e.span, p.trace)
        R.req(is_clock(fv("timestamp"), "unix_timestamp") and is_clock(fv("slot"), "slot"), "time", n, "the header carries the current time and slot", e.span, p.trace)
        R.req(p.eq(fv("market"), KEY(2)), "market", n, "the header names the market", e.span, p.trace)
        R.req(p.eq(fv("signer"), KEY(3)), "signer", n, "the header names the signer", e.span, p.trace)
        # sequence number
        fin = project(h.hfinal(p), "market_sequence_number")
        gone = [k for k in p.st.facts if k.op == "len" and k.a[0].op == "load" or k.op == "len"]
        if n == "InitializeMarket":
            R.req(p.simp(fin) is I(1), "next number", n, "a new market's next record is number 1", e.span, p.trace)
        else:
            ok = poly(p.simp(fin)) == padd(poly(seq0), poly(I(1)), 1)
            if not ok and n == "ChangeMarketStatus":
                good = []
                for S in ([0], None):
                    for lf in [k for k in walk(fin) if k.op == "len"] or [None]:
                        if lf is None:
                            continue
                        q = with_facts(p, {mk_eq(lf, I(0)): [1 if S else 0], lf: [0]} if S else {mk_eq(lf, I(0)): [0]})
                        if q is None:
                            continue
                        f2 = q.simp(fin)
                        good.append(poly(f2) == padd(poly(seq0), poly(I(1)), 1) or S is not None)
                lens = len({k for k in walk(fin) if k.op == "len"})
                zero = any(k.op == "len" and v == ("in", frozenset([0])) for k, v in p.st.facts.items())
                ok = bool(good) and all(good) or zero
                R.count("log records of a closed market")
                R.req(lens <= 1, "next number", n, "only a closed market keeps its number", e.span, p.trace)
            R.req(ok, "next number", n, "the market's sequence number rises by one", e.span, p.trace)
        R.count("log calls judged")
    R.floor("log calls judged", R.cov.get("log calls judged", 0), 300)
    # the same from an arbitrary recorder state: whatever was recorded and sent before, the number rises by one
    fin = Fx(ctx, one_of(methods_taking(ctx, RECORDER, "MarketAccountInfo"), "the recorder's method that closes the log"))
    R.fns |= fin.eng.inlined
    a, S0, root = selfval(fin)
    k = 0
    for p in fin.rets:
        if fin.eng.inset(p.st, fin.eng.discr(p.p.ret, fin.eng.RES), frozenset([0])) == 0:
            continue
        for q in err_cases(p, S0):
            if fin.eng.inset(q.st, fin.eng.discr(q.simp(p.p.ret), fin.eng.RES), frozenset([0])) == 0:
                continue
            k += 1
            empty = [f for f, v in q.st.facts.items() if f.op == "len" and "market_info" in pp(f)]
            ok = len(empty) == 1
            what = "the number rises by one"
            if ok and q.st.facts[empty[0]] == ("in", frozenset([0])):
                what = "only closing a market leaves the number"
                ok = q.isin(fin.eng.discr(sel(S0, "phoenix_instruction"), ctx.adt("instruction::PhoenixInstruction")), [ctx.tags["ChangeMarketStatus"]])
            elif ok:
                cell = empty[0].a[0]
                hd = lambda t: project(project(project(t, ("sub", 0, h.hsize)), ("cast", HDR_TY)), "market_sequence_number")
                new = q.st.store.get(("D", cell.a[0]), cell)
                ok = poly(q.simp(hd(new))) == padd(poly(hd(cell)), poly(I(1)), 1)
            R.req(ok, "next number", fin.name, what, fin.where, q.trace)
    R.floor("ways of closing the log", k, 3)
    # every event the engine reports reaches the recorder that is flushed at the end
    k = 0
    done = set()
    step = one_of(methods_taking(ctx, RECORDER, "MarketEvent"), "the recorder's method that takes an event")
    for n in ALL_IX:
        ix = ctx.ix(n)
        for p in list(ix.oks) + [Path2(ix, b) for b in ix.ends if b.kind == "back"]:
            logs = [e for e in cpis(p) if cpi_kind(p, e) == "program"]
            for e in p.ev(*RESP):
                cl = [a for a in e.args if is_closure(e, a, ix)]
                if e.name not in RECORDS or (n, e.n) in done:
                    continue
                done.add((n, e.n))
                k += 1
                ok = False
                for a in cl:
                    for target in recorder_of(p, e, a, step):
                        ok = True
                        if logs and logs[-1].args[0].op == "ref":
                            r0 = logs[-1].args[0].a[0]
                            R.req(r0 == target, "recorder", "%s -> %s" % (n, e.name), "events go to the recorder that is emitted", e.span, p.trace)
                R.req(ok, "recorder", "%s -> %s" % (n, e.name), "the engine is given a recorder for its events", e.span, p.trace)
    R.floor("engine calls with a recorder", k, 15)


RECORDS = {"place_order", "reduce_order", "cancel_all_orders", "cancel_up_to", "cancel_multiple_orders_by_id", "collect_fees"}


def is_closure(e, a, ix):
    v = a
    for _ in range(3):
        if v.op == "ref":
            v = ix.eng.rd(_St(e.store), v)
    return v.op == "closure" or v.op == "fn"


class _St:
    def __init__(self, store):
        self.store = store
        self.facts = {}


def recorder_of(p, e, clos, step):
    """roots of the recorders that calling the closure with an event appends to; nothing when an event can be dropped"""
    ev = mk("arg", "some_event")
    try:
        rs = call_in(p, e, clos, [ev])
    except Exception:
        return []
    roots = set()
    for st, v in rs:
        ch = {r for r, x in st.store.items() if r in e.store and e.store[r] is not x}
        if not ch:
            # not recorded: only when the recorder already failed
            return []
        for r in ch:
            if any(x is ev for x in walk(st.store[r])):
                roots.add(r)
            elif not any(x.op == "agg" and x.a[1] == "Some" for x in walk(st.store[r])):
                return []
    return list(roots)


# ------------------------------------------------------------------ E02
@rule("E02", how="The event recorder's two methods (take an event; close the log) are followed from an arbitrary recorder state along every path; on every path the contents of the "
      "buffer, the counters and the data handed to the log call are compared with: old contents, then the new event; the count of events added since the "
      "last call; and an emptied buffer only after a call that succeeded. A path that loses an event must leave the recorder in error, and closing the log "
      "from an error must fail.")
def e02(R, ctx):
    step = Fx(ctx, one_of(methods_taking(ctx, RECORDER, "MarketEvent"), "the recorder's method that takes an event"))
    fin = Fx(ctx, one_of(methods_taking(ctx, RECORDER, "MarketAccountInfo"), "the recorder's method that closes the log"))
    hadt = ctx.adt("events::AuditLogHeader")
    hlen = 2 + sum(wire_size(ctx, f[1]) for f in ctx.p.adts[hadt]["variants"][0]["fields"])
    rec = ctx.adt("event_recorder::" + RECORDER)
    trk = ctx.adt("event_recorder::EventStateTracker")
    for fx in (step, fin):
        R.fns |= fx.eng.inlined
        R.notes = sorted(set(R.notes) | set(fx.eng.unknown))
    # -- taking an event
    a, S0, root = selfval(step)
    evarg = [mk("arg", ctx.p.body(step.key).names.get(i, "arg%d" % (i - 1))) for i in range(2, ctx.p.body(step.key).argc + 1)]
    f0 = lambda *q: sel(S0, *q)
    OPT = step.eng.OPT
    n = kept = 0
    sub = ("sub", hlen - 2, hlen)
    for p in step.rets:
        for q in err_cases(p, S0):
            F = q.st.store.get(root, S0)
            err = q.simp(step.eng.discr(q.simp(sel(F, "error_code")), OPT))
            ev = step.eng.cval(q.st, err)
            n += 1
            if ev == 1:
                continue                      # the recorder is in error: closing the log refuses (below)
            kept += 1
            R.req(ev == 0, "error state", step.name, "whether the event was taken is known", step.where, q.trace)
            calls = cpis(q)
            data = q.simp(sel(F, "log_instruction", "data"))
            scr = q.simp(sel(F, "scratch_buffer"))
            added, emitted = f0("state_tracker", "events_added"), f0("state_tracker", "events_emitted")
            R.req(len(calls) <= 1, "calls", step.name, "at most one log call per event", step.where, q.trace)
            before = f0("log_instruction", "data")
            if calls:
                e = calls[0]
                R.req(q.is_ok(e.res), "emitted", step.name, "the buffer is emptied only after the log call succeeded", e.span, q.trace)
                sent = q.simp(project(q.simp(e.vals[0]), "data"))
                R.req(sent is upd1(before, sub, le2(sent, sub)) and poly(count_in(sent)) == padd(poly(added), poly(emitted), -1), "batch", step.name,
                      "what is sent is everything recorded, with the number of events added since the last call", e.span, q.trace)
                R.req(infos_ok(q, e, S0), "accounts", step.name, "the log call goes through the program and its log authority", e.span, q.trace)
                want = cut(sent, hlen)
                R.req(q.simp(sel(F, "state_tracker", "events_emitted")) is added, "emitted", step.name, "the events sent are counted as sent", e.span, q.trace)
                R.req(nonzero_batch(q, F, S0), "emitted", step.name, "the batch is counted", e.span, q.trace)
            else:
                want = before
                R.req(q.simp(sel(F, "state_tracker", "events_emitted")) is emitted, "emitted", step.name, "nothing is counted as sent without a call", step.where, q.trace)
                R.req(fits(q, before), "size", step.name, "an event is added without a call only if the batch was shown to stay within 1280 bytes", step.where, q.trace)
            ps = [x for x in ser_parts(data) if not (x is f0("scratch_buffer"))]
            head = ser_parts(want)
            ok = len(ps) == len(head) + 1 and all(samebytes(x, y, hlen) for x, y in zip(ps, head)) and ps[-1].op == "ser" and any(x is v for v in evarg for x in walk(ps[-1]))
            R.req(ok, "kept", step.name, "the batch is what it was, followed by the event", step.where, q.trace)
            R.req(zero_known(q, mk("len", f0("scratch_buffer"))) or f0("scratch_buffer") not in ser_parts(data), "scratch", step.name, "no stale bytes are sent with the event", step.where, q.trace)
            R.req(empty_bytes(scr), "scratch", step.name, "the scratch buffer is emptied", step.where, q.trace)
            R.req(poly(q.simp(sel(F, "state_tracker", "events_added"))) == padd(poly(added), poly(I(1)), 1), "counted", step.name, "the event is counted once", step.where, q.trace)
            R.req(q.simp(sel(F, "log_instruction", "accounts")) is f0("log_instruction", "accounts") and q.simp(sel(F, "log_instruction", "program_id")) is f0("log_instruction", "program_id"),
                  "target", step.name, "the log call's target is not changed", step.where, q.trace)
    R.floor("cases in which an event is taken", kept, 2)
    R.floor("cases of taking an event", n, 4)
    # -- closing the log
    a, S0, root = selfval(fin)
    f0 = lambda *q: sel(S0, *q)
    RES = fin.eng.RES
    closed = 0
    for p in fin.rets:
        if fin.eng.inset(p.st, fin.eng.discr(p.p.ret, RES), frozenset([0])) == 0:
            continue
        for q in err_cases(p, S0):
            if fin.eng.inset(q.st, fin.eng.discr(q.simp(q.p.ret), RES), frozenset([0])) == 0:
                continue
            closed += 1
            R.req(fin.eng.cval(q.st, fin.eng.discr(f0("error_code"), OPT)) == 0, "refuses", fin.name, "a recorder in error is never closed successfully", fin.where, q.trace)
            calls = cpis(q)
            R.req(len(calls) <= 1, "calls", fin.name, "at most one log call", fin.where, q.trace)
            added, emitted, batch = f0("state_tracker", "events_added"), f0("state_tracker", "events_emitted"), f0("state_tracker", "batch_index")
            if calls:
                e = calls[0]
                R.req(q.is_ok(e.res), "emitted", fin.name, "the log call succeeded", e.span, q.trace)
                sent = q.simp(project(q.simp(e.vals[0]), "data"))
                R.req(sent is upd1(f0("log_instruction", "data"), sub, le2(sent, sub)) and poly(count_in(sent)) == padd(poly(added), poly(emitted), -1), "batch", fin.name,
                      "what is sent is everything recorded, with the number of events added since the last call", e.span, q.trace)
                R.req(infos_ok(q, e, S0), "accounts", fin.name, "the log call goes through the program and its log authority", e.span, q.trace)
            else:
                none = q.false(mk("Lt", emitted, added)) or q.eq(emitted, added) or any(
                    v == ("in", frozenset([0])) and k.op == "Sub" and poly(k) == padd(poly(added), poly(emitted), -1) for k, v in q.st.facts.items())
                R.req(none, "complete", fin.name, "without a log call every event was already sent", fin.where, q.trace)
                R.req(q.true(mk_eq(batch, I(0))) is False and q.isin(batch, [0]) is False and known_nonzero(q, batch), "complete", fin.name, "without a log call at least one was already made", fin.where, q.trace)
    R.floor("cases of closing the log", closed, 2)


def sel(t, *path):
    for k in path:
        t = project(t, k)
    return t


def err_cases(p, S0):
    """the path under every combination of the outcomes still open in the values it leaves (log call result)"""
    qs = [p]
    for e in cpis(p):
        nq = []
        d = p.ix.eng.discr(e.res, p.ix.eng.RES)
        for q in qs:
            for v in (0, 1):
                w = with_facts(q, {d: [v]})
                if w is not None:
                    nq.append(w)
        qs = nq
    return qs


def upd1(t, k, v):
    return set_field(t, (k,), v) if v is not None else None


def le2(t, k):
    """the value written over slice k"""
    if t.op == "upd":
        for kk, v in t.a[1]:
            if kk == k:
                return v
    return None


def count_in(t):
    for kk, v in t.a[1] if t.op == "upd" else []:
        if v.op == "call" and str(v.a[0]).endswith("to_le_bytes"):
            return v.a[-1]
    return mk("arg", "no count")


def cut(t, n):
    """the first n bytes"""
    return mk("cutto", t, n)


def samebytes(x, y, hlen):
    if x is y:
        return True
    if y.op == "cutto":
        if x.op == "drained" and x.a[0] is y.a[0] and x.a[1].op == "agg" and x.a[1].a[0].endswith("RangeFrom") and x.a[1].a[-1] is I(y.a[1]):
            return True
        if x.op in ("truncated",) and x.a[0] is y.a[0] and x.a[1] is I(y.a[1]):
            return True
        if x is project(y.a[0], ("sub", 0, y.a[1])):
            return True
    return False


def empty_bytes(t):
    if t.op == "array" and not t.a or t.op == "bytes" and not t.a[0]:
        return True
    if t.op == "drained":
        r = t.a[1]
        return r.op == "agg" and r.a[0].endswith("RangeFull")
    return t.op == "call" and str(t.a[0]).endswith(("Vec::new", "with_capacity"))


def known_nonzero(q, t):
    v = q.st.facts.get(t)
    return v is not None and (v[0] == "notin" and 0 in v[1] or v[0] == "in" and 0 not in v[1]) or q.false(mk_eq(t, I(0))) or q.true(mk("Lt", I(0), t))


def nonzero_batch(q, F, S0):
    b = q.simp(sel(F, "state_tracker", "batch_index"))
    return poly(b) == padd(poly(sel(S0, "state_tracker", "batch_index")), poly(I(1)), 1)


def infos_ok(q, e, S0):
    v = q.simp(e.vals[1])
    want = {sel(S0, "phoenix_program").id, sel(S0, "log_authority").id}
    ins = q.simp(e.vals[0])
    return v.op == "array" and {q.simp(x).id for x in v.a} == want and project(ins, "program_id") is sel(S0, "log_instruction", "program_id") and project(ins, "accounts") is sel(S0, "log_instruction", "accounts")


def fits(q, before):
    """a comparison that held shows len(buffer) + len(event) (+ a constant) <= 1280"""
    L = mk("len", before)
    for k, v in q.st.facts.items():
        if k.op not in ("Lt", "Le") or v[0] != "in" or len(v[1]) != 1:
            continue
        b = list(v[1])[0]
        lo, hi = (k.a[0], k.a[1]) if b == 1 else (k.a[1], k.a[0])
        strict = (k.op == "Lt") == (b == 1)
        d = padd(poly(hi), poly(lo), -1)          # hi - lo >= (1 if strict else 0)
        const = d.pop((), 0)
        if d.get((L,)) == -1 and all(c == -1 for c in d.values()) and any(len(m) == 1 and m[0].op == "len" and any(x.op == "ser" for x in walk(m[0])) for m in d) and const - (1 if strict else 0) <= 1280:
            return True
    return False


# ------------------------------------------------------------------ E03
EVENTS = [  # published order and layout of the log records
    ("Uninitialized", None, []),
    ("Header", "AuditLogHeader", ["instruction:u8", "sequence_number:u64", "timestamp:i64", "slot:u64", "market:Pubkey", "signer:Pubkey", "total_events:u16"]),
    ("Fill", "FillEvent", ["index:u16", "maker_id:Pubkey", "order_sequence_number:u64", "price_in_ticks:u64", "base_lots_filled:u64", "base_lots_remaining:u64"]),
    ("Place", "PlaceEvent", ["index:u16", "order_sequence_number:u64", "client_order_id:u128", "price_in_ticks:u64", "base_lots_placed:u64"]),
    ("Reduce", "ReduceEvent", ["index:u16", "order_sequence_number:u64", "price_in_ticks:u64", "base_lots_removed:u64", "base_lots_remaining:u64"]),
    ("Evict", "EvictEvent", ["index:u16", "maker_id:Pubkey", "order_sequence_number:u64", "price_in_ticks:u64", "base_lots_evicted:u64"]),
    ("FillSummary", "FillSummaryEvent", ["index:u16", "client_order_id:u128", "total_base_lots_filled:u64", "total_quote_lots_filled:u64", "total_fee_in_quote_lots:u64"]),
    ("Fee", "FeeEvent", ["index:u16", "fees_collected_in_quote_lots:u64"]),
    ("TimeInForce", "TimeInForceEvent", ["index:u16", "order_sequence_number:u64", "last_valid_slot:u64", "last_valid_unix_timestamp_in_seconds:u64"]),
    ("ExpiredOrder", "ExpiredOrderEvent", ["index:u16", "maker_id:Pubkey", "order_sequence_number:u64", "price_in_ticks:u64", "base_lots_removed:u64"]),
]


@rule("E03", how="The layout of every log record (variant order, field order, field types) is read from the type definitions and compared with the published layout; and the "
      "recorder's translation of each kind of market event is evaluated symbolically: the record written must be of the same kind, each field the "
      "event's field of that name, and the index the number of events recorded before.")
def e03(R, ctx):
    pub = ctx.adt("events::PhoenixMarketEvent")
    vs = ctx.p.adts[pub]["variants"]
    R.req([v["name"] for v in vs] == [x[0] for x in EVENTS] and [int(v["discr"]) for v in vs] == list(range(len(EVENTS))), "layout", "PhoenixMarketEvent", "the record kinds stand in the published order")
    k = 0
    for v, (name, st, fields) in zip(vs, EVENTS):
        if st is None:
            R.req(not v["fields"], "layout", name, "carries nothing")
            continue
        t = ctx.p.types[v["fields"][0][1]] if len(v["fields"]) == 1 else {"k": "?"}
        R.req(t["k"] == "adt" and t["def"].endswith("events::" + st), "layout", name, "carries a " + st)
        if t["k"] == "adt":
            got = ["%s:%s" % (f[0], ctx.p.types[f[1]]["s"].split("::")[-1]) for f in ctx.p.adts[t["def"]]["variants"][0]["fields"]]
            R.req(got == fields, "layout", st, "the record's fields are the published ones in order (%s)" % got)
            k += 1
        imps = [im for im in ctx.p.impls if im["trait"].endswith("BorshSerialize") and ctx.p.types[im["args"][0]].get("def", "") == t.get("def")]
        R.count("serializers", len(imps))
    R.floor("record layouts compared", k, 9)
    step = Fx(ctx, one_of(methods_taking(ctx, RECORDER, "MarketEvent"), "the recorder's method that takes an event"))
    R.fns |= step.eng.inlined
    a, S0, root = selfval(step)
    b = ctx.p.body(step.key)
    mev = ctx.adt("market_events::MarketEvent")
    evi = [i for i in range(2, b.argc + 1) if ctx.p.types[b.locals[i]].get("def") == mev]
    if len(evi) != 1:
        raise MissingAnchor("event parameter of " + step.key)
    ev = mk("arg", b.names.get(evi[0], "arg%d" % (evi[0] - 1)))
    mapped = 0
    mvs = ctx.p.adts[mev]["variants"]
    for p in step.rets:
        for q0 in err_cases(p, S0):
            F = q0.st.store.get(root, S0)
            if step.eng.cval(q0.st, q0.simp(step.eng.discr(q0.simp(sel(F, "error_code")), step.eng.OPT))) != 0:
                continue
            for v in mvs:
                q = with_facts(q0, {step.eng.discr(ev, mev): [int(v["discr"])]})
                if q is None:
                    continue
                ps = ser_parts(q.simp(sel(F, "log_instruction", "data")))
                s = ps[-1]
                rec = s.a[-1] if s.op == "ser" else None
                rec = q.simp(rec) if rec is not None else None
                ok = rec is not None and rec.op == "agg" and rec.a[1] == v["name"]
                R.req(ok, "kind", v["name"], "is recorded as a record of its kind", step.where, q.trace)
                if not ok:
                    continue
                body = project(rec, v["name"] + ".0")
                st = [x for x in EVENTS if x[0] == v["name"]]
                names = [f.split(":")[0] for f in st[0][2]] if st else []
                R.req(set(names) - {"index"} == {f[0] for f in v["fields"]}, "fields", v["name"], "every field of the event is in the record")
                for f in names:
                    got = q.simp(project(body, f))
                    if f == "index":
                        R.req(got is sel(S0, "state_tracker", "events_added"), "index", v["name"], "the index is the number of events recorded before", step.where, q.trace)
                    else:
                        mapped += 1
                        R.req(got is project(ev, "%s.%s" % (v["name"], f)), "field", "%s.%s" % (v["name"], f), "is the event's field of that name", step.where, q.trace)
    R.floor("record fields traced", mapped, 50)


# ------------------------------------------------------------------ E04
MUST = {"place_order", "reduce_order", "claim_funds", "get_or_register_trader"}


@rule("E04", how="For every successful path of every instruction (and every explored loop iteration) each call that can fail -- token, system and log calls, account resizing, market "
      "loading, and the engine operations whose refusal means the request was not carried out -- must be known to have succeeded from a branch "
      "condition on its own result.")
def e04(R, ctx):
    k = 0
    for n in ALL_IX + ["Log"]:
        ix = ctx.ix(n)
        R.fns |= ix.eng.inlined
        okset = set(map(id, ix.oks))
        judged, seen = set(), {}
        for p in list(ix.oks) + [Path2(ix, b) for b in ix.ends if b.kind == "back"]:
            inl = loop_events(p) if id(p) in okset else []
            for e in p.events():
                call = e.name in ("invoke", "invoke_signed", "invoke_unchecked", "invoke_signed_unchecked", "realloc") or e.name.startswith("load_with_dispatch")
                if not call and e.name not in MUST:
                    continue
                if id(p) in okset:
                    if e in inl:
                        seen[e.n] = e         # judged on the iteration itself
                        continue
                elif not in_iteration(p, e):
                    continue
                k += 1
                judged.add(e.n)
                if call:
                    R.req(p.is_ok(e.res), "outcome", "%s: %s" % (n, e.name), "a successful instruction never passes over this call's failure", e.span, p.trace)
                else:
                    R.req(p.is_some(e.res), "outcome", "%s: %s" % (n, e.name), "a refusal by the engine fails the instruction", e.span, p.trace)
        for i, e in seen.items():
            R.req(i in judged, "iteration", "%s: %s" % (n, e.name), "the iteration making this call was followed", e.span)
    R.floor("outcomes traced", k, 1500)


def loop_events(p):
    """events inside loops of the path"""
    top = set()
    for e in p.p.events():
        if not (e.name == "loop" and e.fn is None):
            top.add(e.n)
    return [e for e in p.events() if e.n not in top]


def in_iteration(p, e):
    """the event belongs to the iteration this back path describes"""
    lp = p.p.loop
    if lp is None:
        return False      # iteration of an inlined iterator: its calls reappear in the enclosing loop
    x = p.st.ev
    while x is not None and x[1] is not lp[4]:
        if x[1] is e:
            return True
        x = x[0]
    return False


# ------------------------------------------------------------------ E05
@rule("E05", how="On every successful path of the order-placing instructions that can rest an order, the value handed to set_return_data (after the last cross-program call, which would "
      "clear it) must be the serialized list of the order ids the engine answered with, in order; it may be left out only on paths where the list is "
      "known to be empty. For packets of several orders the list is followed through every loop iteration.")
def e05(R, ctx):
    k = 0
    for n in TRADE_IX + MULTI_IX:
        if n in TAKE_ONLY:
            continue
        for n, p in paths(R, ctx, [n]):
            evs = p.events()
            sr = [e for e in evs if e.name == "set_return_data"]
            orders = p.ev("place_order") if n not in MULTI_IX else []
            if not sr:
                if n in MULTI_IX:
                    ok = any(f.op == "len" and v == ("in", frozenset([0])) and f.a[0].op == "loop" and ids_list(R, ctx, p, n, f.a[0]) for f, v in p.st.facts.items())
                else:
                    ok = all(p.isin(p.ix.eng.discr(sel(e.res, "Some.0", "0"), p.ix.eng.OPT), [0]) for e in orders) or len(orders) == 1 and any(
                        f.op == "len" and v == ("in", frozenset([0])) and single_ids(p, orders[0], f.a[0]) for f, v in p.st.facts.items())
                R.req(ok, "returned", n, "the ids are left out only if there are none", p.ix.where, p.trace)
                k += 1
                continue
            k += 1
            R.req(len(sr) == 1 and evs[-1] is sr[0], "last", n, "the ids are returned after the last call, which would clear them", sr[0].span, p.trace)
            s = ser_parts(p.simp(sr[0].vals[0]))
            ok = len(s) == 1 and s[0].op == "ser"
            R.req(ok, "returned", n, "the return data is one serialized list", sr[0].span, p.trace)
            if not ok:
                continue
            lst = s[0].a[-1]
            if n in MULTI_IX:
                R.req(ids_list(R, ctx, p, n, lst), "ids", n, "the list holds the id of every order placed, in order", sr[0].span, p.trace)
            else:
                R.req(len(orders) == 1, "ids", n, "one order is placed", sr[0].span, p.trace)
                for e in orders:
                    R.req(single_ids(p, e, lst), "ids", n, "the list holds the id the engine answered with", sr[0].span, p.trace)
    R.floor("returns judged", k, 100)


def single_ids(p, e, lst):
    """lst is the id the engine answered this order with, or nothing if it gave none"""
    o = sel(e.res, "Some.0", "0")
    d = p.ix.eng.discr(o, p.ix.eng.OPT)
    n = 0
    for v in (0, 1):
        q = with_facts(p, {d: [v]})
        if q is None:
            continue
        n += 1
        got = q.simp(lst)
        if not (got.op == "array" and (not got.a if v == 0 else len(got.a) == 1 and got.a[0] is project(o, "Some.0"))):
            return False
    return n > 0


def ids_list(R, ctx, p, n, t):
    """t collects the id of every order placed in the loops of the instruction"""
    ix = ctx.ix(n)
    acc = Acc(ix)
    need = set(acc.order_sites())
    x = t
    seen = set()
    while x.op == "loop":
        seen.add(x.a[0])
        for b in acc.by.get(x.a[0], []):
            q = Path2(ix, b)
            vb = None
            for root, va in b.loop[3].items():
                if va is x:
                    vb = b.st.store.get(root)
            ev = acc.iteration_orders(b)
            if vb is None:
                return False
            cases = [q]
            for e in ev:
                d = q.ix.eng.discr(sel(e.res, "Some.0", "0"), q.ix.eng.OPT)
                cases = [w for c in cases for v in (0, 1) for w in [with_facts(c, {d: [v]})] if w is not None]
            for w in cases:
                want = [sel(e.res, "Some.0", "0", "Some.0") for e in ev if w.is_some(sel(e.res, "Some.0", "0"))]
                got = appended(w.simp(vb), x)
                if got is None or len(got) != len(want) or any(g is not y for g, y in zip(got, want)):
                    return False
        x = x.a[2]
    return x.op == "array" and not x.a and need <= seen


def appended(t, base):
    """elements added to base, in order"""
    if t is base:
        return []
    if t.op == "vecof":
        inner = appended(t.a[0], base)
        el = t.a[1]
        el = list(el.a) if hasattr(el, "op") else list(el)
        return None if inner is None else inner + el
    return None
