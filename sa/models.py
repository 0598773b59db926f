"""Models of the standard-library / SDK functions the repository uses.

Each model maps (engine, state, callinfo) -> [(state, result term)].  They describe the library's
documented meaning; anything without a model is treated as an opaque call whose result is unknown
and which may overwrite whatever it gets by &mut.
"""
import re
from terms import *

M = {}
FIRST = {}   # applied even when the callee is local
PURE = set()
PURE_RE = []


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def lookup(path, fn):
    m = M.get(path)
    if m is not None:
        return m
    # inherent impls on primitive types: core::num::<impl u64>::pow  -> num::pow
    q = re.sub(r"<impl [^<>]*(<[^<>]*>)?[^<>]*>", "<impl>", path)
    m = M.get(q)
    if m is not None:
        return m
    last = path.rsplit("::", 1)
    if "trait" in fn:
        m = M.get(fn["trait"] + "::" + fn["name"])
        if m is not None:
            return m
    if path.endswith("::id") and not fn.get("targs"):
        return ext_id
    if path.endswith("::check_id") and not fn.get("targs"):
        return ext_check
    if path.startswith("std::fmt") or path.startswith("core::fmt") or "::fmt::" in path and fn.get("name") == "fmt":
        return fmt
    return None


def lookup_local(key, fn):
    return None


NUMERIC = ("abs_diff", "div_ceil", "clamp", "is_power_of_two", "rem_euclid", "div_euclid")


def follow(path, fn):
    """library functions whose own code is followed when no model answers"""
    if path.startswith(("core::num::", "std::num::")):
        return fn["name"] in NUMERIC
    return True


def is_pure(path, fn):
    if path in PURE:
        return True
    for r in PURE_RE:
        if r.search(path):
            return True
    return False


def ext_id(e, st, ci):
    return [(st, mk("extid", ci.path[:-4]))]


def ext_check(e, st, ci):
    return [(st, mk_eq(e.rd(st, ci.args[0]), mk("extid", ci.path[:-len("::check_id")])))]


def fmt(e, st, ci):
    return [(st, mk("fmt"))]


for n in ("std::io::_print", "std::fmt::format", "std::hint::must_use", "std::fmt::Arguments::from_str", "solana_program::log::sol_log",
          "solana_program::log::sol_log_compute_units", "std::panic::Location::caller", "std::str::<impl str>::replace",
          "alloc::fmt::format", "std::string::ToString::to_string", "core::str::<impl str>::trim_end_matches", "std::str::<impl str>::trim_end_matches",
          "std::io::_eprint", "std::string::String::from", "std::mem::drop"):
    M[n] = fmt

for n in ("solana_program::pubkey::Pubkey::find_program_address", "solana_program::rent::Rent::minimum_balance", 
          "solana_program::keccak::hashv", "std::mem::size_of", "sokoban::RedBlackTree::get_addr", "sokoban::NodeAllocatorMap::contains",
          "sokoban::NodeAllocatorMap::get", "sokoban::NodeAllocatorMap::get_mut", "sokoban::NodeAllocatorMap::is_empty", "sokoban::NodeAllocatorMap::len",
          "sokoban::NodeAllocatorMap::capacity", "sokoban::OrderedNodeAllocatorMap::get_max", "sokoban::OrderedNodeAllocatorMap::get_min",
          "sokoban::RedBlackTree::get_node", "sokoban::RedBlackTree::get_node_mut", "borsh::BorshDeserialize::try_from_slice",
          "spl_token::instruction::transfer", "spl_token::instruction::initialize_account3", "solana_program::system_instruction::transfer",
          "solana_program::system_instruction::allocate", "solana_program::system_instruction::assign", "solana_program::system_instruction::create_account",
          "solana_program::account_info::AccountInfo::data_len", "solana_program::account_info::AccountInfo::lamports",
          "solana_program::account_info::AccountInfo::data_is_empty", "solana_program::account_info::AccountInfo::try_data_len",
          "solana_program::account_info::AccountInfo::try_data_is_empty",
          "solana_program::sysvar::Sysvar::get", "solana_program::program_pack::Pack::unpack", 
          "solana_program::instruction::AccountMeta::new", "solana_program::instruction::AccountMeta::new_readonly",
          "core::num::<impl u64>::leading_zeros", "core::num::<impl u64>::trailing_zeros", "core::num::<impl u64>::from_le_bytes", "core::num::<impl u16>::to_le_bytes",
          "std::default::Default::default", "std::slice::<impl [T]>::concat", "core::str::<impl str>::as_bytes",
          "core::num::<impl u64>::pow", "core::num::<impl u64>::to_le_bytes",
          "core::num::<impl u64>::checked_add", "core::num::<impl u64>::checked_sub", "core::num::<impl u64>::checked_mul", "core::num::<impl u64>::checked_div",
          "core::num::<impl u64>::saturating_add", "core::num::<impl u64>::saturating_mul",
          "core::num::<impl u64>::wrapping_add", "core::num::<impl u64>::wrapping_sub", "core::num::<impl u64>::wrapping_mul",
          ):
    PURE.add(n)
PURE_RE.append(re.compile(r"^core::num::<impl"))


for _p in ("std::prelude::v1::", "std::option::Option::", "std::result::Result::", "core::option::Option::", "core::result::Result::"):
    M[_p + "Some"] = lambda e, st, ci: [(st, e.some(ci.args[0]))]
    M[_p + "Ok"] = lambda e, st, ci: [(st, e.ok(ci.args[0]))]
    M[_p + "Err"] = lambda e, st, ci: [(st, e.err(ci.args[0]))]


@model("std::any::type_name")
def type_name(e, st, ci):
    return [(st, e.vref(mk("typename", e.p.types[e.tsub(ci.fn["targs"][0], ci.tenv)]["s"])))]


def serialize(e, st, ci):
    """appending to a Vec cannot fail; other writers stay opaque"""
    w = ci.args[1]
    hops = 0
    while w.op == "ref" and e.rd(st, w).op == "ref" and hops < 3:
        w = e.rd(st, w)
        hops += 1
    v = e.rd(st, w)
    if v.op in ("array", "concat", "vecof", "drained") or is_vec_ty(e, ci.tys[1]):
        x = e.snapv(st, ci.args[0])
        e.wr(st, w, concat(v, mk("ser", x)))
        return [(st, e.ok(UNIT))]
    return None


def is_vec_ty(e, t):
    return e.p.types[e.p.deref_ty(t)].get("def", "").endswith("::Vec")


def concat(a, b):
    """byte/element sequence a ++ b; flattened list of chunks"""
    ca = a.a if a.op == "concat" else ((a,) if not (a.op == "array" and not a.a) else ())
    cb = b.a if b.op == "concat" else (b,)
    return mk("concat", *(ca + cb))


FIRST["borsh::BorshSerialize::serialize"] = serialize


@model("borsh::BorshSerialize::try_to_vec")
def try_to_vec(e, st, ci):
    return [(st, e.ok(mk("concat", mk("ser", e.snapv(st, ci.args[0])))))]


def write_all(e, st, ci):
    w = ci.args[0]
    hops = 0
    while w.op == "ref" and e.rd(st, w).op == "ref" and hops < 3:
        w = e.rd(st, w)
        hops += 1
    v = e.rd(st, w)
    if v.op in ("array", "concat", "vecof", "drained") or is_vec_ty(e, ci.tys[0]):
        e.wr(st, w, concat(v, e.snapv(st, ci.args[1])))
        return [(st, e.ok(UNIT))]
    return None


M["std::io::Write::write_all"] = write_all


# ---------------------------------------------------------------- Option / Result
def adt_of(e, ci, i):
    t = e.p.types[e.p.deref_ty(ci.tys[i])] if ci.tys else None
    return t["def"] if t and t["k"] == "adt" else None


@model("std::ops::Try::branch")
def try_branch(e, st, ci):
    v = ci.args[0]
    adt = adt_of(e, ci, 0)
    r = []
    for s, name, x in e.cases(st, v, adt):
        if name in ("Ok", "Some"):
            r.append((s, e.agg(e.CF, "Continue", project(x, name + ".0"))))
        elif name == "Err":
            r.append((s, e.agg(e.CF, "Break", e.agg(e.RES, "Err", project(x, "Err.0")))))
        else:
            r.append((s, e.agg(e.CF, "Break", e.agg(e.OPT, "None"))))
    return r


@model("std::ops::FromResidual::from_residual")
def from_residual(e, st, ci):
    return [(st, ci.args[0])]


@model("std::ops::Try::from_output")
def from_output(e, st, ci):
    t = e.p.types[ci.dty]
    if t.get("def") == e.OPT:
        return [(st, e.some(ci.args[0]))]
    return [(st, e.ok(ci.args[0]))]


def _optres(f):
    """model for a method on Option/Result: f(e, st, ci, variant, payload, wholevalue)"""
    def g(e, st, ci):
        v = ci.args[0]
        adt = adt_of(e, ci, 0) or (e.OPT if "option" in ci.path else e.RES)
        if v.op == "ref":
            v = e.rd(st, v)
        r = []
        for s, name, x in e.cases(st, v, adt):
            pay = project(x, name + ".0") if name != "None" else None
            o = f(e, s, ci, name, pay, x)
            r += o if isinstance(o, list) else [(s, o)]
        return r
    return g


GOOD = ("Some", "Ok")


def clos(e, s, ci, i, args):
    return e.call_closure(s, ci.args[i], args, ci)


def wrapok(e, ci, v, like):
    return e.some(v) if like == "Some" else e.ok(v)


O = "std::option::Option::"
R = "std::result::Result::"

M[O + "map"] = M[R + "map"] = _optres(lambda e, s, ci, n, p, x: [(t, wrapok(e, ci, v, n)) for t, v in clos(e, s, ci, 1, [p])] if n in GOOD else x)
M[O + "and_then"] = M[R + "and_then"] = _optres(lambda e, s, ci, n, p, x: clos(e, s, ci, 1, [p]) if n in GOOD else x)
M[R + "map_err"] = _optres(lambda e, s, ci, n, p, x: x if n == "Ok" else [(t, e.err(v)) for t, v in clos(e, s, ci, 1, [p])])
M[O + "ok_or"] = _optres(lambda e, s, ci, n, p, x: e.ok(p) if n == "Some" else e.err(ci.args[1]))
M[O + "ok_or_else"] = _optres(lambda e, s, ci, n, p, x: e.ok(p) if n == "Some" else [(t, e.err(v)) for t, v in clos(e, s, ci, 1, [])])
M[O + "unwrap_or"] = M[R + "unwrap_or"] = _optres(lambda e, s, ci, n, p, x: p if n in GOOD else ci.args[1])
M[O + "unwrap_or_else"] = _optres(lambda e, s, ci, n, p, x: p if n in GOOD else clos(e, s, ci, 1, []))
M[R + "unwrap_or_else"] = _optres(lambda e, s, ci, n, p, x: p if n in GOOD else clos(e, s, ci, 1, [p]))
M[O + "map_or"] = M[R + "map_or"] = _optres(lambda e, s, ci, n, p, x: clos(e, s, ci, 2, [p]) if n in GOOD else ci.args[1])
M[O + "map_or_else"] = _optres(lambda e, s, ci, n, p, x: clos(e, s, ci, 2, [p]) if n in GOOD else clos(e, s, ci, 1, []))
M[R + "map_or_else"] = _optres(lambda e, s, ci, n, p, x: clos(e, s, ci, 2, [p]) if n in GOOD else clos(e, s, ci, 1, [p]))
M[R + "ok"] = _optres(lambda e, s, ci, n, p, x: e.some(p) if n == "Ok" else e.none())
M[R + "err"] = _optres(lambda e, s, ci, n, p, x: e.some(p) if n == "Err" else e.none())
M[R + "or"] = M[O + "or"] = _optres(lambda e, s, ci, n, p, x: x if n in GOOD else ci.args[1])
M[O + "or_else"] = _optres(lambda e, s, ci, n, p, x: x if n in GOOD else clos(e, s, ci, 1, []))
M[R + "or_else"] = _optres(lambda e, s, ci, n, p, x: x if n in GOOD else clos(e, s, ci, 1, [p]))
M[O + "filter"] = _optres(lambda e, s, ci, n, p, x: _opt_filter(e, s, ci, p, x) if n == "Some" else x)
M[O + "and"] = M[R + "and"] = _optres(lambda e, s, ci, n, p, x: ci.args[1] if n in GOOD else x)
M[O + "copied"] = M[O + "cloned"] = _optres(lambda e, s, ci, n, p, x: e.some(e.rd(s, p)) if n == "Some" else x)
M[O + "unwrap_or_default"] = M[R + "unwrap_or_default"] = _optres(lambda e, s, ci, n, p, x: p if n in GOOD else default_of(e, ci.dty))
M[O + "flatten"] = _optres(lambda e, s, ci, n, p, x: p if n == "Some" else x)
M[O + "take"] = None
del M[O + "take"]


def _opt_filter(e, s, ci, p, x):
    r = []
    for t, v in clos(e, s, ci, 1, [e.vref(p)]):
        for u, k in e.split(t, v):
            r.append((u, x if k else e.none()))
    return r


@model(O + "unwrap", O + "expect", R + "unwrap", R + "expect")
def unwrap(e, st, ci):
    v = ci.args[0]
    adt = adt_of(e, ci, 0)
    r = []
    for s, name, x in e.cases(st, v, adt):
        if name in GOOD:
            r.append((s, project(x, name + ".0")))
        else:
            e.end("panic", s, None, ci.stack, ci.span)
    return r


def _is(names):
    def g(e, st, ci):
        v = e.rd(st, ci.args[0])
        adt = adt_of(e, ci, 0)
        if v.op == "agg":
            return [(st, TRUE if v.a[1] in names else FALSE)]
        d = e.discr(v, adt)
        vs = e.p.variants(adt)
        t = None
        s = frozenset(vs[n] for n in names)
        t = mk_in(d, s) if d.op != "ite" else mk_ite(d.a[0], mk_in(d.a[1], s), mk_in(d.a[2], s))
        return [(st, t)]
    return g


M[O + "is_some"] = _is(["Some"])
M[O + "is_none"] = _is(["None"])
M[R + "is_ok"] = _is(["Ok"])
M[R + "is_err"] = _is(["Err"])


@model(O + "is_some_and", R + "is_ok_and")
def is_some_and(e, st, ci):
    r = []
    for s, n, x in e.cases(st, ci.args[0], adt_of(e, ci, 0)):
        if n in GOOD:
            r += clos(e, s, ci, 1, [project(x, n + ".0")])
        else:
            r.append((s, FALSE))
    return r


@model(O + "as_ref", O + "as_mut", R + "as_ref", R + "as_mut", O + "as_deref", O + "as_deref_mut")
def as_ref(e, st, ci):
    p = ci.args[0]
    v = e.rd(st, p)
    adt = adt_of(e, ci, 0)
    r = []
    for s, n, x in e.cases(st, v, adt):
        if n == "None":
            r.append((s, x))
        elif n == "Err":
            r.append((s, e.err(e.ptr_proj(p, "Err.0"))))
        else:
            q = e.ptr_proj(p, n + ".0")
            r.append((s, wrapok(e, ci, q, n)))
    return r


def default_of(e, ty):
    t = e.p.types[ty]
    if t["k"] in ("uint", "int", "bool"):
        return I(0)
    if t["k"] == "adt":
        if t["def"] == e.OPT:
            return e.none()
        if t["def"] in e.p.newtypes:
            return I(0)
    if t["k"] == "tuple":
        return mk("tuple", *[default_of(e, x) for x in t["args"]])
    if t["k"] == "adt":
        v = default_impl(e.p, ty)
        if v is not None:
            return v
    return mk("call", "std::default::Default::default", 0, mk("tyname", t["s"]))


def default_impl(prog, ty):
    """the value of a local Default impl that is a plain constant"""
    c = prog.__dict__.setdefault("_defaults", {})
    if ty in c:
        return c[ty]
    c[ty] = None
    for t, d in prog.tm.get(("std::default::Default", "default"), []):
        if t == ty and d in prog.raw:
            from engine import explore
            eng, ends = explore(prog, d)
            if len(ends) == 1 and ends[0].kind == "ret" and not list(ends[0].events()):
                v = ends[0].ret
                if not any(x.op in ("call", "load", "arg", "ref") for x in walk(v)):
                    c[ty] = v
    return c[ty]


@model("std::default::Default::default")
def default(e, st, ci):
    return [(st, default_of(e, ci.dty))]


# ---------------------------------------------------------------- references, deref, conversions
def ident(e, st, ci):
    return [(st, ci.args[0])]


def read_arg(e, st, ci):
    return [(st, e.rd(st, ci.args[0]))]


# Ref/RefMut/Rc/Box/Vec/String values are represented by the pointer (or the contents) they hold
@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut")
def deref(e, st, ci):
    t = e.p.types[e.p.deref_ty(ci.tys[0])]
    d = t.get("def", "")
    if d.endswith("::Ref") or d.endswith("::RefMut"):
        return [(st, e.rd(st, ci.args[0]))]
    if d.endswith("::Rc") or d.endswith("::Box"):
        return [(st, e.rd(st, ci.args[0]))]
    # &mut T / &T
    if e.p.types[ci.tys[0]]["k"] == "ref" and e.p.types[e.p.types[ci.tys[0]]["t"]]["k"] == "ref":
        return [(st, e.rd(st, ci.args[0]))]
    # Vec, String: pointer to contents == pointer to the vec
    return [(st, ci.args[0])]


@model("std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice", "std::borrow::Borrow::borrow", "std::string::String::as_str", "std::boxed::Box::as_ref")
def as_slice(e, st, ci):
    return [(st, ci.args[0])]


@model("std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut")
def conv_as_ref(e, st, ci):
    t = e.p.types[e.p.deref_ty(ci.tys[0])]
    d = t.get("def", "")
    if d.endswith("::AccountInfo") or d.endswith("::Vec"):
        return [(st, ci.args[0])]
    if d.endswith("::Pubkey") or d.endswith("::Hash"):
        return [(st, e.vref(mk("bytes_of", e.rd(st, ci.args[0]))))]
    return [(st, ci.args[0])]


@model("solana_program::pubkey::Pubkey::to_bytes")
def pk_bytes(e, st, ci):
    v = ci.args[0]                                       # by value; by reference in other versions of the library
    return [(st, mk("bytes_of", e.rd(st, v) if e.p.types[ci.tys[0]]["k"] in ("ref", "ptr") else v))]


@model("solana_program::pubkey::Pubkey::new_from_array", "solana_program::pubkey::Pubkey::new")
def pk_new(e, st, ci):
    v = ci.args[0]
    if v.op == "ref":
        v = e.rd(st, v)
    return [(st, v.a[0] if v.op == "bytes_of" else mk("pubkey_of", v))]


@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::slice::<impl [T]>::to_vec", "core::slice::<impl>::to_vec", "std::slice::<impl>::to_vec")
def clone(e, st, ci):
    return [(st, e.rd(st, ci.args[0]))]


@model("std::convert::Into::into", "std::convert::From::from")
def into(e, st, ci):
    # try a local From impl for (dest, src)
    src, dst = e.p.types[ci.tys[0]], e.p.types[ci.dty]
    for sid, d in e.p.tm.get(("std::convert::From", "from"), []):
        if e.p.types[sid]["s"] == dst["s"]:
            b = e.p.body(d)
            if e.p.types[b.locals[1]]["s"] == src["s"] or (e.p.types[b.locals[1]].get("def") and e.p.types[b.locals[1]].get("def") == src.get("def")):
                e.inlined.add(d)
                return e.run_body(st, b, ci.args, ci.stack, ci.depth + 1)
    if src["k"] in ("uint", "int", "bool") and dst["k"] in ("uint", "int"):
        return [(st, ci.args[0])]
    if src["s"] == dst["s"]:
        return [(st, ci.args[0])]
    return [(st, mk("into", ci.args[0]))]


@model("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def try_from(e, st, ci):
    fn = ci.fn
    src = e.p.types[ci.tys[0]]
    if src["k"] in ("uint", "int"):
        t = ci.args[0]
        res = mk("call", "try_from_int", 0, t)
        r = []
        for s, n, x in e.cases(st, res, e.RES):
            r.append((s, e.ok(t) if n == "Ok" else e.err(mk("field", res, "Err.0"))))
        return r
    res = mk("call", "try_into", 0, e.snapv(st, ci.args[0]))
    return [(st, res)]


# Rc/RefCell of AccountInfo: data borrow. The RefCell's content is the pseudo field "cell".
@model("std::cell::RefCell::borrow", "std::cell::RefCell::borrow_mut")
def rc_borrow(e, st, ci):
    return [(st, e.ptr_proj(ci.args[0], "cell"))]


@model("std::cell::RefCell::try_borrow", "std::cell::RefCell::try_borrow_mut")
def rc_try_borrow(e, st, ci):
    return [(st, e.ok(e.ptr_proj(ci.args[0], "cell")))]


def acct_cell(which):
    def g(e, st, ci):
        rc = e.rd(st, e.ptr_proj(ci.args[0], which))
        return [(st, e.ok(e.ptr_proj(rc, "cell")))]
    return g


AI = "solana_program::account_info::AccountInfo::"
M[AI + "try_borrow_data"] = M[AI + "try_borrow_mut_data"] = acct_cell("data")
M[AI + "try_borrow_lamports"] = M[AI + "try_borrow_mut_lamports"] = acct_cell("lamports")


@model("std::cell::Ref::map", "std::cell::RefMut::map")
def ref_map(e, st, ci):
    return clos(e, st, ci, 1, [ci.args[0]])


@model(AI + "lamports", AI + "data_len", AI + "data_is_empty")
def acct_val(e, st, ci):
    which = "lamports" if ci.path.endswith("lamports") else "data"
    rc = e.rd(st, e.ptr_proj(ci.args[0], which))
    p = e.rd(st, e.ptr_proj(rc, "cell"))
    v = e.rd(st, p)
    if which == "lamports":
        return [(st, v)]
    ln = length(e, st, v)
    return [(st, ln if ci.path.endswith("len") else mk_eq(ln, I(0)))]


# ---------------------------------------------------------------- slices / vec
def length(e, st, v):
    if v.op == "array":
        return I(len(v.a))
    if v.op == "bytes":
        return I(len(v.a[0]))
    if v.op == "str":
        return I(len(v.a[0]))
    if v.op == "vecof":
        if not v.a[1]:
            return I(0)
        return mk("len", v)
    if v.op == "field" and isinstance(v.a[1], tuple) and v.a[1][0] == "sub":
        lo, hi = v.a[1][1], v.a[1][2]
        if hi is not None and not isinstance(hi, tuple):
            return arith("Sub", _i(hi), _i(lo))
        return arith("Sub", length(e, st, v.a[0]), _i(lo))
    if v.op == "upd":
        return length(e, st, v.a[0])
    if v.op == "load" and False:
        pass
    return mk("len", v)


def _i(x):
    return x if x.__class__ is T else I(x)


@model("std::vec::Vec::len", "core::slice::<impl>::len", "core::slice::<impl [T]>::len", "core::str::<impl str>::len")
def vlen(e, st, ci):
    return [(st, length(e, st, e.rd(st, ci.args[0])))]


@model("std::vec::Vec::is_empty", "core::slice::<impl>::is_empty", "core::slice::<impl [T]>::is_empty")
def vis_empty(e, st, ci):
    v = e.rd(st, ci.args[0])
    return [(st, mk_eq(length(e, st, v), I(0)))]


# vecof(base, ((elem, ...)), facts?)  unordered abstraction;  array(...) exact contents
@model("std::vec::Vec::new", "std::vec::Vec::with_capacity")
def vnew(e, st, ci):
    return [(st, mk("array"))]


@model("std::vec::Vec::push")
def vpush(e, st, ci):
    p = ci.args[0]
    v = e.rd(st, p)
    x = ci.args[1]
    e.wr(st, p, vec_push(v, x))
    from engine import Event
    if x.op == "load" and x.a[0].op == "elemkey" or v.op == "vecof":
        # an order of a book is picked out, or a list is filled by a loop
        st.ev = (st.ev, Event(name="push", site=ci.site, span=ci.span, vals=[x], facts=st.facts, stack=ci.stack))
    return [(st, UNIT)]


def vec_push(v, x):
    if v.op == "array" and len(v.a) < 64:
        return mk("array", *(v.a + (x,)))
    if v.op == "vecof":
        return mk("vecof", v.a[0], v.a[1] + (x,), None)
    if v.op == "ite":
        return mk_ite(v.a[0], vec_push(v.a[1], x), vec_push(v.a[2], x))
    return mk("vecof", v, (x,), None)


def generalise(e, x, y):
    """loop join of a growing vector / advancing iterator: returns a stable abstraction or None"""
    if is_iter(x) and is_iter(y):
        if x.op == "iter" and y.op == "iter":
            bx, by = x.a[0], y.a[0]
            if bx is by:
                # a loop that starts past the first element keeps that in its position
                i = x.a[1]
                return mk("iter", bx, i if i.op == "any" else mk("any") if i is I(0) else mk("any", i), x.a[2])
        return None
    return None


def is_option(e, y, ty):
    if y.op == "agg":
        return y.a[0] == e.OPT
    t = e.p.types[ty] if ty is not None else {}
    return t.get("def") == e.OPT


@model("std::vec::Vec::extend_from_slice", "std::iter::Extend::extend")
def vextend(e, st, ci):
    p = ci.args[0]
    v = e.rd(st, p)
    y = ci.args[1]
    if y.op == "ref":
        y = e.rd(st, y)
    if is_iter(y):
        if y.a[1] is I(0) and all(k in ("cloned", "copied") for k, _ in y.a[2]) and y.a[0].op in ("slice_src", "vec_src"):
            # a sequence taken over as it is
            y = e.rd(st, y.a[0].a[0]) if y.a[0].op == "slice_src" else y.a[0].a[0]
        elif e.p.types[e.p.deref_ty(ci.tys[0])].get("def", "").endswith("Vec"):
            ci2 = e._ci(ci, [y])
            ci2.dty = e.p.deref_ty(ci.tys[0])
            full = it_collect(e, st, ci2)
            if full is not None:
                for s, x in full:
                    if v.op == "array" and not v.a:
                        e.wr(s, p, x)
                    elif v.op == "array" and x.op == "array":
                        e.wr(s, p, mk("array", *(v.a + x.a)))
                    else:
                        e.wr(s, p, concat(v, x))
                return [(s, UNIT) for s, _ in full]
    if is_option(e, y, ci.tys[1] if len(ci.tys) > 1 else None):
        out = []
        for s, n, x in e.cases(st, y, e.OPT):
            if n == "Some":
                e.wr(s, p, vec_push(v, project(x, "Some.0")))
            out.append((s, UNIT))
        return out
    if v.op == "array" and y.op == "array":
        e.wr(st, p, mk("array", *(v.a + y.a)))
    else:
        e.wr(st, p, concat(v, y))
    return [(st, UNIT)]


@model("std::vec::Vec::append")
def vappend(e, st, ci):
    r = vextend(e, st, ci)
    for s, _ in r:
        e.wr(s, ci.args[1], mk("array"))
    return r


@model("std::vec::Vec::drain")
def vdrain(e, st, ci):
    p = ci.args[0]
    v = e.rd(st, p)
    if rng(e, ci.args[1]) == (0, None):
        e.wr(st, p, mk("array"))
        return [(st, mk_iter(mk("vec_src", v)))]
    e.wr(st, p, mk("drained", v, ci.args[1]))
    return [(st, mk("call", "drain", 0, v, ci.args[1]))]


@model("std::vec::Vec::truncate")
def vtruncate(e, st, ci):
    p = ci.args[0]
    v = e.rd(st, p)
    n = ci.args[1]
    if v.op == "array" and is_int(n):
        e.wr(st, p, mk("array", *v.a[:n.a[0]]))
    else:
        def cut(v):
            if v.op == "ite":
                return mk("ite", v.a[0], cut(v.a[1]), cut(v.a[2]))
            if v.op == "vecof" and len(v.a) > 4:
                return mk("vecof", *v.a[:4], v.a[4] + (("take", n),))
            return mk("truncated", v, n)
        e.wr(st, p, mk("array") if n is I(0) else cut(v))
    return [(st, UNIT)]


@model("std::vec::Vec::clear")
def vclear(e, st, ci):
    e.wr(st, ci.args[0], mk("array"))
    return [(st, UNIT)]


def _reorder(how):
    def g(e, st, ci):
        """the same elements in another order"""
        p = ci.args[0]
        v = e.rd(st, p)
        if v.op == "array" and len(v.a) < 2:
            return [(st, UNIT)]
        if v.op != "vecof":
            ci2 = e._ci(ci, [mk("iter", mk("slice_src", e.vref(v)), I(0), ((how, None),))])
            t = e.p.types[e.p.deref_ty(ci.tys[0])]
            ci2.dty = e.p.deref_ty(ci.tys[0])
            e.quiet += 1
            try:
                alts = nexts(e, st.copy(), mk("iter", mk("slice_src", e.vref(v)), mk("any"), ((how, None),)), ci)
            finally:
                e.quiet -= 1
            els, facts = [], []
            for s, x, _ in alts:
                if x is not None:
                    els.append(e.rd(s, x) if x.op == "ref" else x)
                    facts.append(tuple((k, w) for k, w in s.facts.items() if st.facts.get(k) != w))
            new = mk("vecof", mk("slice_src", e.vref(v)), tuple(els), tuple(facts), (), ((how, None),))
        else:
            new = mk("vecof", *(v.a[:4] + ((v.a[4] if len(v.a) > 4 else ()) + ((how, None),),))) if len(v.a) > 3 else v
        if len(ci.args) > 1:
            from engine import Limit
            n = 1 if how == "sorted_key" else 2
            for x in new.a[1]:
                e.quiet += 1
                try:
                    for s, _ in e.call_closure(st.copy(), ci.args[1], [e.vref(x)] * n, ci):
                        no_effect(e, st, s, ci)
                finally:
                    e.quiet -= 1
        e.wr(st, p, new)
        return [(st, UNIT)]
    return g


for _t in ("std::slice::<impl [T]>::", "core::slice::<impl [T]>::", "alloc::slice::<impl [T]>::", "std::slice::<impl>::", "core::slice::<impl>::", "alloc::slice::<impl>::"):
    for _n, _h in (("sort_by", "sorted"), ("sort_unstable_by", "sorted"), ("sort_by_key", "sorted_key"), ("sort_unstable_by_key", "sorted_key"), ("sort_by_cached_key", "sorted_key"),
                   ("sort", "sorted"), ("sort_unstable", "sorted"), ("reverse", "reversed")):
        M[_t + _n] = _reorder(_h)


@model("std::vec::Vec::pop")
def vpop(e, st, ci):
    p = ci.args[0]
    v = e.rd(st, p)
    if v.op == "array":
        if not v.a:
            return [(st, e.none())]
        e.wr(st, p, mk("array", *v.a[:-1]))
        return [(st, e.some(v.a[-1]))]
    r = mk("call", "pop", 0, v)
    if v.op != "vecof":
        e.wr(st, p, mk("popped", v))
    out = []
    for s, n, x in e.cases(st, r, e.OPT):
        if n == "None":
            out.append((s, e.none()))
        elif v.op == "vecof":
            for z in v.a[1]:
                out.append((s.copy(), e.some(z)))
        else:
            out.append((s, e.some(mk("elem", v, "pop"))))
    return out


@model("std::boxed::Box::new")
def box_new(e, st, ci):
    e.nfid += 1
    r = ("K", e.nfid)
    st.store[r] = ci.args[0]
    return [(st, mk("ref", r, ()))]


@model("std::boxed::Box::new_uninit")
def box_new_uninit(e, st, ci):
    e.nfid += 1
    r = ("K", e.nfid)
    st.store[r] = mk("undef", "box")
    return [(st, mk("ref", r, ()))]


@model("std::boxed::box_assume_init_into_vec_unsafe")
def box_into_vec(e, st, ci):
    return [(st, _uninit(e.rd(st, ci.args[0])))]


def _uninit(v):
    # peel MaybeUninit { value: ManuallyDrop { value } }
    for _ in range(6):
        if v.op == "upd" and len(v.a[1]) == 1 and v.a[1][0][0] in ("value", "uninit"):
            v = v.a[1][0][1]
        elif v.op == "agg" and len(v.a) == 4 and v.a[2][0] in ("value", "uninit", "0"):
            v = v.a[3]
        elif v.op == "upd" and len(v.a[1]) == 1:
            v = v.a[1][0][1]
        else:
            break
    return v


@model("std::slice::<impl [T]>::into_vec", "alloc::slice::<impl [T]>::into_vec")
def slice_into_vec(e, st, ci):
    return [(st, e.rd(st, ci.args[0]) if ci.args[0].op == "ref" else ci.args[0])]


def rng(e, v):
    """(lo, hi) from a Range* aggregate"""
    if v.op == "agg":
        n = v.a[0].rsplit("::", 1)[-1]
        f = dict(zip(v.a[2], v.a[3:]))
        if n == "RangeTo":
            return 0, _k(f["end"])
        if n == "RangeFrom":
            return _k(f["start"]), None
        if n == "Range":
            return _k(f["start"]), _k(f["end"])
        if n == "RangeFull":
            return 0, None
    return None


def _k(t):
    return t.a[0] if is_int(t) else t


def slice_ptr(e, p, lo, hi):
    """pointer to p[lo..hi]; nested slices are flattened"""
    if p.op == "ref" and p.a[1] and isinstance(p.a[1][-1], tuple) and p.a[1][-1][0] == "sub":
        b = p.a[1][-1]
        base = e.ref(p.a[0], p.a[1][:-1])
        nlo = _k(arith("Add", _i(b[1]), _i(lo)))
        nhi = b[2] if hi is None else _k(arith("Add", _i(b[1]), _i(hi)))
        return slice_ptr(e, base, nlo, nhi)
    if lo == 0 and hi is None:
        return p
    return e.ptr_proj(p, ("sub", lo, hi))


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def index(e, st, ci):
    p, i = ci.args
    r = rng(e, i)
    if r is not None:
        return [(st, slice_ptr(e, p, *r))]
    return [(st, elem_ptr(e, p, i))]


def elem_ptr(e, p, i):
    if p.op == "ref" and p.a[1] and isinstance(p.a[1][-1], tuple) and p.a[1][-1][0] == "sub":
        b = p.a[1][-1]
        return elem_ptr(e, e.ref(p.a[0], p.a[1][:-1]), arith("Add", _i(b[1]), i))
    return e.ptr_proj(p, ("#", i))


@model("core::slice::<impl>::split_at", "core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut")
def split_at(e, st, ci):
    p, n = ci.args
    return [(st, mk("tuple", slice_ptr(e, p, 0, _k(n)), slice_ptr(e, p, _k(n), None)))]


@model("core::slice::<impl [T]>::split_first")
def split_first(e, st, ci):
    p = ci.args[0]
    d = mk("call", "split_first", 0, p)
    r = []
    for s, n, x in e.cases(st, d, e.OPT):
        if n == "None":
            r.append((s, e.none()))
        else:
            r.append((s, e.some(mk("tuple", elem_ptr(e, p, I(0)), slice_ptr(e, p, 1, None)))))
    return r


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut", "core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last")
def slice_get(e, st, ci):
    p = ci.args[0]
    i = ci.args[1] if len(ci.args) > 1 else (I(0) if ci.path.endswith("first") else mk("last", p))
    r = rng(e, i)
    q = slice_ptr(e, p, *r) if r else elem_ptr(e, p, i)
    d = mk("call", "slice_get", 0, q) if r is None and is_int(i) else mk("call", "slice_get", 0, p, i)
    out = []
    for s, n, x in e.cases(st, d, e.OPT):
        out.append((s, e.none() if n == "None" else e.some(q)))
    return out


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def copy_from_slice(e, st, ci):
    e.wr(st, ci.args[0], e.rd(st, ci.args[1]))
    return [(st, UNIT)]


@model("sokoban::ZeroCopy::load_bytes", "sokoban::ZeroCopy::load_mut_bytes")
def load_bytes(e, st, ci):
    # Some(&T) if long enough and aligned
    t = e.p.types[ci.dty]
    inner = e.p.types[e.tsub(e.p.types[t["args"][0]]["t"], ci.tenv)]["s"]
    p = ci.args[0]
    d = mk("call", "load_bytes", 0, p, mk("tyname", inner))
    r = []
    for s, n, x in e.cases(st, d, e.OPT):
        r.append((s, e.none() if n == "None" else e.some(e.ptr_proj(p, ("cast", inner)))))
    return r


@model("bytemuck::bytes_of", "bytemuck::bytes_of_mut")
def bytes_of(e, st, ci):
    return [(st, e.vref(mk("bytes_of", e.rd(st, ci.args[0]))))]


# ---------------------------------------------------------------- comparisons
def strip_refs(e, st, v, ty):
    t = e.p.types[ty]
    while t["k"] == "ref":
        v = e.rd(st, v)
        ty = t["t"]
        t = e.p.types[ty]
    return v, ty


def eq_vals(e, st, a, b, ty):
    """equality of two values of type ty -> term"""
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "agg" and y.op != "agg":
            ad = e.p.adts.get(x.a[0])
            if ad and ad["kind"] == "enum":
                t = mk_eq(e.discr(y, x.a[0]), I(e.p.variants(x.a[0])[x.a[1]]))
                if e.discr(y, x.a[0]).op == "discr":
                    t = mk_in(e.discr(y, x.a[0]), [e.p.variants(x.a[0])[x.a[1]]])
                for n, f in zip(x.a[2], x.a[3:]):
                    t = mk_and(t, eq_vals(e, st, f, project(y, n), None))
                return t
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        t = TRUE
        for n, x, y in zip(a.a[2], a.a[3:], b.a[3:]):
            t = mk_and(t, eq_vals(e, st, x, y, None))
        return t
    if a.op == "tuple" and b.op == "tuple":
        t = TRUE
        for x, y in zip(a.a, b.a):
            t = mk_and(t, eq_vals(e, st, x, y, None))
        return t
    if a.op == "cmp" or b.op == "cmp":
        return mk_eq(e.discr(a, "core::cmp::Ordering"), e.discr(b, "core::cmp::Ordering"))
    return mk_eq(norm_bytes(a), norm_bytes(b))


def norm_bytes(v):
    return v


@model("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def partial_eq(e, st, ci):
    neg = ci.fn["name"] == "ne"
    a, ta = strip_refs(e, st, ci.args[0], ci.tys[0])
    b, tb = strip_refs(e, st, ci.args[1], ci.tys[1])
    t = e.p.types[ta]
    rs = None
    if t["k"] == "adt" and t["def"] not in e.p.newtypes:
        for sid, d in e.p.tm.get(("std::cmp::PartialEq", "eq"), []):
            if e.p.types[sid].get("def") == t["def"]:
                bd = e.p.body(d)
                e.inlined.add(d)
                rs = e.run_body(st, bd, [e.vref(a), e.vref(b)], ci.stack, ci.depth + 1)
                break
    if rs is None:
        rs = [(st, eq_vals(e, st, a, b, ta))]
    return [(s, mk_not(v) if neg else v) for s, v in rs]


def cmp_terms(e, st, ci):
    """-> [(state, ordering term)] for args[0].cmp(args[1])"""
    a, ta = strip_refs(e, st, ci.args[0], ci.tys[0])
    b, tb = strip_refs(e, st, ci.args[1], ci.tys[1])
    t = e.p.types[ta]
    if t["k"] == "adt" and t["def"] not in e.p.newtypes:
        for tr, m in (("std::cmp::PartialOrd", "partial_cmp"), ("std::cmp::Ord", "cmp")):
            for sid, d in e.p.tm.get((tr, m), []):
                if e.p.types[sid].get("def") == t["def"]:
                    bd = e.p.body(d)
                    e.inlined.add(d)
                    rs = e.run_body(st, bd, [e.vref(a), e.vref(b)], ci.stack, ci.depth + 1)
                    if m == "partial_cmp":
                        out = []
                        for s, v in rs:
                            for s2, n, x in e.cases(s, v, e.OPT):
                                if n == "Some":
                                    out.append((s2, project(x, "Some.0")))
                        return out
                    return rs
    if t["k"] == "adt" and t["def"] in e.p.newtypes:
        # hand-written orderings on wrappers would be picked up here
        for sid, d in e.p.tm.get(("std::cmp::PartialOrd", "partial_cmp"), []):
            if e.p.types[sid].get("def") == t["def"] and not e.p.raw[d]["from_exp"]:
                bd = e.p.body(d)
                rs = e.run_body(st, bd, [e.vref(a), e.vref(b)], ci.stack, ci.depth + 1)
                return [(s, project(v, "Some.0")) for s, v in rs]
    if is_int(a) and is_int(b):
        return [(st, mk("cmp", a, b))]
    return [(st, mk("cmp", a, b))]


def ordis(e, o, vals):
    """boolean term: ordering term o in vals (subset of {-1,0,1})"""
    if o.op == "cmp":
        a, b = o.a
        lt, gt = mk_lt(a, b), mk_lt(b, a)
        s = frozenset(vals)
        return {frozenset([-1]): lt, frozenset([1]): gt, frozenset([0]): mk_eq(a, b), frozenset([-1, 0]): mk_not(gt), frozenset([0, 1]): mk_not(lt), frozenset([-1, 1]): mk_not(mk_eq(a, b))}[s]
    if o.op == "ite":
        return mk_ite(o.a[0], ordis(e, o.a[1], vals), ordis(e, o.a[2], vals))
    if o.op == "agg":
        v = {"Less": -1, "Equal": 0, "Greater": 1}[o.a[1]]
        return TRUE if v in vals else FALSE
    if o.op == "reverse":
        return ordis(e, o.a[0], [-x for x in vals])
    return mk_in(mk("discr", o, "core::cmp::Ordering"), vals)


def _cmpop(vals):
    def g(e, st, ci):
        return [(s, ordis(e, o, vals)) for s, o in cmp_terms(e, st, ci)]
    return g


M["std::cmp::PartialOrd::lt"] = _cmpop([-1])
M["std::cmp::PartialOrd::le"] = _cmpop([-1, 0])
M["std::cmp::PartialOrd::gt"] = _cmpop([1])
M["std::cmp::PartialOrd::ge"] = _cmpop([0, 1])


@model("std::cmp::Ord::cmp")
def ord_cmp(e, st, ci):
    return cmp_terms(e, st, ci)


@model("std::cmp::PartialOrd::partial_cmp")
def ord_pcmp(e, st, ci):
    return [(s, e.some(o)) for s, o in cmp_terms(e, st, ci)]


@model("std::cmp::Ordering::reverse")
def ord_rev(e, st, ci):
    return [(st, ord_reverse(ci.args[0]))]


def ord_reverse(o):
    if o.op == "cmp":
        return mk("cmp", o.a[1], o.a[0])
    if o.op == "ite":
        return mk_ite(o.a[0], ord_reverse(o.a[1]), ord_reverse(o.a[2]))
    return mk("reverse", o)


@model("std::cmp::Ordering::then_with")
def ord_then(e, st, ci):
    o = ci.args[0]
    r = []
    for s, k in e.split(st, ordis(e, o, [0])):
        if k:
            r += clos(e, s, ci, 1, [])
        else:
            r.append((s, o))
    return r


def _minmax(which):
    def g(e, st, ci):
        a, b = ci.args
        t = e.p.types[ci.tys[0]] if ci.tys else {"k": "uint"}
        r = []
        if t["k"] in ("uint", "int") or (t["k"] == "adt" and t["def"] in e.p.newtypes):
            if is_int(a) and is_int(b):
                f = min if which == "min" else max
                return [(st, I(f(a.a[0], b.a[0])))]
            k = e.truth(st, mk_lt(a, b))
            k2 = e.truth(st, mk_lt(b, a))
            if k == 1 or k2 == 0:
                return [(st, a if which == "min" else b)]
            if k == 0 or k2 == 1:
                return [(st, b if which == "min" else a)]
            return [(st, a if a is b else mk(which, *srt(a, b)))]
        ci2 = e._ci(ci, [e.vref(a), e.vref(b)])
        ci2.tys = []
        return [(st, mk(which, *srt(a, b)))]
    return g


M["std::cmp::Ord::min"] = M["std::cmp::min"] = _minmax("min")
M["std::cmp::Ord::max"] = M["std::cmp::max"] = _minmax("max")


def _ssub(e, st, ci):
    a, b = ci.args
    if is_int(b) and b.a[0] == 0:
        return [(st, a)]
    if a is b:
        return [(st, I(0))]
    if is_int(a) and is_int(b):
        return [(st, I(max(0, a.a[0] - b.a[0])))]
    k = e.truth(st, mk_lt(a, b))
    if k == 0:
        return [(st, arith("Sub", a, b))]
    if k == 1:
        return [(st, I(0))]
    return [(st, mk("ssub", a, b))]


M["core::num::<impl>::saturating_sub"] = _ssub


def _chk(op):
    def g(e, st, ci):
        a, b = ci.args
        d = mk("call", "checked_" + op, 0, a, b)
        if op == "Sub":
            r = []
            for s, k in e.split(st, mk_lt(a, b)):
                r.append((s, e.none() if k else e.some(arith("Sub", a, b))))
            return r
        r = []
        for s, n, x in e.cases(st, d, e.OPT):
            r.append((s, e.none() if n == "None" else e.some(arith(op, a, b))))
        return r
    return g


for _n, _o in (("add", "Add"), ("sub", "Sub"), ("mul", "Mul"), ("div", "Div"), ("rem", "Rem")):
    M["core::num::<impl>::checked_" + _n] = _chk(_o)


@model("std::intrinsics::discriminant_value", "core::intrinsics::discriminant_value", "std::mem::discriminant")
def discriminant_value(e, st, ci):
    v = e.rd(st, ci.args[0])
    t = e.p.types[e.p.deref_ty(ci.tys[0])]
    return [(st, e.discr(v, t.get("def", t["s"])))]


def _arith2(op):
    def g(e, st, ci):
        a, _ = strip_refs(e, st, ci.args[0], ci.tys[0])
        b, _ = strip_refs(e, st, ci.args[1], ci.tys[1])
        return [(st, arith(op, a, b))]
    return g


for _n, _o in (("Add::add", "Add"), ("Sub::sub", "Sub"), ("Mul::mul", "Mul"), ("Div::div", "Div"), ("Rem::rem", "Rem")):
    M["std::ops::" + _n] = _arith2(_o)


def _arith_assign(op):
    def g(e, st, ci):
        b, _ = strip_refs(e, st, ci.args[1], ci.tys[1])
        e.wr(st, ci.args[0], arith(op, e.rd(st, ci.args[0]), b))
        return [(st, UNIT)]
    return g


for _n, _o in (("AddAssign::add_assign", "Add"), ("SubAssign::sub_assign", "Sub"), ("MulAssign::mul_assign", "Mul")):
    M["std::ops::" + _n] = _arith_assign(_o)


# ---------------------------------------------------------------- mem
@model("std::mem::swap")
def mem_swap(e, st, ci):
    a, b = ci.args
    va, vb = e.rd(st, a), e.rd(st, b)
    e.wr(st, a, vb)
    e.wr(st, b, va)
    return [(st, UNIT)]


@model("std::mem::replace")
def mem_replace(e, st, ci):
    v = e.rd(st, ci.args[0])
    e.wr(st, ci.args[0], ci.args[1])
    return [(st, v)]


@model("std::mem::take", "std::option::Option::take")
def mem_take(e, st, ci):
    v = e.rd(st, ci.args[0])
    t = e.p.types[ci.dty]
    e.wr(st, ci.args[0], default_of(e, ci.dty) if not t.get("def", "").endswith("Vec") else mk("array"))
    return [(st, v)]


@model("std::mem::size_of")
def size_of(e, st, ci):
    t = e.p.types[e.tsub(ci.fn["targs"][0], ci.tenv)]
    if t["k"] == "uint":
        return [(st, I(t["bits"] // 8))]
    if "size" in t:
        return [(st, I(t["size"]))]
    return [(st, mk("call", "std::mem::size_of", 0, mk("tyname", t["s"])))]


# ---------------------------------------------------------------- accounts iterator
@model("solana_program::account_info::next_account_info")
def next_account_info(e, st, ci):
    p = ci.args[0]
    it = e.rd(st, p)
    # may be wrapped (&mut &mut iter)
    hops = 0
    while it.op == "ref" and hops < 3:
        p = it
        it = e.rd(st, p)
        hops += 1
    if it.op == "iter" and it.a[0].op == "slice_src" and is_int(it.a[1]):
        src, k = it.a[0].a[0], it.a[1].a[0]
        el = elem_ptr(e, src, I(k))
        e.wr(st, p, mk("iter", it.a[0], I(k + 1), it.a[2]))
        d = mk("call", "has_account", 0, el)
        r = []
        for s, n, x in e.cases(st, d, e.RES):
            r.append((s, e.ok(el) if n == "Ok" else e.err(mk("str", "NotEnoughAccountKeys"))))
        return r
    return None


# ---------------------------------------------------------------- iterators
# iter(src, pos, stages): src in slice_src(ptr) | range(lo,hi) | opaque(term) | vec(value)
# stages: tuple of ("map"/"filter"/..., closure)
def is_iter(t):
    return t.op == "iter"


def mk_iter(src, stages=()):
    return mk("iter", src, I(0), tuple(stages))


@model("core::slice::<impl>::iter", "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut")
def slice_iter(e, st, ci):
    return [(st, mk_iter(mk("slice_src", ci.args[0])))]


@model("sokoban::NodeAllocatorMap::iter", "sokoban::NodeAllocatorMap::iter_mut", "sokoban::NodeAllocatorMap::inorder_iter")
def tree_iter(e, st, ci):
    return [(st, mk_iter(mk("tree_src", ci.args[0] if ci.args[0].op != "ref" else mk("at", e.rd(st, ci.args[0])))))]


@model("std::iter::IntoIterator::into_iter")
def into_iter(e, st, ci):
    return as_iter(e, st, ci.args[0], ci.tys[0])


def as_iter(e, st, v, ty):
    if is_iter(v):
        return [(st, v)]
    t = e.p.types[ty]
    if t["k"] == "ref":
        inner = e.p.types[t["t"]]
        if inner.get("def", "").endswith("RedBlackTree"):
            return [(st, mk_iter(mk("tree_src", mk("at", e.rd(st, v)))))]
        x = e.rd(st, v)
        if is_iter(x):
            return [(st, v)]
        return [(st, mk_iter(mk("slice_src", v)))]
    if v.op == "agg" and v.a[0].endswith("Range"):
        return [(st, mk_iter(v))]
    if t["k"] in ("array",) or t.get("def", "").endswith("Vec"):
        return [(st, mk_iter(mk("vec_src", v)))]
    if t.get("def", "").endswith("::Option"):
        return [(st, mk_iter(mk("vec_src", v)))]
    return [(st, mk_iter(mk("opq_src", v)))]


def _adapter(kind):
    def g(e, st, ci):
        it = ci.args[0]
        if it.op == "agg" and it.a[0].endswith("Range"):
            it = mk_iter(it)
        if not is_iter(it):
            if it.op == "ref" and is_iter(e.rd(st, it)):
                it = e.rd(st, it)
            else:
                it = mk_iter(mk("opq_src", it))
        arg = ci.args[1] if len(ci.args) > 1 else None
        if kind == "chain":
            # the elements of one, then those of the other
            return [(s, mk_iter(mk("chain_src", it, o))) for s, o in as_iter(e, st, arg, ci.tys[1])]
        return [(st, mk("iter", it.a[0], it.a[1], it.a[2] + ((kind, arg),)))]
    return g


IT = "std::iter::Iterator::"
for _k2 in ("map", "filter", "filter_map", "take_while", "skip_while", "flat_map", "inspect", "map_while"):
    M[IT + _k2] = _adapter(_k2)
for _k2 in ("take", "skip", "enumerate", "rev", "peekable", "chain", "zip", "cloned", "copied", "by_ref", "fuse", "step_by"):
    M[IT + _k2] = _adapter(_k2)



@model("std::iter::once")
def iter_once(e, st, ci):
    return [(st, mk_iter(mk("vec_src", mk("array", ci.args[0]))))]


@model("std::iter::empty")
def iter_empty(e, st, ci):
    return [(st, mk_iter(mk("vec_src", mk("array"))))]


M["itertools::Itertools::sorted_by"] = _adapter("sorted")
M["itertools::Itertools::sorted"] = _adapter("sorted")
M["itertools::Itertools::group_by"] = _adapter("grouped")
M["itertools::Itertools::chunk_by"] = _adapter("grouped")


def part_of(e, ci, n):
    """the place of the n-th of several sequences consumed at one call"""
    c = e._ci(ci, ci.args)
    c.stack = ci.stack + (("", "part %d" % n, ""),)
    c.site = e.site(c.stack, ci.site)
    return c


def base_elems(e, st, it, ci):
    """[(state, Option payload or None for exhausted, new iter)]"""
    site = ci.site
    src, pos = it.a[0], it.a[1]
    out = []
    if src.op == "chain_src":
        known = is_int(pos) and all(of_array(e, st, x) for x in src.a)
        a, b = [x if known else mk("iter", x.a[0], mk("any"), x.a[2]) for x in src.a]
        for s, v, a2 in nexts(e, st, a, part_of(e, ci, 1)):
            if v is not None:
                out.append((s, v, mk("iter", mk("chain_src", a2, b), I(pos.a[0] + 1), it.a[2]) if known else mk("iter", src, mk("any"), it.a[2])))
                continue
            for s2, v2, b2 in nexts(e, s, b, part_of(e, ci, 2)):
                out.append((s2, v2, mk("iter", mk("chain_src", a2, b2), I(pos.a[0] + 1), it.a[2]) if known else mk("iter", src, mk("any"), it.a[2])))
        return out
    if src.op == "slice_src":
        p = src.a[0]
        cont = e.rd(st, p)
        if is_int(pos):
            if cont.op == "array":
                k = pos.a[0]
                if k < len(cont.a):
                    return [(st, elem_ptr(e, p, pos), mk("iter", src, I(k + 1), it.a[2]))]
                return [(st, None, it)]
            if cont.op == "vecof":
                return vec_elems(e, st, cont, it, byref=True)
            el = elem_ptr(e, p, pos)
            d = mk("call", "has_elem", 0, el)
            for s, n, x in e.cases(st, d, e.OPT):
                out.append((s, el if n == "Some" else None, mk("iter", src, I(pos.a[0] + 1), it.a[2])))
            return out
        if cont.op == "array":
            r = []
            for k in range(len(cont.a)):
                r.append((st.copy(), elem_ptr(e, p, I(k)), it))
            r.append((st, None, it))
            return tag_elems(e, r, src, site)
        if cont.op == "vecof":
            return vec_elems(e, st, cont, it, byref=True, site=site)
        el = elem_ptr(e, p, mk("anyidx", site))
        d = mk("call", "has_elem", site, el)
        for s, n, x in e.cases(st, d, e.OPT):
            out.append((s, el if n == "Some" else None, it))
        return out
    if src.op == "vec_src":
        v = src.a[0]
        if v.op == "array":
            if is_int(pos):
                k = pos.a[0]
                if k < len(v.a):
                    return [(st, v.a[k], mk("iter", src, I(k + 1), it.a[2]))]
                return [(st, None, it)]
            r = [(st.copy(), x, it) for x in v.a]
            r.append((st, None, it))
            return tag_elems(e, r, src, site)
        if v.op == "vecof":
            return vec_elems(e, st, v, it, site=site)
        if v.op == "agg" and v.a[0] == e.OPT:
            if is_int(pos) and pos.a[0] == 0 and v.a[1] == "Some":
                return [(st, v.a[3], mk("iter", src, I(1), it.a[2]))]
            return [(st, None, it)]
        el = mk("elem", v, site)
    elif src.op == "tree_src":
        el = mk("tuple", mk("elemkey", src.a[0], site), mk("elemval", src.a[0], site))
    elif src.op == "agg":
        el = mk("elem", src, site)
        d = mk("call", "has_elem", site, src)
        for s, n, x in e.cases(st, d, e.OPT):
            out.append((s, el if n == "Some" else None, mk("iter", src, mk("any"), it.a[2])))
        return out
    else:
        el = mk("elem", src.a[0] if src.a else src, site)
    d = mk("call", "has_elem", site, src, pos)
    for s, n, x in e.cases(st, d, e.OPT):
        out.append((s, el if n == "Some" else None, mk("iter", src, mk("any"), it.a[2])))
    return out


def tag_elems(e, r, src, site):
    out = []
    for i, (s, el, it) in enumerate(r):
        k = mk("pick", src, site)
        s = s.copy()
        s.setfact(k, ("in", frozenset([i])))
        out.append((s, el, it))
    return out


def vec_elems(e, st, v, it, byref=False, site=0):
    r = []
    els = v.a[1]
    facts = v.a[2]
    # an element drawn again is told apart from the ones drawn elsewhere
    m = {}
    for x in list(els) + [k for f in facts or () for k, w in f]:
        for y in walk(x):
            if y.id not in m and y.op in ("elem", "elemkey", "elemval") and isinstance(y.a[-1], int) and site:
                m[y.id] = mk(y.op, *(y.a[:-1] + (e.site("again", (y.a[-1], site)),)))
    if m:
        els = tuple(sub_(x, m) for x in els)
        facts = tuple(tuple((sub_(k, m), w) for k, w in f) for f in facts) if facts is not None else None
    for x in els:
        s = st.copy()
        r.append((s, e.vref(x) if byref else x, mk("iter", it.a[0], mk("any"), it.a[2])))
    r.append((st.copy(), None, mk("iter", it.a[0], mk("any"), it.a[2])))
    out = []
    for i, (s, el, n) in enumerate(r):
        k = mk("pick", v, site, it.a[1])
        s.setfact(k, ("in", frozenset([i])))
        if el is not None and facts is not None:
            ok = True
            for fk, fv in facts[i]:
                o = s.facts.get(fk)
                if o is None:
                    s.setfact(fk, fv)
            if not ok:
                continue
        out.append((s, el, n))
    return out


def no_effect(e, st, s, ci):
    """an element passed over must leave no trace where the passing-over itself is not followed"""
    if s.ev is not st.ev and any(x.name not in ("loop", "search") for x in new_events(st, s)) or any(
            r[0] == "D" and st.store.get(r) is not None and v is not st.store[r] for r, v in s.store.items()):
        from engine import Limit
        raise Limit("an element passed over by an iterator has effects at %s" % ci.span)


def new_events(st, s):
    x, r = s.ev, []
    while x is not None and x is not st.ev:
        r.append(x[1])
        x = x[0]
    return r


def array_of(e, st, it):
    """the array an iterator runs over, if its contents are known"""
    src = it.a[0]
    cont = e.rd(st, src.a[0]) if src.op == "slice_src" else src.a[0] if src.op == "vec_src" else None
    return cont if cont is not None and cont.op == "array" else None


def of_array(e, st, it):
    cont = array_of(e, st, it)
    return cont is not None and len(cont.a) <= 8


def nexts(e, st, it, ci, d=0, rej=None, first=False):
    """[(state, payload|None, new iter)] applying the stages; rej: receives [(state, element)] passed over by a filter; first: the first element there is, so that skipped ones count as passed over"""
    out = []
    drop = rej
    if rej is None:
        drop = []
    for s, el, nit in base_elems(e, st, it, ci):
        if el is None:
            out.append((s, None, nit))
            continue
        cur = [(s, el)]
        for nstg, stg in enumerate(it.a[2]):
            nx = []
            kind, arg = stg
            for s2, v in cur:
                if v is None:
                    nx.append((s2, None))
                    continue
                if kind == "map":
                    nx += e.call_closure(s2, arg, [v], ci)
                elif kind in ("filter", "take_while", "skip_while"):
                    for s3, b in e.call_closure(s2, arg, [e.vref(v)], ci):
                        for s4, k in e.split(s3, b):
                            if kind == "skip_while":
                                if first and k:
                                    drop.append((s4, v))
                                else:
                                    nx.append((s4, v))
                            elif k:
                                nx.append((s4, v))
                            elif kind == "take_while":
                                nx.append((s4, None))
                            else:
                                drop.append((s4, v))
                elif kind in ("filter_map", "map_while"):
                    for s3, o in e.call_closure(s2, arg, [v], ci):
                        for s4, n, x in e.cases(s3, o, e.OPT):
                            if n == "Some":
                                nx.append((s4, project(x, "Some.0")))
                            elif kind == "map_while":
                                nx.append((s4, None))
                            else:
                                drop.append((s4, v))
                elif kind == "payload":
                    good = "Some" if arg == e.OPT else "Ok"
                    for s4, n, x in e.cases(s2, v, arg):
                        if n == good:
                            nx.append((s4, project(x, good + ".0")))
                        else:
                            drop.append((s4, v))
                elif kind == "flat_map":
                    for s3, o in e.call_closure(s2, arg, [v], ci):
                        sub = o if is_iter(o) else mk_iter(mk("vec_src", o))
                        for k2, _ in sub.a[2]:
                            if k2 in CUTTING:
                                s3.setfact(mk("cutting", k2, ci.site), ("in", frozenset([1])))
                        for s4, x, _ in nexts(e, s3, sub, ci, d + 1, drop):
                            if x is not None:
                                nx.append((s4, x))
                elif kind == "grouped":
                    # (key of an arbitrary element, iterator over elements of the same source)
                    for s3, key in e.call_closure(s2, arg, [e.vref(v)], ci):
                        nx.append((s3, mk("tuple", key, mk("iter", it.a[0], mk("any"), it.a[2][:nstg] + (("ingroup", mk("tuple", key, arg)),)))))
                elif kind == "ingroup":
                    # members of a group have the group's key
                    for s3, key in e.call_closure(s2, arg.a[1], [e.vref(v)], ci):
                        k0 = arg.a[0]
                        ps = list(zip(k0.a, key.a)) if k0.op == key.op == "tuple" and len(k0.a) == len(key.a) else [(k0, key)]
                        ss = [s3]
                        for x, y in ps:
                            ss = [t for s4 in ss for t in e.assume(s4, mk_eq(x, y), 1)]
                        nx += [(s4, v) for s4 in ss]
                elif kind == "enumerate":
                    n = nit.a[1]
                    exact = all(k2 in EXACT_STAGES or k2 == "take" for k2, _ in it.a[2][:nstg])
                    if is_int(n):
                        n = I(n.a[0] - 1) if exact else mk("anyidx", ci.site)
                    elif n.op == "any" and not n.a:
                        n = mk("pos" if exact else "anyidx", ci.site)
                    nx.append((s2, mk("tuple", n, v)))
                elif kind in ("cloned", "copied"):
                    nx.append((s2, e.rd(s2, v)))
                elif kind == "inspect":
                    for s3, _ in e.call_closure(s2, arg, [e.vref(v)], ci):
                        nx.append((s3, v))
                elif kind == "zip":
                    o = arg if is_iter(arg) else mk_iter(mk("vec_src", arg))
                    for s3, x, _ in nexts(e, s2, o, ci, d + 1):
                        nx.append((s3, mk("tuple", v, x) if x is not None else None))
                elif kind == "take":
                    nx.append((s2, v))
                    s3 = s2.copy()
                    s3.setfact(mk("taken", nit.a[1], arg, ci.site), ("in", frozenset([1])))
                    s2.setfact(mk("taken", nit.a[1], arg, ci.site), ("in", frozenset([0])))
                    ks = [k2 for k2, _ in it.a[2][:nstg] if k2 not in EXACT_STAGES and k2 != "take"]
                    if all(k2 in ("filter", "filter_map") for k2 in ks) and not is_int(nit.a[1]):
                        n = mk("passed" if ks else "pos", ci.site)
                        s3.setfact(mk("Lt", n, arg), ("in", frozenset([0])))
                        s2.setfact(mk("Lt", n, arg), ("in", frozenset([1])))
                    nx.append((s3, None))
                else:
                    nx.append((s2, v))
            cur = nx
        for s2, v in cur:
            out.append((s2, v, nit))
        if rej is None and drop and is_int(nit.a[1]) and of_array(e, st, nit):
            for s2, v in drop:
                out += nexts(e, s2, nit, ci, d)
            drop.clear()
    if rej is None:
        for s, v in drop:
            no_effect(e, st, s, ci)
    return out


@model(IT + "next", "std::iter::DoubleEndedIterator::next_back")
def it_next(e, st, ci):
    p = ci.args[0]
    it = e.rd(st, p)
    hops = 0
    while it.op == "ref" and hops < 3:
        p, it = it, e.rd(st, it)
        hops += 1
    if it.op == "agg" and it.a[0].endswith("Range"):
        it = mk_iter(it)
    if not is_iter(it):
        if it.op == "loop":
            return None
        it = mk_iter(mk("opq_src", it))
    r = []
    for s, v, nit in first_of(e, st, it, ci) or nexts(e, st, it, ci):
        e.wr(s, p, nit)
        r.append((s, e.none() if v is None else e.some(v)))
    return r


CUTTING = ("take", "skip", "step_by", "take_while", "skip_while", "map_while")
EXACT_STAGES = {"map", "enumerate", "cloned", "copied", "inspect", "by_ref", "fuse"}


def exact_stages(it):
    """stages that keep one output per input, in order"""
    return all(k in EXACT_STAGES for k, _ in it.a[2])


def exact_or_filtered(it):
    """the same, where elements may also be passed over"""
    return all(k in EXACT_STAGES or k in ("filter", "filter_map") for k, _ in it.a[2])


def run_all(e, st, it, ci, step, acc0):
    """summarise consuming the whole iterator: step(state, elem, acc)->[(state, acc)].
    One arbitrary element is analysed after havoc of what a step modifies."""
    if not is_iter(it):
        if it.op == "agg" and it.a[0].endswith("Range"):
            it = mk_iter(it)
        else:
            it = mk_iter(mk("opq_src", it))
    # exact small arrays
    src = it.a[0]
    cont = None
    if src.op == "slice_src":
        cont = e.rd(st, src.a[0])
    elif src.op == "vec_src":
        cont = src.a[0]
    if cont is not None and cont.op == "array" and is_int(it.a[1]) and len(cont.a) <= 8 and exact_or_filtered(it):
        cur = [(st, acc0, it)]
        done = []
        stack0, site0 = ci.stack, ci.site
        for k in range(len(cont.a) + 1):
            nx = []
            ci.stack = stack0 + (("", "iteration %d" % k, ""),)
            ci.site = e.site(ci.stack, site0)
            for s, acc, i in cur:
                alts = nexts(e, s, i, ci)
                for s2, v, i2 in alts:
                    if v is None:
                        done.append((s2, acc))
                    else:
                        for s3, a3 in step(s2, v, acc):
                            nx.append((s3, a3, i2))
            cur = nx
        ci.stack, ci.site = stack0, site0
        return done
    it = mk("iter", it.a[0], mk("any"), it.a[2])
    from engine import Event, diff, shrink
    acc_var = None
    entry = st
    mods = {}
    accm = acc0
    shrunk = False
    for rnd in range(14):
        touched = set()
        s0 = e.havoc(entry, mods, ci.site)
        inner = []
        lev = Event(name="loop", site=ci.site, inner=inner, facts=s0.facts, stack=ci.stack, vals=[], src=it.a[0], left=tuple(k for k, _ in it.a[2]), kind="all")
        s0.ev = (s0.ev, lev)
        e.quiet += 1
        try:
            outs = []
            rej = []
            for s, v, nit in nexts(e, s0.copy(), it, ci, rej=rej):
                if v is None:
                    continue
                outs += step(s, v, accm)
            outs += [(s, accm) for s, v in rej]
        finally:
            e.quiet -= 1
        new = False
        for s, a in outs:
            for root in set(s.store) | set(s0.store):
                if root[0] == "L" and root not in s0.store:
                    continue
                va, vb = s0.store.get(root), s.store.get(root)
                if va is vb or vb is None:
                    continue
                if va is None:
                    if root[0] != "D" or any(x.op == "loop" and x.a[0] == ci.site for x in walk(root[1])) or e.made_within(
                            root[1], lambda sk, bb: (sk, bb) == e.siteinfo.get(ci.site) or sk[:len(ci.stack)] == ci.stack):
                        continue
                    va = e.root(s0, root)
                for path, x, y in diff(va, vb):
                    cur = mods.setdefault(root, {})
                    touched.add((root, path))
                    if path not in cur:
                        cur[path] = None
                        new = True
                    g = generalise(e, x, y)
                    if g is not None and cur[path] is not g:
                        if cur[path] is not None:
                            g = generalise(e, cur[path], g) or g
                        if cur[path] is not g:
                            cur[path] = g
                            new = True
            if a is not accm and a is not None:
                if accm is acc0:
                    g = generalise(e, acc0, a)
                    accm = g if g is not None else mk("loop", ci.site, "acc", acc0)
                    new = True
                else:
                    g = generalise(e, accm, a)
                    if g is not None and g is not accm:
                        accm = g
                        new = True
        for root, ps in mods.items():
            for p in list(ps):
                for q in list(ps):
                    if p != q and p[:len(q)] == q and p in ps:
                        del ps[p]
        if not new:
            if not shrunk and shrink(mods, touched):
                shrunk = True
                continue
            break
    else:
        from engine import Limit
        raise Limit("iteration does not stabilise at %s" % ci.span)
    # real pass: record the step's events as possibly-executed
    s1 = s0
    before = dict(s1.store)
    seen = []
    rej = []
    for s, v, nit in nexts(e, s1.copy(), it, ci, rej=rej) + [(s, rej, None) for s, v in rej]:
        if v is None:
            continue
        for s2, a in step(s, v, accm) if v is not rej else [(s, accm)]:
            x = s2.ev
            evs = []
            while x is not None and x[1] is not lev:
                evs.append(x[1])
                x = x[0]
            seen.append((s2, evs, a))
            lev.inner.extend(reversed(evs))
            e.end("back", s2, a, ci.stack, ci.span)
            if not e.quiet:
                e.ends[-1].it = (ci.site, None, None, before, lev, accm)
    return [(s1, accm)]


@model(IT + "for_each")
def it_for_each(e, st, ci):
    f = ci.args[1]
    return [(s, UNIT) for s, a in run_all(e, st, ci.args[0], ci, lambda s, v, a: [(t, a) for t, _ in e.call_closure(s, f, [v], ci)], UNIT)]


def collect_all(e, st, it, ci, adt):
    """collecting the payloads of a sequence of options or results: all of them, or the first that is none"""
    good = "Some" if adt == e.OPT else "Ok"
    wrap = e.some if adt == e.OPT else e.ok
    if exact_array(e, st, it) is not None:
        def visit(s, v, a):
            r = []
            for s2, n, x in e.cases(s, v, adt):
                if n == good:
                    y = project(x, good + ".0")
                    r.append((s2, True, a + (e.freeze(s2, y) if y.op == "ref" and y.a[0][0] in ("L", "K") else y,)))
                else:
                    r.append((s2, False, e.none() if adt == e.OPT else e.err(project(x, "Err.0"))))
            return r
        return [(s, x if early else wrap(mk("array", *x))) for s, early, x in in_turn(e, st, it, ci, visit, ())]
    t = e.p.types[ci.dty]
    ci2 = e._ci(ci, [mk("iter", it.a[0], it.a[1], it.a[2] + (("payload", adt),))])
    ci2.dty = t["args"][0]
    bad = e.none() if adt == e.OPT else e.err(mk("call", "collect_err", ci.site, it))
    full = it_collect(e, st, ci2)
    return None if full is None else [(st.copy(), bad)] + [(s, wrap(v)) for s, v in full]


@model(IT + "collect", "itertools::Itertools::collect_vec")
def it_collect(e, st, ci):
    it = ci.args[0]
    if not is_iter(it):
        if it.op == "agg" and it.a[0].endswith("Range"):
            it = mk_iter(it)
        else:
            return None
    adt = e.p.types[ci.dty].get("def")
    if adt in (e.OPT, e.RES):
        return collect_all(e, st, it, ci, adt)
    if not it.a[2] and it.a[0].op == "vec_src":
        return [(st, it.a[0].a[0])]
    src = it.a[0]
    cont = e.rd(st, src.a[0]) if src.op == "slice_src" else src.a[0] if src.op == "vec_src" else None
    if cont is not None and cont.op == "array" and is_int(it.a[1]) and len(cont.a) <= 8 and exact_or_filtered(it):
        r = run_all(e, st, it, ci, lambda s, v, a: [(s, a + (e.freeze(s, v) if v.op == "ref" and v.a[0][0] in ("L", "K") else v,))], ())
        return [(s, mk("array", *a)) for s, a in r]
    # evaluate one arbitrary element eagerly: its possible values and what the stages established
    it2 = mk("iter", it.a[0], mk("any"), tuple(x for x in it.a[2] if x[0] != "take"))
    base = st.facts
    els, facts = [], []
    e.quiet += 1
    try:
        rej = []
        alts = nexts(e, st.copy(), it2, ci, rej=rej)
    finally:
        e.quiet -= 1
    for s, v, _ in alts:
        if v is None:
            continue
        els.append(e.freeze(s, v) if v.op == "ref" and v.a[0][0] in ("L", "K") else v)
        facts.append(tuple((k, w) for k, w in s.facts.items() if base.get(k) != w))
    out = []
    for s, v in rej:
        no_effect(e, st, s, ci)
        out.append(tuple((k, w) for k, w in s.facts.items() if base.get(k) != w))
    # what was left out, and how many elements are considered at each stage
    stages = tuple((k, a if k == "take" else None) for k, a in it.a[2])
    return [(st, mk("vecof", it.a[0], tuple(els), tuple(facts), tuple(out), stages))]


def summed(e, st, it, ci, step):
    """sum over the abstract elements: sum(source, summands, what holds of the element of each summand); None if a step is no plain addition"""
    it2 = mk("iter", it.a[0], mk("any"), it.a[2])
    base = st.facts
    els = {}
    e.quiet += 1
    try:
        rej = []
        for s, v, _ in nexts(e, st.copy(), it2, ci, rej=rej):
            if v is None:
                continue
            for s2, x in step(s, v):
                if x is None or s2.ev is not st.ev or any(st.store.get(r, w) is not w for r, w in s2.store.items()):
                    return None
                els.setdefault(x, tuple((k, w) for k, w in s2.facts.items() if base.get(k) != w))
    finally:
        e.quiet -= 1
    for s, v in rej:
        no_effect(e, st, s, ci)
    els = sorted(els.items(), key=lambda t: pp(t[0]))
    return mk("sum", it.a[0], tuple(x for x, _ in els), tuple(f for _, f in els), bool(rej) or any(k in CUTTING for k, _ in it.a[2]))


@model(IT + "fold")
def it_fold(e, st, ci):
    f = ci.args[2]
    it = ci.args[0]
    if is_iter(it):
        acc = mk("loop", ci.site, "acc", ci.args[1])

        def step(s, v):
            r = []
            for s2, a in e.call_closure(s, f, [acc, v], ci):
                x = next((y for y, z in (a.a, a.a[::-1]) if z is acc), None) if a.op == "Add" else None
                r.append((s2, None if x is None or any(y is acc for y in walk(x)) else x))
            return r
        nend = len(e.ends)
        r = summed(e, st, it, ci, step)
        if r is not None:
            return [(st, arith("Add", ci.args[1], r))]
        del e.ends[nend:]
    return run_all(e, st, ci.args[0], ci, lambda s, v, a: e.call_closure(s, f, [a, v], ci), ci.args[1])


@model(IT + "sum")
def it_sum(e, st, ci):
    it = ci.args[0]
    if not is_iter(it):
        it = mk_iter(mk("opq_src", it))
    return [(st, summed(e, st, it, ci, lambda s, v: [(s, v)]))]


def exact_array(e, st, it):
    """the contents of a short array iterated from a known position, one output per element"""
    if not is_iter(it) or it.op != "iter":
        return None
    cont = array_of(e, st, it)
    if cont is not None and is_int(it.a[1]) and len(cont.a) <= 8 and exact_or_filtered(it):
        return cont
    return None


def in_turn(e, st, it, ci, visit, acc):
    """take the elements of a short array one after the other; visit(state, element, acc) -> [(state, go on, acc or result)].
    Gives [(state, ended early, acc or result)]"""
    n = len(exact_array(e, st, it).a)
    cur, done = [(st, acc, it)], []
    stack0, site0 = ci.stack, ci.site
    for k in range(n + 1):
        nx = []
        ci.stack = stack0 + (("", "iteration %d" % k, ""),)
        ci.site = e.site(ci.stack, site0)
        for s, a, i in cur:
            for s2, v, i2 in nexts(e, s, i, ci):
                if v is None:
                    done.append((s2, False, a))
                    continue
                for s3, go, a3 in visit(s2, v, a):
                    if go:
                        nx.append((s3, a3, i2))
                    else:
                        done.append((s3, True, a3))
        cur = nx
    ci.stack, ci.site = stack0, site0
    return done


def searched(e, st, ci, it, r, left, kind):
    """record a search through an iteration: what was passed over, and the element it ended at"""
    from engine import Event
    # a search that does not begin at the first element, or leaves some out, is another kind of search
    ks = [k for k, _ in it.a[2]]
    fl = [i for i, k in enumerate(ks) if k in ("filter", "filter_map", "take_while", "map_while", "payload")]
    whole = it.a[1] is I(0) and all(k in EXACT_STAGES or k in ("filter", "filter_map", "take_while", "map_while") or k == "skip_while" and kind == "find" and not any(j > i for j in fl) for i, k in enumerate(ks))
    left = [dict((k, w) for k, w in s.facts.items() if st.facts.get(k) != w) for s in left]
    for s, v in r:
        hit = None
        if it.a[0].op == "tree_src":
            for k, f in s.facts.items():
                if k.op == "discr" and k.a[0].op == "call" and k.a[0].a[0] == "has_elem" and k.a[0].a[1] == ci.site and k.a[0].a[2] is it.a[0] and f == ("in", frozenset([1])):
                    hit = mk("tuple", mk("elemkey", it.a[0].a[0], ci.site), mk("elemval", it.a[0].a[0], ci.site))
        s.ev = (s.ev, Event(name="search", site=ci.site, span=ci.span, src=it.a[0], left=left, kind=kind if whole else "part " + kind, facts=s.facts, stack=ci.stack, vals=[], found=v, hit=hit))


def first_of(e, st, it, ci):
    """nexts() at the start of an iteration over a tree, recorded as a search when elements may be passed over; None elsewhere"""
    if not (it.op == "iter" and it.a[0].op == "tree_src" and it.a[1] is I(0) and any(k in ("filter", "filter_map", "skip_while") for k, _ in it.a[2])):
        return None
    rej = []
    ks = [k for k, _ in it.a[2]]
    last = max(i for i, k in enumerate(ks) if k not in EXACT_STAGES)
    r = nexts(e, st.copy(), it, ci, rej=rej, first="skip_while" not in ks or ks.index("skip_while") == last)
    for s, v in rej:
        no_effect(e, st, s, ci)
    searched(e, st, ci, it, [(s, e.none() if v is None else e.some(v)) for s, v, _ in r], [s for s, v in rej], "find")
    return r


def _search(kind):
    def g(e, st, ci):
        it = ci.args[0]
        if it.op == "ref":
            it = e.rd(st, it)
        if exact_array(e, st, it) is not None:
            def visit(s, v, a):
                r = []
                for s2, b in e.call_closure(s, ci.args[1], [e.vref(v)] if kind == "find" else [v], ci):
                    for s3, k in e.split(s2, b):
                        stop = (not k) if kind == "all" else k
                        hit = {"any": TRUE, "all": FALSE}.get(kind) or e.some(v if kind == "find" else I(a))
                        r.append((s3, False, hit) if stop else (s3, True, a + 1))
                return r
            end = {"any": FALSE, "all": TRUE}.get(kind)
            return [(s, x if early else (end or e.none())) for s, early, x in in_turn(e, st, it, ci, visit, 0)]
        if not is_iter(it):
            it = mk_iter(mk("opq_src", it))
        it2 = mk("iter", it.a[0], mk("any"), it.a[2])
        r = []
        rej = []
        for s, v, _ in nexts(e, st.copy(), it2, ci, rej=rej):
            if v is None:
                if kind == "find":
                    r.append((s, e.none()))
                elif kind == "any":
                    r.append((s, FALSE))
                elif kind == "all":
                    r.append((s, TRUE))
                else:
                    r.append((s, e.none()))
                continue
            arg = e.vref(v) if kind == "find" else v
            for s2, b in e.call_closure(s, ci.args[1], [arg], ci):
                for s3, k in e.split(s2, b):
                    if kind == "find" and k:
                        r.append((s3, e.some(v)))
                    elif kind == "any" and k:
                        r.append((s3, TRUE))
                    elif kind == "all" and not k:
                        r.append((s3, FALSE))
                    elif kind == "position" and k:
                        r.append((s3, e.some(mk("position", it.a[0]))))
                    else:
                        rej.append((s3, v))
        for s, v in rej:
            no_effect(e, st, s, ci)
        searched(e, st, ci, it, r, [s for s, v in rej], kind)
        return r
    return g


for _k3 in ("find", "any", "all", "position"):
    M[IT + _k3] = _search(_k3)


def _try_each(fold):
    def g(e, st, ci):
        it = ci.args[0]
        if it.op == "ref":
            it = e.rd(st, it)
        if it.op == "agg" and it.a[0].endswith("Range"):
            it = mk_iter(it)
        if not is_iter(it):
            return None
        t = e.p.types[ci.dty]
        adt = t.get("def")
        if adt not in (e.OPT, e.RES):
            return None
        good = "Some" if adt == e.OPT else "Ok"
        f = ci.args[2 if fold else 1]
        acc0 = ci.args[1] if fold else UNIT
        wrap = e.some if adt == e.OPT else e.ok

        def visit(s, v, a):
            r = []
            for s2, o in e.call_closure(s, f, [a, v] if fold else [v], ci):
                for s3, n, x in e.cases(s2, o, adt):
                    if n == good:
                        r.append((s3, True, project(x, good + ".0") if fold else UNIT))
                    else:
                        r.append((s3, False, e.none() if adt == e.OPT else e.err(project(x, "Err.0"))))
            return r
        if exact_array(e, st, it) is not None:
            return [(s, x if early else wrap(x)) for s, early, x in in_turn(e, st, it, ci, visit, acc0)]
        early = []
        q0 = e.quiet

        def step(s, v, a):
            r = []
            for s2, go, x in visit(s, v, a):
                if go:
                    r.append((s2, x))
                elif e.quiet == q0:
                    early.append((s2, x))
            return r
        return [(s, wrap(x)) for s, x in run_all(e, st, it, ci, step, acc0)] + early
    return g


M[IT + "try_for_each"] = _try_each(False)
M[IT + "try_fold"] = _try_each(True)


@model(IT + "find_map")
def it_find_map(e, st, ci):
    it = ci.args[0]
    if it.op == "ref":
        it = e.rd(st, it)
    if exact_array(e, st, it) is None:
        # the first element of those the function accepts
        ci2 = e._ci(ci, [mk("iter", it.a[0], it.a[1], it.a[2] + (("filter_map", ci.args[1]),))]) if is_iter(it) and it.op == "iter" else None
        if ci2 is None:
            return None
        return [(s, e.none() if v is None else e.some(v)) for s, v, _ in first_of(e, st, ci2.args[0], ci) or nexts(e, st, ci2.args[0], ci)]

    def visit(s, v, a):
        r = []
        for s2, o in e.call_closure(s, ci.args[1], [v], ci):
            for s3, n, x in e.cases(s2, o, e.OPT):
                r.append((s3, False, e.some(project(x, "Some.0"))) if n == "Some" else (s3, True, a))
        return r
    return [(s, x if early else e.none()) for s, early, x in in_turn(e, st, it, ci, visit, None)]


def _extremum(which):
    def g(e, st, ci):
        it = ci.args[0]
        if not is_iter(it):
            it = mk_iter(mk("opq_src", it))
        it2 = mk("iter", it.a[0], mk("any"), it.a[2])
        r = []
        for s, v, _ in nexts(e, st.copy(), it2, ci):
            if v is None:
                r.append((s, e.none()))
            else:
                # which end of the comparator: record comparator outcome on two symbolic elements
                a, b = mk("sample", I(0)), mk("sample", I(1))
                r.append((s, e.some(mk(which, it.a[0], v))))
        return r
    return g


for _k3 in ("max_by", "min_by", "max_by_key", "min_by_key", "max", "min", "last"):
    M[IT + _k3] = _extremum(_k3)


@model(IT + "count")
def it_count(e, st, ci):
    it = ci.args[0]
    return [(st, mk("count", it))]


# ---------------------------------------------------------------- closures
@model("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def call_closure(e, st, ci):
    tup = ci.args[1]
    args = list(tup.a) if tup.op == "tuple" else [project(tup, "0")]
    return e.call_closure(st, ci.args[0], args, ci)


@model("std::intrinsics::cold_path", "core::intrinsics::cold_path")
def nop(e, st, ci):
    return [(st, UNIT)]


# ---------------------------------------------------------------- solana
@model("solana_program::sysvar::Sysvar::get")
def sysvar_get(e, st, ci):
    t = e.p.types[ci.dty]
    inner = e.p.types[t["args"][0]]["s"].split("::")[-1]
    return [(st, mk("call", "sysvar:" + inner, 0))]


@model("solana_program::sysvar::clock::<impl>::get", "solana_program::sysvar::rent::<impl>::get")
def sysvar_get2(e, st, ci):
    return sysvar_get(e, st, ci)


M["solana_program::sysvar::clock::<impl solana_program::sysvar::Sysvar for solana_program::clock::Clock>::get"] = sysvar_get
M["solana_program::sysvar::rent::<impl solana_program::sysvar::Sysvar for solana_program::rent::Rent>::get"] = sysvar_get


# ---------------------------------------------------------------- sokoban trees
# A tree value is a term; every mutating operation gives it a new version. The entry of a key is node(tree, addr(tree, key)), so that all the
# ways of reaching an entry (get, get_mut, get_node(get_addr)) give the same pointer. The first and last entries are present by definition.
def _tree(e, st, p):
    """[(state, pointer, tree value)] with a definite pointer"""
    p = e.simp(st, p)
    if p.op == "ite":
        r = []
        for s, k in e.split(st, p.a[0]):
            r += _tree(e, s, p.a[1] if k else p.a[2])
        return r
    return [(st, p, e.rd(st, p))]


def addr_of(tree, key):
    return mk("call", "sokoban::RedBlackTree::get_addr", 0, tree, key)


def node_of(tree, addr):
    return mk("call", "sokoban::RedBlackTree::get_node", 0, tree, addr)


def extreme_entry(key, tree):
    """key is that of the first/last entry (or an entry met while iterating) of this version of the tree -> the entry's value"""
    if key.op == "field" and key.a[1] == "0":
        c = key.a[0]
        if c.op == "field" and c.a[1] == "Some.0":
            c = c.a[0]
            if c.op == "call" and str(c.a[0]).split("::")[-1] in ("get_min", "get_max") and c.a[2] is tree:
                return mk("field", key.a[0], "1")
    if key.op == "load" and key.a[0].op == "elemkey" and key.a[0].a[0].op == "at" and key.a[0].a[0].a[0] is tree:
        return mk("load", mk("elemval", *key.a[0].a))
    return None


def tree_addr(e, st, ci):
    return [(s, addr_of(t, e.snapv(s, ci.args[1]) if ci.args[1].op == "ref" else e.rd(s, ci.args[1]))) for s, p, t in _tree(e, st, ci.args[0])]


def _key(e, s, a):
    return e.snapv(s, a) if a.op == "ref" else e.rd(s, a)


def tree_node(e, st, ci):
    r = []
    for s, p, t in _tree(e, st, ci.args[0]):
        n = node_of(t, ci.args[1])
        if ("D", n) not in s.store:
            # the same node under the spelling its index had before a choice in it was decided
            for k in s.store:
                if k[0] == "D" and k[1].op == "call" and k[1].a[0] == n.a[0] and k[1].a[2] is t and k[1].a[3].op == "ite" and e.simp(s, k[1].a[3]) is ci.args[1]:
                    n = k[1]
                    break
        r.append((s, n))
    return r


def tree_get(e, st, ci):
    r = []
    for s, p, t in _tree(e, st, ci.args[0]):
        k = _key(e, s, ci.args[1])
        x = extreme_entry(k, t)
        n = node_of(t, addr_of(t, k))
        at = e.ptr_proj(n, "value")
        if x is not None:
            if ("D", n) not in s.store:
                s = s.copy()
                s.store[("D", n)] = set_field(mk("load", n), ("value",), x)
            r.append((s, e.some(at)))
            continue
        for s2, z in e.split(s, mk_eq(addr_of(t, k), I(0))):
            r.append((s2, e.none() if z else e.some(at)))
    return r


def tree_contains(e, st, ci):
    return [(s, I(1) if extreme_entry(_key(e, s, ci.args[1]), t) is not None else mk_not(mk_eq(addr_of(t, _key(e, s, ci.args[1])), I(0)))) for s, p, t in _tree(e, st, ci.args[0])]


def touched(st, tree):
    """an entry of this version of the tree was written through a pointer"""
    for r, v in st.store.items():
        if r[0] == "D" and r[1].op == "call" and str(r[1].a[0]).endswith("RedBlackTree::get_node") and r[1].a[2] is tree:
            b = project(v, "value")
            if not (b.op == "field" and b.a[1] == "1" or b.op == "load" or b.op == "field" and b.a[1] == "value" and b.a[0].op == "load"):
                return True
    return False


def tree_ext(which):
    def g(e, st, ci):
        r = []
        for s, p, t in _tree(e, st, ci.args[0]):
            c = mk("call", "sokoban::OrderedNodeAllocatorMap::" + which, ci.site if touched(s, t) else 0, t)
            for s2, n, x in e.cases(s, c, e.OPT):
                r.append((s2, e.none() if n == "None" else e.some(mk("field", c, "Some.0"))))
        return r
    return g


def tree_remove(e, st, ci):
    r = []
    for s, p, t in _tree(e, st, ci.args[0]):
        k = _key(e, s, ci.args[1])
        s = s.copy()
        res = mk("call", "sokoban::NodeAllocatorMap::remove", ci.site, t, k)
        e.emit(s, "remove", ci.fn, ci, res=res)
        x = extreme_entry(k, t)
        n = node_of(t, addr_of(t, k))
        cur = s.store.get(("D", n))
        val = project(cur, "value") if cur is not None else (x if x is not None else project(mk("load", n), "value"))
        for s2, z in [(s, 0)] if x is not None else e.split(s, mk_eq(addr_of(t, k), I(0))):
            s2 = s2.copy()
            if not z:
                e.wr(s2, p, mk("after", res, 0))
            r.append((s2, e.none() if z else e.some(val)))
    return r


def tree_insert(e, st, ci):
    r = []
    for s, p, t in _tree(e, st, ci.args[0]):
        k = ci.args[1]
        s = s.copy()
        res = mk("call", "sokoban::NodeAllocatorMap::insert", ci.site, t, k, ci.args[2])
        e.emit(s, "insert", ci.fn, ci, res=res)
        for s2, n, x in e.cases(s, res, e.OPT):
            s2 = s2.copy()
            if n == "Some":
                e.wr(s2, p, mk("after", res, 0))
            r.append((s2, x if n == "Some" else e.none()))
    return r


for _pre in ("sokoban::NodeAllocatorMap::", "sokoban::RedBlackTree::", "sokoban::OrderedNodeAllocatorMap::"):
    M[_pre + "get_addr"] = tree_addr
    M[_pre + "get_node"] = M[_pre + "get_node_mut"] = tree_node
    M[_pre + "get"] = M[_pre + "get_mut"] = tree_get
    M[_pre + "contains"] = tree_contains
    M[_pre + "get_min"] = tree_ext("get_min")
    M[_pre + "get_max"] = tree_ext("get_max")
    M[_pre + "remove"] = tree_remove
    M[_pre + "insert"] = tree_insert
