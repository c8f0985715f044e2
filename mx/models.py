"""Transfer functions for the library calls the analysed code makes (std, serde_json, dataflow-rs, quick-xml, regex).

Each model returns a list of (state, result term); anything not listed is an uninterpreted pure application that
may change what its &mut arguments point to."""
from term import *
import re
import engine as E
from engine import St
import shape

VAL = "serde_json::Value"
V_NULL, V_BOOL, V_NUM, V_STR, V_ARR, V_OBJ = range(6)
JNULL = agg(VAL, V_NULL, ())

IMPURE = ("chrono::Utc::now", "chrono::Local::now", "std::time::", "datafake_rs::", "rand::", "uuid::",
          "std::env::", "std::fs::", "std::process::", "std::thread::", "std::io::")


def impure(p):
    return p.startswith(IMPURE)


M = {}


def model_of(*names):
    def deco(fn):
        for n in names:
            M[n] = fn
        return fn
    return deco


def val(eng, st, a):
    return eng.deep(st, a)


def model(eng, st, f, p, args, rty):
    if eng.io is not None:
        r = eng.io(eng, st, f, p, args, rty)
        if r is not None:
            return r
    if eng.changing() and args:
        r = memo(eng, st, f, p, args)
        if r is not None:
            return r
        for a in args:
            n = kept(eng, eng.load(st, a) if a.op == "ptr" else a)
            if n and not p.startswith(("std::sync::", "std::cell::", "std::thread::LocalKey", "std::ops::Deref")):
                eng.kept.append(("other", n, p, None, st))
    h = M.get(p)
    if h is None:
        # method name fallbacks on inherent impls
        h = M2.get(p.rsplit("::", 1)[-1]) if p.startswith(("core::str::<impl str>", "std::str::<impl str>", "alloc::str::<impl str>")) else None
    if h is None and (p.startswith("core::slice::<impl [T]>::") or p.startswith("std::slice::<impl [T]>::") or p.startswith("alloc::slice::<impl [T]>::")):
        h = MS.get(p.rsplit("::", 1)[-1])
    if h is None:
        return None
    return h(eng, st, f, p, args)


def tracing_call(eng, st, f, p, args):
    return [(st, NOISE)]


# ------------------------------------------------------------------ sets, cells and what is kept between calls
@model_of("std::collections::HashSet::insert", "std::collections::BTreeSet::insert")
def setinsert(eng, st, f, p, args):
    a = args[0]
    if a.op != "ptr":
        return None
    k = val(eng, st, args[1])
    out = []
    for s, o in map_get(eng, st, eng.load(st, a), k):
        s = s.copy()
        eng.store(s, mk("ptr", a.a[0], a.a[1] + (("map", k),)), UNIT)
        out.append((s, eq(nv(discr(o), 2), I(0))))
    return out


@model_of("std::collections::HashSet::contains", "std::collections::BTreeSet::contains")
def setcontains(eng, st, f, p, args):
    return [(s, eq(nv(discr(o), 2), I(1))) for s, o in map_get(eng, st, val(eng, st, args[0]), val(eng, st, args[1]))]


def kept(eng, t):
    """the static a term is, when a value in it can change between calls"""
    if t.op == "static" and t.a[0] in eng.changing():
        return t.a[0]
    return None


MEMOMAPS = tuple("std::collections::%s::%s" % (m, x) for m in ("HashMap", "BTreeMap") for x in ("get", "contains_key", "insert", "entry", "len", "is_empty", "clear", "remove", "reserve"))


def memo(eng, st, f, p, args):
    """A map that outlives the call is taken to be empty here: C23 shows separately that what it holds for a key is what
    the code would make for that key, so that finding it makes no difference."""
    a = args[0]
    if a.op == "ptr":
        a = eng.load(st, a)
    n = a.op == "memoentry" and a.a[0] or kept(eng, a)
    if not n:
        return None
    last = p.rsplit("::", 1)[-1]
    k = val(eng, st, args[1]) if len(args) > 1 else None
    rec = eng.kept.append
    if a.op == "memoentry":
        k = a.a[1]
        if last == "or_insert_with":
            if eng.hits is not None:
                return [(st, eng.hits(n, k))]
            out = []
            for s, v in eng.apply(st, args[1], []):
                v = val(eng, s, v)
                rec(("insert", n, k, v, s))
                out.append((s, v))
            return out
        rec(("other", n, p, None, st))
        return None
    if not p.startswith("std::collections::"):
        return None
    if last in ("get", "contains_key"):
        rec(("get", n, k, None, st))
        h = eng.hits(n, k) if eng.hits is not None else None
        if last == "get":
            return [(st, NONE if h is None else some(h))]
        return [(st, FALSE if h is None else TRUE)]
    if last == "insert":
        if eng.hits is None:
            rec(("insert", n, k, val(eng, st, args[2]), st))
        return [(st, NONE)]
    if last == "remove":
        return [(st, NONE)]
    if last == "entry":
        return [(st, mk("memoentry", n, k))]
    if last == "len":
        return [(st, I(0))]
    if last == "is_empty":
        return [(st, TRUE)]
    return [(st, UNIT)]


@model_of("std::thread::LocalKey::with", "std::thread::LocalKey::try_with")
def tlswith(eng, st, f, p, args):
    r = eng.apply(st, args[1], [args[0]])
    return r if p.endswith("::with") else [(s, ok(v)) for s, v in r]


@model_of("std::sync::Mutex::new", "std::sync::RwLock::new", "std::cell::RefCell::new", "std::cell::Cell::new", "std::cell::RefCell::borrow",
          "std::cell::RefCell::borrow_mut", "std::cell::RefCell::get_mut", "std::cell::Cell::get_mut")
def cellnew(eng, st, f, p, args):
    return [(st, args[0])]


@model_of("std::sync::Mutex::lock", "std::sync::RwLock::read", "std::sync::RwLock::write", "std::sync::Mutex::get_mut", "std::sync::RwLock::get_mut")
def lock(eng, st, f, p, args):
    return [(st, ok(args[0]))]


@model_of("std::cell::RefCell::into_inner", "std::cell::Cell::into_inner")
def cellinto(eng, st, f, p, args):
    return [(st, args[0])]


@model_of("std::sync::Mutex::into_inner", "std::sync::RwLock::into_inner")
def mutexinto(eng, st, f, p, args):
    return [(st, ok(args[0]))]


@model_of("std::cell::Cell::get")
def cellget(eng, st, f, p, args):
    return [(st, eng.load(st, args[0]))] if args[0].op == "ptr" else None


@model_of("std::cell::Cell::set", "std::cell::Cell::replace", "std::cell::RefCell::replace")
def cellset(eng, st, f, p, args):
    if args[0].op != "ptr":
        return None
    old = eng.load(st, args[0])
    st = st.copy()
    eng.store(st, args[0], args[1])
    return [(st, UNIT if p.endswith("::set") else old)]


@model_of("std::sync::LazyLock::new", "std::cell::LazyCell::new")
def lazynew(eng, st, f, p, args):
    return [(st, agg("lazy", 0, (args[0],)))]


def lazily(eng, st, n, make):
    """the value a write-once static gets when it is first used"""
    r = eng.lazy.get(n)
    if r is None:
        rs = make(St({}, GTRUE))
        r = eng.lazy[n] = eng.deep(rs[0][0], rs[0][1]) if len(rs) == 1 else mk("call", "once " + n, (), (), None)
    return [(st, r)]


@model_of("std::sync::LazyLock::force", "std::cell::LazyCell::force")
def lazyforce(eng, st, f, p, args):
    a = args[0]
    v = eng.load(st, a) if a.op == "ptr" else a
    if v.op == "static":
        if kept(eng, v):
            return [(st, v)]
        b = eng.F.bodies.get(v.a[0])
        if b is None:
            return None

        def make(s):
            out = []
            for s2, l in eng.run(v.a[0], [], s):
                l = eng.deep(s2, l)
                out += eng.apply(s2, l.a[2][0], []) if l.op == "agg" and l.a[0] == "lazy" else [(s2, TOP)]
            return out
        return lazily(eng, st, v.a[0], make)
    if v.op == "agg" and v.a[0] == "lazy":
        return eng.apply(st, v.a[2][0], [])
    return None


@model_of("std::sync::OnceLock::get_or_init", "std::cell::OnceCell::get_or_init")
def onceinit(eng, st, f, p, args):
    a = args[0]
    if a.op == "static":
        if kept(eng, a):
            return [(st, a)]
        return lazily(eng, st, a.a[0], lambda s: eng.apply(s, args[1], []))
    return None


# ------------------------------------------------------------------ identities
@model_of("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref",
          "std::borrow::Borrow::borrow", "std::borrow::BorrowMut::borrow_mut", "std::convert::AsMut::as_mut",
          "std::boxed::Box::new", "std::sync::Arc::new", "std::rc::Rc::new", "std::hint::must_use",
          "std::string::String::as_str", "std::string::String::as_mut_str", "std::vec::Vec::as_slice",
          "std::vec::Vec::as_mut_slice", "std::borrow::ToOwned::to_owned", "std::borrow::Cow::into_owned",
          "std::borrow::Cow::to_mut", "std::string::String::into_boxed_str", "std::convert::identity",
          "std::pin::Pin::new_unchecked", "std::pin::Pin::new", "std::boxed::Box::pin",
          "std::hint::black_box", "std::vec::Vec::into_boxed_slice", "std::boxed::Box::leak",
          "std::boxed::Box::into_inner", "std::boxed::Box::as_ref", "std::sync::Arc::as_ref",
          "std::string::String::into_string", "std::future::IntoFuture::into_future",
          "std::ops::Deref::deref", "regex::Match::as_str", "std::sync::Arc::clone")
def ident(eng, st, f, p, args):
    a = args[0]
    if p.endswith("::deref"):
        if base_ty(tyname(eng, f, 0)) in ("std::sync::LazyLock", "std::cell::LazyCell"):
            r = lazyforce(eng, st, f, p, args)
            if r is not None:
                return r
        if a.op != "ptr":
            return [(st, a)]
    if p == "regex::Match::as_str":
        return [(st, a)]
    return [(st, a)]


@model_of("std::clone::Clone::clone", "std::string::ToString::to_string", "std::borrow::ToOwned::to_owned",
          "std::slice::<impl [T]>::to_vec", "std::string::String::from_utf8_lossy")
def snap(eng, st, f, p, args):
    v = args[0]
    if v.op == "ptr":
        v = eng.load(st, v)
    if p.endswith("to_string"):
        t = tyname(eng, f, 0)
        b = base_ty(t)
        if b == VAL:
            return [(st, mk("jtext", v))]
        if b in ("char",) and v.op == "int":
            return [(st, S(chr(v.a[0])))]
        if b in INTS and v.op == "int":
            return [(st, S(str(v.a[0])))]
        if b == "bool":
            return [(st, mk("display", v))]
        if b not in ("str", "std::string::String", "std::borrow::Cow", "char", "regex::Match", "std::boxed::Box", "std::sync::Arc"):
            return [(st, mk("display", v))]
    return [(st, v)]


INTS = ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128")


def tyname(eng, f, i):
    a = f.get("a") or []
    return eng.F.tname(a[i]) if i < len(a) else "?"


def base_ty(t):
    while t.startswith("&"):
        t = t[1:]
        if t.startswith("mut "):
            t = t[4:]
    return t.split("<", 1)[0]


@model_of("std::convert::From::from")
def from_(eng, st, f, p, args):
    if f.get("l") or f.get("k"):
        return None
    to, fr = base_ty(tyname(eng, f, 0)), base_ty(tyname(eng, f, 1))
    v = args[0]
    if to == VAL:
        r = to_json(eng, st, v, tyname(eng, f, 1))
        return [(st, r)] if r is not None else None
    if to in ("std::string::String", "std::sync::Arc", "std::boxed::Box", "std::vec::Vec", "std::borrow::Cow", "std::rc::Rc") and \
            (fr in ("str", "std::string::String", "std::borrow::Cow", "std::boxed::Box", "std::vec::Vec", "char") or fr.startswith("[") or to in ("std::sync::Arc", "std::boxed::Box")):
        if fr == "char" and v.op == "int":
            return [(st, S(chr(v.a[0])))]
        return [(st, val(eng, st, v))]
    if to in INTS and fr in INTS:
        return [(st, v)]
    return None


@model_of("std::default::Default::default")
def default(eng, st, f, p, args):
    if f.get("k"):
        return None
    t = tyname(eng, f, 0)
    b = base_ty(t)
    if b == "std::string::String" or t == "&str":
        return [(st, S(""))]
    if b == "std::vec::Vec":
        return [(st, agg("array", 0, ()))]
    if b in INTS or b == "bool":
        return [(st, I(0))]
    if b == "std::option::Option":
        return [(st, NONE)]
    if b == VAL:
        return [(st, JNULL)]
    if b == "serde_json::Map":
        return [(st, agg("map", 0, ()))]
    return [(st, mk("default", t))]


# ------------------------------------------------------------------ comparison
@model_of("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def peq(eng, st, f, p, args):
    if f.get("l") and not f.get("dv"):
        return None
    a, b = (val(eng, st, x) for x in args)
    r = eqv(a, b)
    return [(st, not_(r) if p.endswith("ne") else r)]


def eqv(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "agg" and x.a[0] in (OPT, RES) and y.op not in ("agg", "top", "noise", "upd"):
            d = discr(y)
            nv(d, 2)
            c = eq(d, I(x.a[1]))
            if not x.a[2]:
                return c
            return rebuild("and", (c, eqv(fld(y, x.a[1], 0), x.a[2][0])))
    for x, y in ((a, b), (b, a)):
        # Value == "text"
        if x.op == "agg" and not x.a[2] and x.a[0] not in ("array", "tuple") and y.op not in ("agg", "top", "noise", "upd", "str", "int"):
            d = discr(y)
            return eq(d, I(x.a[1]))
    return eq(a, b)


@model_of("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::ge")
def pord(eng, st, f, p, args):
    if f.get("l"):
        return None
    a, b = (val(eng, st, x) for x in args)
    op = p.rsplit("::", 1)[-1]
    r = {"lt": lambda: lt(a, b), "gt": lambda: lt(b, a), "le": lambda: not_(lt(b, a)), "ge": lambda: not_(lt(a, b))}[op]()
    return [(st, r)]


@model_of("std::ops::Not::not")
def mnot(eng, st, f, p, args):
    return [(st, not_(val(eng, st, args[0])))]


# ------------------------------------------------------------------ closures
@model_of("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def fncall(eng, st, f, p, args):
    t = args[1] if len(args) > 1 else UNIT
    if t.op == "agg" and t.a[0] == "tuple":
        return eng.apply(st, args[0], list(t.a[2]))
    return eng.apply(st, args[0], [t])


# ------------------------------------------------------------------ fmt
@model_of("core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug",
          "core::fmt::rt::Argument::new_lower_hex", "core::fmt::rt::Argument::new_lower_exp")
def fmtarg(eng, st, f, p, args):
    v = val(eng, st, args[0])
    k = p.rsplit("new_", 1)[-1]
    t = tyname(eng, f, 0)
    return [(st, mk("fmtarg", k, v, base_ty(t)))]


def fmt_text(k, v, t):
    if k == "display":
        if t in ("str", "std::string::String", "std::borrow::Cow", "std::boxed::Box", "std::sync::Arc"):
            return v
        if t == "char" and v.op == "int":
            return S(chr(v.a[0]))
        if t in INTS and v.op == "int":
            return S(str(v.a[0]))
        if t == VAL:
            return mk("jtext", v)
        return mk("display", v)
    return mk("fmt_" + k, v)


@model_of("std::fmt::Arguments::new")
def fmtnew(eng, st, f, p, args):
    t, a = args
    if t.op != "agg":
        return [(st, mk("fmtargs", TOP))]
    bs = [x.a[0] for x in t.a[2]]
    out = []
    i = 0
    ai = 0
    items = a.a[2] if a.op == "agg" else None
    try:
        while i < len(bs):
            n = bs[i]
            i += 1
            if n == 0:
                break
            if n < 0x80:
                out.append(S(bytes(bs[i:i + n]).decode("utf-8", "replace")))
                i += n
                continue
            if n == 0x80:
                ln = bs[i] | bs[i + 1] << 8
                i += 2
                out.append(S(bytes(bs[i:i + ln]).decode("utf-8", "replace")))
                i += ln
                continue
            opts = ()
            if n & 1:
                opts += (("flags", tuple(bs[i:i + 4])),)
                i += 4
            if n & 2:
                opts += (("width", tuple(bs[i:i + 2])),)
                i += 2
            if n & 4:
                opts += (("prec", tuple(bs[i:i + 2])),)
                i += 2
            if n & 8:
                ai = bs[i] | bs[i + 1] << 8
                i += 2
            x = items[ai]
            ai += 1
            v = fmt_text(*x.a)
            if n & 6 or opts:
                v = mk("fmtopt", repr(opts), v)
            out.append(v)
    except (IndexError, TypeError):
        return [(st, mk("fmtargs", TOP))]
    return [(st, mk("fmtargs", concat(*out)))]


@model_of("std::fmt::Arguments::from_str", "std::fmt::Arguments::new_const")
def fmtstr(eng, st, f, p, args):
    a = args[0]
    if a.op == "agg":
        a = concat(*a.a[2])
    return [(st, mk("fmtargs", a))]


@model_of("std::fmt::format", "alloc::fmt::format")
def fmtformat(eng, st, f, p, args):
    a = args[0]
    return [(st, a.a[0] if a.op == "fmtargs" else mk("display", a))]


@model_of("std::fmt::Write::write_fmt", "std::string::String::write_fmt")
def wfmt(eng, st, f, p, args):
    a = args[1]
    return append(eng, st, args[0], a.a[0] if a.op == "fmtargs" else TOP, ok(UNIT))


@model_of("std::fmt::Write::write_str")
def wstr(eng, st, f, p, args):
    return append(eng, st, args[0], args[1], ok(UNIT))


def append(eng, st, ptr, x, ret=UNIT):
    if ptr.op != "ptr":
        return [(st, ret)]
    st = st.copy()
    if x.op == "int":
        x = S(chr(x.a[0]))
    old = eng.load(st, ptr)
    eng.store(st, ptr, TOP if old.op == "top" else concat(old, val(eng, st, x)))
    return [(st, ret)]


@model_of("std::string::String::push_str", "std::string::String::push", "std::ops::AddAssign::add_assign",
          "std::string::String::extend_from_within")
def push_str(eng, st, f, p, args):
    if p.endswith("add_assign") and base_ty(tyname(eng, f, 0)) != "std::string::String":
        if args[0].op == "ptr":
            st = st.copy()
            eng.store(st, args[0], eng.binop("Add", eng.load(st, args[0]), val(eng, st, args[1])))
            return [(st, UNIT)]
        return None
    return append(eng, st, args[0], args[1])


@model_of("std::string::String::insert_str")
def insert_str(eng, st, f, p, args):
    if args[0].op == "ptr" and args[1] is I(0):
        st = st.copy()
        eng.store(st, args[0], concat(val(eng, st, args[2]), eng.load(st, args[0])))
        return [(st, UNIT)]
    return None


@model_of("std::ops::Add::add")
def add(eng, st, f, p, args):
    t = base_ty(tyname(eng, f, 0))
    if t == "std::string::String":
        return [(st, concat(val(eng, st, args[0]), val(eng, st, args[1])))]
    if t in INTS:
        return [(st, eng.binop("Add", val(eng, st, args[0]), val(eng, st, args[1])))]
    return None


@model_of("std::string::String::new", "std::string::String::with_capacity")
def snew(eng, st, f, p, args):
    return [(st, S(""))]


@model_of("std::string::String::clear")
def sclear(eng, st, f, p, args):
    st = st.copy()
    eng.store(st, args[0], S(""))
    return [(st, UNIT)]


@model_of("std::string::String::len", "std::vec::Vec::len", "serde_json::Map::len")
def length_(eng, st, f, p, args):
    v = val(eng, st, args[0])
    if entries(v) is not None:
        return [(st, I(len(entries(v))))]
    if v.op == "bytes":
        v = v.a[0]
    return [(st, length(v))]


@model_of("std::string::String::is_empty", "std::vec::Vec::is_empty", "serde_json::Map::is_empty")
def isempty_(eng, st, f, p, args):
    v = val(eng, st, args[0])
    if v.op == "agg" and v.a[0] == "map":
        return [(st, TRUE)]
    if v.op == "mapins":
        return [(st, FALSE)]
    if v.op == "bytes":
        v = v.a[0]
    return [(st, isempty(v))]


# ------------------------------------------------------------------ str
def pat(eng, st, x):
    x = val(eng, st, x)
    if x.op == "int":
        return S(chr(x.a[0]))
    if x.op == "agg" and x.a[0] == "array":
        return mk("charset", tuple(sorted(chr(i.a[0]) for i in x.a[2] if i.op == "int")))
    if x.op == "agg" and x.a[0].startswith("closure:"):
        eng.run_unknown_closure(st, x)
    return x


def found(s, p):
    if s.op == "str" and p.op == "str":
        return I(p.a[0] in s.a[0])
    if s.op in ("top", "noise"):
        return s
    return nv(mk("found", s, p), 2)


def pos(s, p, last=False):
    if s.op == "str" and p.op == "str":
        h = s.a[0].encode()
        i = (h.rfind if last else h.find)(p.a[0].encode())
        return I(i)
    return mk("rpos" if last else "pos", s, p)


def plen(p):
    if p.op == "str":
        return I(len(p.a[0].encode()))
    if p.op == "charset" and all(ord(c) < 128 for c in p.a[0]):
        return I(1)
    return mk("len", p)


def substr(s, a, b):
    """s[a..b]; a None/0 = start, b None = end"""
    if a is None:
        a = I(0)
    if a is I(0) and b is None:
        return s
    if shape.shaped(s):
        r = shape.cut(s, a, b)
        if r is not None:
            return r
    if s.op == "str" and a.op == "int" and (b is None or b.op == "int"):
        h = s.a[0].encode()
        try:
            return S(h[a.a[0]:(b.a[0] if b is not None else None)].decode())
        except UnicodeDecodeError:
            return mk("absurd")
    if s.op == "substr" and s.a[2] is None and b is None:
        return substr(s.a[0], E.mksum(s.a[1], a), None)
    if s.op == "substr" and s.a[2] is None:
        return substr(s.a[0], E.mksum(s.a[1], a), E.mksum(s.a[1], b))
    return mk("substr", s, a, b)


def split2(eng, st, t):
    """states where boolean term t holds / fails"""
    return eng.truth(st, t)


M2 = {}


def smethod(*names):
    def deco(fn):
        for n in names:
            M2[n] = fn
            M["std::string::String::" + n] = M.get("std::string::String::" + n, fn)
        return fn
    return deco


@smethod("find", "rfind")
def sfind(eng, st, f, p, args):
    s = val(eng, st, args[0])
    pt = pat(eng, st, args[1])
    if shape.textual(s):
        i = shape.search(eng, st, s, pt, p.endswith("rfind"))
        if i is not None:
            return [(st, NONE if i < 0 else some(shape.items(s)[1][i]))]
    y, n = split2(eng, st, found(s, pt))
    out = []
    if y is not None:
        out.append((y, some(pos(s, pt, p.endswith("rfind")))))
    if n is not None:
        out.append((n, NONE))
    return out


@smethod("contains")
def scontains(eng, st, f, p, args):
    s, q = val(eng, st, args[0]), pat(eng, st, args[1])
    if shape.textual(s):
        i = shape.search(eng, st, s, q)
        if i is not None:
            return [(st, I(i >= 0))]
    return [(st, found(s, q))]


@smethod("starts_with", "ends_with")
def sstarts(eng, st, f, p, args):
    s, q = val(eng, st, args[0]), pat(eng, st, args[1])
    op = "starts" if p.endswith("starts_with") else "ends"
    if s.op == "str" and q.op == "str":
        return [(st, I(s.a[0].startswith(q.a[0]) if op == "starts" else s.a[0].endswith(q.a[0])))]
    if shape.textual(s):
        r = shape.starts(s, q, op == "ends", eng, st)
        if r is not None:
            return [(st, I(r))]
    return [(st, nv(mk(op, s, q), 2))]


@smethod("split_once", "rsplit_once")
def ssplit_once(eng, st, f, p, args):
    s, q = val(eng, st, args[0]), pat(eng, st, args[1])
    if shape.textual(s):
        i = shape.search(eng, st, s, q, p.endswith("rsplit_once"))
        if i is not None and i < 0:
            return [(st, NONE)]
        if i is not None:
            its = shape.items(s)[0]
            k = len(q.a[0]) if q.op == "str" else 1
            return [(st, some(tup(shape.text(its[:i]), shape.text(its[i + k:]))))]
    y, n = split2(eng, st, found(s, q))
    out = []
    if y is not None:
        ps = pos(s, q, p.endswith("rsplit_once"))
        out.append((y, some(tup(substr(s, None, ps), substr(s, E.mksum(ps, plen(q)), None)))))
    if n is not None:
        out.append((n, NONE))
    return out


@smethod("strip_prefix", "strip_suffix")
def sstrip(eng, st, f, p, args):
    s, q = val(eng, st, args[0]), pat(eng, st, args[1])
    pre = p.endswith("prefix")
    if shape.textual(s) and q.op == "str":
        r = shape.starts(s, q, not pre)
        if r is not None:
            its = shape.items(s)[0]
            k = len(q.a[0])
            return [(st, some(shape.text(its[k:] if pre else its[:len(its) - k])) if r else NONE)]
    t = nv(mk("starts" if pre else "ends", s, q), 2) if not (s.op == "str" and q.op == "str") else I(s.a[0].startswith(q.a[0]) if pre else s.a[0].endswith(q.a[0]))
    y, n = split2(eng, st, t)
    out = []
    if y is not None:
        out.append((y, some(substr(s, plen(q), None) if pre else mk("stripsuf", s, q))))
    if n is not None:
        out.append((n, NONE))
    return out


@smethod("trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "replace", "replacen",
         "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "repeat")
def sun(eng, st, f, p, args):
    n = p.rsplit("::", 1)[-1]
    vs = [val(eng, st, args[0])] + [pat(eng, st, x) if not (n in ("repeat", "replacen") and i > 0) else val(eng, st, x) for i, x in enumerate(args[1:])]
    if n == "replace":
        vs[2] = val(eng, st, args[2])
    if all(v.op == "str" for v in vs):
        a = [v.a[0] for v in vs]
        if n in ("trim", "trim_start", "trim_end"):
            x = a[0]
            if n != "trim_end":
                x = x.lstrip(shape.UWS)
            if n != "trim_start":
                x = x.rstrip(shape.UWS)
            return [(st, S(x))]
        if n == "replace":
            return [(st, S(a[0].replace(a[1], a[2])))]
    if shape.shaped(vs[0]) or (vs[0].op == "str" and n.startswith("trim")):
        r = None
        if n in ("trim", "trim_start", "trim_end"):
            r = shape.trim(vs[0], n != "trim_end", n != "trim_start")
        elif n == "replace":
            r = shape.replace(eng, st, vs[0], vs[1], vs[2])
        elif n == "replacen" and vs[2].op == "str" and vs[3].op == "int":
            r = shape.replace(eng, st, vs[0], vs[1], vs[2], vs[3].a[0])
        elif n in ("trim_start_matches", "trim_matches", "trim_end_matches") and vs[1].op != "str":
            r = shape.trim_pred(eng, st, vs[0], vs[1], n != "trim_end_matches", n != "trim_start_matches")
        elif n in ("trim_start_matches", "trim_matches", "trim_end_matches") and vs[1].op == "str" and vs[1].a[0]:
            r = vs[0]
            for end in ((False,) if "start" in n else (True,) if "end" in n else (False, True)):
                while r is not None and shape.textual(r):
                    h = shape.starts(r, vs[1], end)
                    if h is None:
                        r = None
                    if not h:
                        break
                    its = shape.items(r)[0]
                    k = len(vs[1].a[0])
                    r = shape.text(its[:len(its) - k] if end else its[k:])
        if r is not None:
            return [(st, r)]
    if n in ("trim",) and vs[0].op == "trim":
        return [(st, vs[0])]
    return [(st, mk(n, *vs))]


@model_of("std::iter::DoubleEndedIterator::next_back", "std::iter::Iterator::last")
def next_back(eng, st, f, p, args):
    a = args[0]
    it = eng.load(st, a) if a.op == "ptr" else a
    if it.op == "it" and it.a[0].op == "agg" and it.a[0].a[0] == "array" and isinstance(it.a[1], int):
        xs = it.a[0].a[2]
        if it.a[1] >= len(xs):
            return [(st, NONE)]
        if a.op == "ptr" and not p.endswith("last"):
            st = st.copy()
            eng.store(st, a, mk("it", agg("array", 0, xs[:-1]), it.a[1]))
        return [(st, some(xs[-1]))]
    return None


@smethod("len")
def slen(eng, st, f, p, args):
    return length_(eng, st, f, p, args)


@smethod("is_empty")
def sisempty(eng, st, f, p, args):
    return isempty_(eng, st, f, p, args)


@smethod("as_bytes", "bytes", "into_bytes")
def sbytes(eng, st, f, p, args):
    v = mk("bytes", val(eng, st, args[0]))
    return [(st, mk("it", v, 0) if p.endswith("::bytes") else v)]


@smethod("chars")
def schars(eng, st, f, p, args):
    return [(st, mk("it", mk("chars", val(eng, st, args[0])), 0))]


@smethod("char_indices", "split", "lines", "split_whitespace", "splitn", "rsplit", "split_terminator")
def ssplit(eng, st, f, p, args):
    n = p.rsplit("::", 1)[-1]
    s = val(eng, st, args[0])
    if s.op == "str" and n in ("split_whitespace", "lines"):
        ps = s.a[0].split() if n == "split_whitespace" else s.a[0].replace("\r\n", "\n").rstrip("\n").split("\n")
        return [(st, mk("it", agg("array", 0, [S(x) for x in ps]), 0))]
    if s.op == "str" and n in ("split", "rsplit", "split_terminator"):
        q = pat(eng, st, args[1])
        ps = None
        if q.op == "str" and q.a[0]:
            ps = s.a[0].split(q.a[0])
        elif q.op != "str":
            test = shape.chartest(eng, st, q)
            vs = [test(c) for c in s.a[0]]
            if None not in vs:
                ps = [""]
                for c, v in zip(s.a[0], vs):
                    if v:
                        ps.append("")
                    else:
                        ps[-1] += c
        if ps is not None:
            if n == "split_terminator" and ps[-1] == "":
                ps.pop()
            if n == "rsplit":
                ps.reverse()
            return [(st, mk("it", agg("array", 0, [S(x) for x in ps]), 0))]
    if n in ("split", "rsplit"):
        q = pat(eng, st, args[1])
        if shape.shaped(s) and (q.op != "str" or q.a[0]):
            its = shape.items(s)[0]
            if q.op == "str":
                oc, w = shape.occurrences(eng, st, s, q), len(q.a[0])
            else:
                oc, w, i = [], 1, -1
                while oc is not None:
                    i = shape.search(eng, st, s, q, start=i + 1)
                    if i == -1:
                        break
                    oc = None if i is None else oc + [i]
            if oc is not None:
                out, i = [], 0
                for o in oc:
                    out.append(shape.text(its[i:o]))
                    i = o + w
                out.append(shape.text(its[i:]))
                if n == "rsplit":
                    out.reverse()
                return [(st, mk("it", agg("array", 0, out), 0))]
            i = shape.search(eng, st, s, q) if n == "split" and q.op == "str" else None
            if i is not None and i >= 0:
                # the first piece is known; the rest is not
                return [(st, mk("it", mk("split1", shape.text(its[:i]), s, q), 0))]
    return [(st, mk("it", mk(n, *([val(eng, st, args[0])] + [pat(eng, st, x) for x in args[1:]])), 0))]


@smethod("to_owned", "as_str", "into_string", "to_string", "into_boxed_str")
def sid(eng, st, f, p, args):
    return [(st, val(eng, st, args[0]))]


@smethod("get")
def sget(eng, st, f, p, args):
    s, r = val(eng, st, args[0]), val(eng, st, args[1])
    a, b = range_bounds(r)
    if shape.shaped(s):
        i, j = shape.at(s, a or I(0)), shape.at(s, b)
        if i is not None and j is not None:
            return [(st, some(substr(s, a, b)) if i <= j else NONE)]
    t = nv(mk("validrange", s, a or I(0), b if b is not None else mk("len", s)), 2)
    y, n = split2(eng, st, t)
    out = []
    if y is not None:
        out.append((y, some(substr(s, a, b))))
    if n is not None:
        out.append((n, NONE))
    return out


@smethod("is_char_boundary")
def sicb(eng, st, f, p, args):
    return [(st, nv(mk("charboundary", val(eng, st, args[0]), val(eng, st, args[1])), 2))]


@smethod("split_at")
def ssplit_at(eng, st, f, p, args):
    s, a = val(eng, st, args[0]), val(eng, st, args[1])
    if not slice_ok(st, s, a, None):
        eng.panic(st, "str-slice", (s, a))
    return [(st, tup(substr(s, None, a), substr(s, a, None)))]


@smethod("eq_ignore_ascii_case")
def seqi(eng, st, f, p, args):
    a, b = val(eng, st, args[0]), val(eng, st, args[1])
    if a.op == "str" and b.op == "str":
        fold = lambda t: "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in t.a[0])
        return [(st, I(fold(a) == fold(b)))]
    return [(st, nv(mk("eqi", a, b), 2))]


@smethod("parse")
def sparse(eng, st, f, p, args):
    return None


def range_bounds(r):
    """(start or None, end or None) of a range value; end exclusive"""
    if r.op == "agg":
        k = r.a[0]
        fs = r.a[2]
        if k.endswith("::RangeFrom"):
            return fs[0], None
        if k.endswith("::RangeTo"):
            return None, fs[0]
        if k.endswith("::RangeFull"):
            return None, None
        if k.endswith("::Range"):
            return fs[0], fs[1]
        if k.endswith("::RangeToInclusive"):
            return None, E.mksum(fs[0], I(1))
        if k.endswith("::RangeInclusive"):
            return fs[0], E.mksum(fs[1], I(1))
    return None, None


# offsets known to be char boundaries of s
def valid_offset(st, s, t):
    if t is I(0) or t is mk("len", s):
        return True
    if t.op == "int":
        # s starts with a constant of at least that many bytes
        k = t.a[0]
        for c in st.g:
            ok_ = False
            for (x, op, v) in c:
                if x.op == "starts" and x.a[0] is s and op == "=" and v == 1 and x.a[1].op == "str":
                    ok_ = ok_ or boundary(x.a[1].a[0], k)
            if not ok_:
                return False
        return bool(st.g)
    # work in the text s is cut from, where offsets of nested suffixes are comparable
    r, k = s, I(0)
    if s.op == "substr" and s.a[2] is None:
        r, k = s.a[0], s.a[1]
    T0 = E.mksum(k, t)
    parts, c = sumparts(T0)
    for x in parts:
        ci = x.op == "field" and x.a[1:] == (0,) and x.a[0].op == "elem" and x.a[0].a[0].op == "char_indices"
        if x.op in ("pos", "rpos") or ci:
            rest = list(parts)
            rest.remove(x)
            # (the characters of a text start at boundaries inside it)
            h, q = (x.a[0].a[0].a[0], S("")) if ci else x.a
            if h.op == "substr" and h.a[0] is r:
                base = h.a[1]
            elif h is r:
                base = I(0)
            else:
                continue
            bp, bc = sumparts(base)
            if sorted(rest, key=repr) == sorted(bp, key=repr) and c >= bc:
                # the text searched exists (its slice was checked where it was taken) and q occurs in it at x
                if adv_ok(q, c - bc) and (k is I(0) or nonneg_parts(k, base) or k is base):
                    return True
            # past a match of q that ends at this offset: len(q) symbolic
            if q.op not in ("str", "charset"):
                ln = plen(q)
                lp, lc = sumparts(ln)
                rem = list(rest)
                good = True
                for y in list(bp) + list(lp):
                    if y in rem:
                        rem.remove(y)
                    else:
                        good = False
                if good and not rem and c == bc + lc and nonneg_parts(k, base):
                    return True
    # the very start of an existing suffix
    if T0 is k:
        return True
    return False


def sumparts(t):
    if t.op == "sum":
        return list(t.a[0]), t.a[1]
    if t.op == "int":
        return [], t.a[0]
    return [t], 0


def nonneg_parts(a, b):
    """b - a is a sum of non-negative quantities"""
    ap, ac = sumparts(a)
    bp, bc = sumparts(b)
    rest = list(bp)
    for x in ap:
        if x in rest:
            rest.remove(x)
        else:
            return False
    return bc >= ac


def boundary(text, k):
    b = text.encode()
    return k <= len(b) and (k == len(b) or (b[k] & 0xC0) != 0x80)


def adv_ok(q, k):
    """advancing k bytes from a match of pattern q stays on a boundary inside the string"""
    if k == 0:
        return True
    if q.op == "str":
        return boundary(q.a[0], k)
    if q.op == "charset":
        return k == 1 and all(ord(c) < 128 for c in q.a[0])
    if q.op == "concat":
        # a constant prefix
        return q.a[0].op == "str" and boundary(q.a[0].a[0], k)
    return False


def nonneg_diff(st, s, a, b):
    """a <= b is known"""
    if a is b or a is I(0):
        return True
    if b is mk("len", s):
        return True
    ap, ac = (list(a.a[0]), a.a[1]) if a.op == "sum" else (([a], 0) if a.op != "int" else ([], a.a[0]))
    bp, bc = (list(b.a[0]), b.a[1]) if b.op == "sum" else (([b], 0) if b.op != "int" else ([], b.a[0]))
    rest = list(bp)
    okk = True
    for x in ap:
        if x in rest:
            rest.remove(x)
        else:
            okk = False
    if okk and bc >= ac:
        return True
    for c in st.g:
        if not any((x is lt(a, b) and op == "=" and v == 1) or (x is lt(b, a) and op == "=" and v == 0) for (x, op, v) in c):
            return False
    return bool(st.g)


def slice_ok(st, s, a, b):
    a0 = a or I(0)
    if shape.shaped(s):
        i, j = shape.at(s, a0), shape.at(s, b)
        if i is not None and j is not None:
            return i <= j
    if s.op == "str" and a0.op == "int" and (b is None or b.op == "int"):
        n = len(s.a[0].encode())
        return boundary(s.a[0], a0.a[0]) and (b is None or (a0.a[0] <= b.a[0] and boundary(s.a[0], b.a[0])))
    if not valid_offset(st, s, a0):
        return False
    if b is None:
        return True
    return valid_offset(st, s, b) and nonneg_diff(st, s, a0, b)


@model_of("std::ops::Index::index")
def index_(eng, st, f, p, args):
    t = base_ty(tyname(eng, f, 0))
    if t.startswith("regex::Captures"):
        r = rxget(eng, st, f, p, args)
        out = []
        for s2, o in r or ():
            if o.op == "agg" and o.a[1] == 1:
                out.append((s2, o.a[2][0]))
            else:
                eng.panic(s2, "group", (val(eng, st, args[0]), val(eng, st, args[1])))
        return out if r is not None else None
    it = tyname(eng, f, 1)
    v = val(eng, st, args[0])
    i = val(eng, st, args[1])
    if t in ("str", "std::string::String"):
        a, b = range_bounds(i)
        if not slice_ok(st, v, a, b):
            eng.panic(st, "str-slice", (v, a or I(0), b if b is not None else mk("len", v)))
        return [(st, substr(v, a, b))]
    if t == VAL:
        if base_ty(it) in ("str", "std::string::String"):
            return jindex(eng, st, v, i)
        return None
    if t in ("serde_json::Map", "std::collections::HashMap", "std::collections::BTreeMap"):
        if v.op not in ("agg", "mapins", "maprem", "mapget") and t != "serde_json::Map":
            return None
        out = []
        for s2, o in map_get(eng, st, v, i):
            for var, s3 in eng.variants(s2, o):
                if var == 1:
                    out.append((s3, fld(o, 1, 0)))
                else:
                    eng.panic(s3, "map-index", (v, i))
        return out
    if t in ("std::vec::Vec",) or t.startswith("["):
        a, b = range_bounds(i)
        if i.op == "agg" and (a is not None or b is not None):
            eng.panic(st, "slice-range", (v, i))
            return [(st, mk("subslice", v, a or I(0), b if b is not None else mk("len", v)))]
        bad = st.assume(lt(i, length(v)), 0)
        if bad is not None and not in_bounds(bad, v, i):
            eng.panic(bad, "index", (v, i))
        good = st.assume(lt(i, length(v)), 1)
        return [(good, index2(v, i))] if good is not None else []
    return None


def in_bounds(st, v, i):
    if i.op == "elem" and i.a[0].op == "range" and i.a[0].a[1] is length(v):
        return True
    return False


def discharge_assert(eng, st, kind, cond, ops):
    """is this failing assertion state impossible for reasons beyond its guard?"""
    if kind == "bounds":
        ln, ix = ops
        if ix.op == "elem" and ix.a[0].op == "range" and ix.a[0].a[1] is ln:
            return True
        return False
    if kind.startswith("overflow:"):
        # positions and lengths of texts in memory, and small constants, cannot overflow usize
        def bounded(x, d=0):
            if x.op == "int":
                return abs(x.a[0]) < 2 ** 40
            if x.op in ("pos", "rpos", "len", "nchars", "count", "ctr", "elem", "enumidx"):
                return True
            if x.op == "sum":
                return all(bounded(y) for y in x.a[0])
            return False
        if kind == "overflow:Add":
            return all(bounded(x) for x in ops)
        if kind == "overflow:Mul":
            return all(bounded(x) for x in ops) and any(x.op == "int" for x in ops)
        if kind == "overflow:Sub":
            a, b = ops
            return nonneg_diff(st, UNIT, b, a)
    return False


@model_of("std::ops::IndexMut::index_mut")
def index_mut(eng, st, f, p, args):
    t = base_ty(tyname(eng, f, 0))
    it = base_ty(tyname(eng, f, 1))
    a = args[0]
    if t == VAL and it in ("str", "std::string::String") and a.op == "ptr":
        k = val(eng, st, args[1])
        mp = msg_ctx(a, k)
        if mp is not None:
            return [(st, mp)]
        v = eng.load(st, a)
        d = discr(v)
        if d.op == "discr":
            nv(d, 6)
        out = []
        y = st.assume(d, V_OBJ) if d.op != "int" else (st if d.a[0] == V_OBJ else None)
        n = st.assume(d, V_OBJ, True) if d.op != "int" else (st if d.a[0] != V_OBJ else None)
        if n is not None:
            z = n.assume(d, V_NULL) if d.op != "int" else (n if d.a[0] == V_NULL else None)
            w = n.assume(d, V_NULL, True) if d.op != "int" else (n if d.a[0] != V_NULL else None)
            if w is not None:
                eng.panic(w, "value-index-mut", (v, k))
            if z is not None:
                z = z.copy()
                eng.store(z, a, agg(VAL, V_OBJ, (agg("map", 0, ()),)))
                out.append((z, mk("ptr", a.a[0], a.a[1] + (("f", V_OBJ, 0), ("map", k)))))
        if y is not None:
            out.append((y, mk("ptr", a.a[0], a.a[1] + (("f", V_OBJ, 0), ("map", k)))))
        return out
    if a.op == "ptr":
        i = val(eng, st, args[1])
        v = eng.load(st, a)
        if t == "std::vec::Vec" or t.startswith("["):
            bad = st.assume(lt(i, length(v)), 0)
            if bad is not None and not in_bounds(bad, v, i):
                eng.panic(bad, "index", (v, i))
            return [(st, mk("ptr", a.a[0], a.a[1] + (("i", i),)))]
    return None


# ------------------------------------------------------------------ serde_json
def map_get_term(m, k):
    """Option<&Value> term, when it is determined without a split"""
    while True:
        if m.op == "agg" and m.a[0] == "map":
            return NONE
        if m.op == "mapins":
            b, k2, v = m.a
            if k2 is k:
                return some(v)
            if is_const(k) and is_const(k2):
                m = b
                continue
            return None
        if m.op == "maprem":
            b, k2 = m.a
            if k2 is k:
                return NONE
            if is_const(k) and is_const(k2):
                m = b
                continue
            return None
        t = mk("mapget", m, k)
        nv(mk("discr", t), 2)
        return t


def map_get(eng, st, m, k):
    t = map_get_term(m, k)
    if t is not None:
        return [(st, t)]
    b, k2 = m.a[0], m.a[1]
    y, n = eng.truth(st, eq(k, k2))
    out = []
    if y is not None:
        out.append((y, some(m.a[2]) if m.op == "mapins" else NONE))
    if n is not None:
        out += map_get(eng, n, b, k)
    return out


def map_get_or_null(v, k):
    t = map_get_term(v, k)
    if t is not None and t.op == "agg":
        return t.a[2][0] if t.a[1] == 1 else JNULL
    if t is None:
        t = mk("mapget", v, k)
    return fld(t, 1, 0)


def map_insert(m, k, v):
    # replace an earlier value of the same key
    if m.op == "mapins":
        if m.a[1] is k:
            return mk("mapins", m.a[0], k, v)
        if is_const(k) and is_const(m.a[1]) and map_has(m.a[0], k):
            return mk("mapins", map_insert(m.a[0], k, v), m.a[1], m.a[2])
    return mk("mapins", m, k, v)


def map_has(m, k):
    while m.op == "mapins":
        if m.a[1] is k:
            return True
        if not is_const(m.a[1]):
            return False
        m = m.a[0]
    return False


def to_json(eng, st, v, t):
    """JSON Value term of v : t for the types whose conversion cannot fail, else None"""
    v = val(eng, st, v)
    while t.startswith("&"):
        t = t[1:]
        if t.startswith("mut "):
            t = t[4:]
    b = t.split("<", 1)[0]
    if b == VAL:
        return v
    if b in ("str", "std::string::String"):
        return agg(VAL, V_STR, (v,))
    if b in ("std::borrow::Cow", "std::boxed::Box", "std::sync::Arc"):
        inner = t[len(b):].strip("<>")
        return to_json(eng, st, v, inner)
    if b == "bool":
        return agg(VAL, V_BOOL, (v,))
    if b in INTS:
        return agg(VAL, V_NUM, (v,))
    if b == "std::vec::Vec" or t.startswith("["):
        inner = t[len("std::vec::Vec<"):-1] if b == "std::vec::Vec" else t[1:-1].split(";")[0]
        if to_json(eng, st, mk("sym", "?"), inner) is None:
            return None
        if v.op == "agg" and v.a[0] == "array":
            return agg(VAL, V_ARR, (agg("array", 0, [to_json(eng, st, x, inner) for x in v.a[2]]),))
        return agg(VAL, V_ARR, (mk("jitems", v),))
    if b == "std::option::Option":
        if v.op == "agg":
            return JNULL if v.a[1] == 0 else to_json(eng, st, v.a[2][0], t[len("std::option::Option<"):-1])
        return None
    if b == "serde_json::Map":
        return agg(VAL, V_OBJ, (v,))
    if t == "()":
        return JNULL
    return None


@model_of("serde_json::to_value", "serde_json::value::to_value")
def to_value(eng, st, f, p, args):
    r = to_json(eng, st, args[0], tyname(eng, f, 0))
    if r is not None:
        return [(st, ok(r))]
    t = tyname(eng, f, 0).lstrip("&")
    return [(st, mk("call", "serde_json::to_value", (t,), (val(eng, st, args[0]),), None))]


@model_of("serde_json::from_value")
def from_value(eng, st, f, p, args):
    t = tyname(eng, f, 0)
    if t == VAL:
        return [(st, ok(val(eng, st, args[0])))]
    return None


def dv(v):
    d = discr(v)
    if d.op == "discr":
        nv(d, 6)
    return d


@model_of("serde_json::Value::as_object", "serde_json::Value::as_str", "serde_json::Value::as_array", "serde_json::Value::as_bool",
          "serde_json::Value::as_object_mut", "serde_json::Value::as_array_mut")
def jas(eng, st, f, p, args):
    n = p.rsplit("::", 1)[-1]
    var = {"as_object": V_OBJ, "as_object_mut": V_OBJ, "as_str": V_STR, "as_array": V_ARR, "as_array_mut": V_ARR, "as_bool": V_BOOL}[n]
    a = args[0]
    v = eng.load(st, a) if a.op == "ptr" else a
    y, no = eng.truth(st, eq(dv(v), I(var)))
    out = []
    if y is not None:
        if n.endswith("_mut") and a.op == "ptr":
            r = mk("ptr", a.a[0], a.a[1] + (("f", var, 0),))
        else:
            r = fld(v, var, 0)
        out.append((y, some(r)))
    if no is not None:
        out.append((no, NONE))
    return out


@model_of("serde_json::Value::is_object", "serde_json::Value::is_string", "serde_json::Value::is_array", "serde_json::Value::is_null",
          "serde_json::Value::is_boolean", "serde_json::Value::is_number")
def jis(eng, st, f, p, args):
    var = {"is_object": V_OBJ, "is_string": V_STR, "is_array": V_ARR, "is_null": V_NULL, "is_boolean": V_BOOL, "is_number": V_NUM}[p.rsplit("::", 1)[-1]]
    return [(st, eq(dv(val(eng, st, args[0])), I(var)))]


@model_of("serde_json::Value::get")
def jget(eng, st, f, p, args):
    v, k = val(eng, st, args[0]), val(eng, st, args[1])
    t = tyname(eng, f, 0)
    if base_ty(t) not in ("str", "std::string::String"):
        return None
    return jget_(eng, st, v, k)


def jget_(eng, st, v, k):
    m = msg_ctx_val(v, k)
    if m is not None:
        return [(st, some(m))]
    y, n = eng.truth(st, eq(dv(v), I(V_OBJ)))
    out = []
    if y is not None:
        for s2, o in map_get(eng, y, fld(v, V_OBJ, 0), k):
            # split, so that presence becomes part of the path condition
            for var, s3 in eng.variants(s2, o):
                out.append((s3, some(fld(o, 1, 0)) if var else NONE))
    if n is not None:
        out.append((n, NONE))
    return out


def jindex(eng, st, v, k):
    out = []
    for s2, o in jget_(eng, st, v, k):
        out.append((s2, o.a[2][0] if o.a[1] == 1 else JNULL))
    return out


def msg_ctx_val(v, k):
    if v.op == "fld" and v.a[2] == 2 and v.a[0] is MSG and k.op == "str" and k.a[0] in ("data", "metadata", "temp_data"):
        return fld(v.a[0], None, k.a[0])
    return None


MSG = mk("sym", "message")


def msg_ctx(a, k):
    if a.a[1] == (("f", None, 2),) and a.a[0] == ("R", "msg") and k.op == "str" and k.a[0] in ("data", "metadata", "temp_data"):
        return mk("ptr", a.a[0], (("f", None, k.a[0]),))
    return None


@model_of("serde_json::Value::get_mut")
def jget_mut(eng, st, f, p, args):
    a = args[0]
    k = val(eng, st, args[1])
    if a.op != "ptr" or base_ty(tyname(eng, f, 0)) not in ("str", "std::string::String"):
        return None
    mp = msg_ctx(a, k)
    if mp is not None:
        return [(st, some(mp))]
    v = eng.load(st, a)
    out = []
    for s2, o in jget_(eng, st, v, k):
        out.append((s2, some(mk("ptr", a.a[0], a.a[1] + (("f", V_OBJ, 0), ("map", k)))) if o.a[1] == 1 else NONE))
    return out


@model_of("serde_json::Value::pointer")
def jpointer(eng, st, f, p, args):
    v, k = val(eng, st, args[0]), val(eng, st, args[1])
    if k.op == "str" and k.a[0].startswith("/") and "~" not in k.a[0]:
        keys = k.a[0][1:].split("/")
        cur = [(st, some(v))]
        for q in keys:
            nxt = []
            for s, o in cur:
                if o.a[1] == 0:
                    nxt.append((s, NONE))
                else:
                    nxt += jget_(eng, s, o.a[2][0], S(q))
            cur = nxt
        return cur
    return None


@model_of("serde_json::Value::take")
def jtake(eng, st, f, p, args):
    if args[0].op != "ptr":
        return None
    st = st.copy()
    old = eng.load(st, args[0])
    eng.store(st, args[0], JNULL)
    return [(st, old)]


@model_of("serde_json::Map::new", "serde_json::Map::with_capacity",
          "std::collections::HashMap::new",
          "std::collections::BTreeMap::new",
          "std::collections::HashSet::new",
          "std::collections::BTreeSet::new",
          "std::collections::HashMap::with_capacity",
          "std::collections::HashSet::with_capacity")
def mapnew(eng, st, f, p, args):
    return [(st, agg("map", 0, ()))]


@model_of("serde_json::Map::insert",
          "std::collections::HashMap::insert",
          "std::collections::BTreeMap::insert")
def mapinsert(eng, st, f, p, args):
    a = args[0]
    if a.op != "ptr":
        return None
    k, v = val(eng, st, args[1]), val(eng, st, args[2])
    out = []
    m = eng.load(st, a)
    rets = map_get(eng, st, m, k)
    for s2, o in rets:
        s2 = s2.copy()
        eng.store(s2, mk("ptr", a.a[0], a.a[1] + (("map", k),)), v)
        out.append((s2, o))
    return out


@model_of("serde_json::Map::get", "serde_json::Map::contains_key",
          "std::collections::HashMap::get",
          "std::collections::HashMap::contains_key",
          "std::collections::BTreeMap::get",
          "std::collections::BTreeMap::contains_key")
def mapget(eng, st, f, p, args):
    m, k = val(eng, st, args[0]), val(eng, st, args[1])
    r = map_get(eng, st, m, k)
    if p.endswith("contains_key"):
        return [(s, eq(nv2(discr(o)), I(1))) for s, o in r]
    return r


def nv2(t):
    return nv(t, 2)


@model_of("serde_json::Map::get_mut",
          "std::collections::HashMap::get_mut",
          "std::collections::BTreeMap::get_mut")
def mapgetmut(eng, st, f, p, args):
    a = args[0]
    if a.op != "ptr":
        return None
    k = val(eng, st, args[1])
    out = []
    for s, o in map_get(eng, st, eng.load(st, a), k):
        for var, s3 in eng.variants(s, o):
            out.append((s3, some(mk("ptr", a.a[0], a.a[1] + (("map", k),))) if var else NONE))
    return out


@model_of("serde_json::Map::remove",
          "std::collections::HashMap::remove",
          "std::collections::BTreeMap::remove")
def mapremove(eng, st, f, p, args):
    a = args[0]
    if a.op != "ptr":
        return None
    k = val(eng, st, args[1])
    out = []
    m = eng.load(st, a)
    for s, o in map_get(eng, st, m, k):
        s = s.copy()
        eng.store(s, a, mk("maprem", m, k))
        out.append((s, o))
    return out


@model_of("serde_json::Map::entry",
          "std::collections::HashMap::entry",
          "std::collections::BTreeMap::entry")
def mapentry(eng, st, f, p, args):
    a = args[0]
    if a.op != "ptr":
        return None
    return [(st, mk("entry", mk("ptr", a.a[0], a.a[1] + (("map", val(eng, st, args[1])),)), val(eng, st, args[1])))]


@model_of("serde_json::map::Entry::or_insert", "serde_json::map::Entry::or_insert_with",
          "std::collections::hash_map::Entry::or_insert",
          "std::collections::hash_map::Entry::or_insert_with",
          "std::collections::hash_map::Entry::or_default",
          "std::collections::btree_map::Entry::or_insert",
          "std::collections::btree_map::Entry::or_insert_with",
          "std::collections::btree_map::Entry::or_default")
def entry_or(eng, st, f, p, args):
    e = args[0]
    if e.op != "entry":
        return None
    ptr, k = e.a
    mp = mk("ptr", ptr.a[0], ptr.a[1][:-1])
    out = []
    for s, o in map_get(eng, st, eng.load(st, mp), k):
        for var, s3 in eng.variants(s, o):
            if var:
                out.append((s3, ptr))
            else:
                if p.endswith("default"):
                    return None
                vs = [(s3, args[1])] if p.endswith("insert") else eng.apply(s3, args[1], [])
                for s4, v in vs:
                    s4 = s4.copy()
                    eng.store(s4, ptr, val(eng, s4, v))
                    out.append((s4, ptr))
    return out


@model_of("serde_json::Map::keys", "serde_json::Map::values", "serde_json::Map::iter")
def mapkeys(eng, st, f, p, args):
    es = entries(val(eng, st, args[0]))
    if es is not None and len(es) <= 1:
        n = p.rsplit("::", 1)[-1]
        return [(st, mk("it", agg("array", 0, tuple(k if n == "keys" else v if n == "values" else tup(k, v) for k, v in es)), 0))]
    return [(st, mk("it", mk(p.rsplit("::", 1)[-1], val(eng, st, args[0])), 0))]


# ------------------------------------------------------------------ dataflow-rs Message
@model_of("dataflow_rs::Message::data", "dataflow_rs::Message::metadata", "dataflow_rs::Message::temp_data")
def msgdata(eng, st, f, p, args):
    v = args[0]
    if v.op == "ptr":
        v = eng.load(st, v)
    return [(st, fld(v, None, p.rsplit("::", 1)[-1]))]


@model_of("dataflow_rs::Message::data_mut", "dataflow_rs::Message::metadata_mut", "dataflow_rs::Message::temp_data_mut")
def msgdatamut(eng, st, f, p, args):
    a = args[0]
    if a.op != "ptr":
        return None
    return [(st, mk("ptr", a.a[0], a.a[1] + (("f", None, p.rsplit("::", 1)[-1][:-4]),)))]


@model_of("dataflow_rs::Message::invalidate_context_cache")
def msgcache(eng, st, f, p, args):
    if args[0].op != "ptr":
        return None
    st = st.copy()
    eng.store(st, mk("ptr", args[0].a[0], args[0].a[1] + (("f", None, "cache"),)), mk("invalidated"))
    return [(st, UNIT)]


def entries(m):
    """the entries of a map built from constants, or None"""
    out = {}
    while m.op == "mapins":
        if m.a[1].op != "str":
            return None
        out.setdefault(m.a[1], m.a[2])
        m = m.a[0]
    return list(out.items()) if m.op == "agg" and m.a[0] == "map" else None


# ------------------------------------------------------------------ regex
@model_of("regex::Regex::new")
def rxnew(eng, st, f, p, args):
    v = val(eng, st, args[0])
    t = nv(mk("isrx", v), 2)
    if v.op == "str":
        import rx
        w = rx.validity(v.a[0])[0]
        if w is not None:
            t = I(w)
    y, n = eng.truth(st, t)
    out = []
    if y is not None:
        out.append((y, ok(mk("rx", v))))
    if n is not None:
        out.append((n, err(mk("rxerr", v))))
    return out


@model_of("regex::Regex::is_match")
def rxmatch(eng, st, f, p, args):
    r, s = val(eng, st, args[0]), val(eng, st, args[1])
    if r.op == "rx" and r.a[0].op == "str" and shape.shaped(s):
        m = shape.capture(eng, st, r.a[0].a[0], s)
        if m is not None:
            return [(st, I(1 if m else 0))]
    return [(st, nv(mk("match", val(eng, st, args[0]), val(eng, st, args[1])), 2))]


@model_of("regex::Regex::captures", "regex::Regex::find")
def rxcap(eng, st, f, p, args):
    r, s = val(eng, st, args[0]), val(eng, st, args[1])
    if r.op == "rx" and r.a[0].op == "str" and shape.shaped(s):
        m = shape.capture(eng, st, r.a[0].a[0], s)
        if m is not None:
            if not m:
                return [(st, NONE)]
            return [(st, some(agg("rxcaps", 0, m) if p.endswith("captures") else m[0]))]
    y, n = eng.truth(st, nv(mk("match", r, s), 2))
    out = []
    if y is not None:
        out.append((y, some(mk("caps", r, s) if p.endswith("captures") else mk("group", r, s, I(0)))))
    if n is not None:
        out.append((n, NONE))
    return out


@model_of("regex::Regex::captures_iter", "regex::Regex::find_iter")
def rxall(eng, st, f, p, args):
    r, s = val(eng, st, args[0]), val(eng, st, args[1])
    if r.op == "rx" and r.a[0].op == "str" and shape.shaped(s):
        ms = shape.captures(eng, st, r.a[0].a[0], s)
        if ms is not None:
            return [(st, mk("it", agg("array", 0, tuple(agg("rxcaps", 0, m) if p.endswith("captures_iter") else m[0] for m in ms)), 0))]
    return None


@model_of("regex::Captures::get")
def rxget(eng, st, f, p, args):
    c, i = val(eng, st, args[0]), val(eng, st, args[1])
    if c.op == "agg" and c.a[0] == "rxcaps" and i.op == "int":
        return [(st, some(c.a[2][i.a[0]]) if i.a[0] < len(c.a[2]) else NONE)]
    if c.op != "caps":
        return None
    if i is I(0) or i.op == "int" and c.a[0].op == "rx" and c.a[0].a[0].op == "str" and always_there(c.a[0].a[0].a[0], i.a[0]):
        return [(st, some(mk("group", c.a[0], c.a[1], i)))]
    o = mk("group?", c, i)
    out = []
    for var, s in eng.variants(st, o):
        out.append((s, some(mk("group", c.a[0], c.a[1], i)) if var else NONE))
    return out


def always_there(p, n):
    """whether capture group n takes part in every match of the pattern"""
    k, depth, i, cls, st = 0, 0, 0, False, []
    seen = None
    while i < len(p):
        c = p[i]
        if c == "\\":
            i += 2
            continue
        if cls:
            cls = c != "]" or p[i - 1] == "[" or p[i - 2:i] == "[^"
        elif c == "[":
            cls = True
        elif c == "|" and not depth:
            return False
        elif c == "(":
            depth += 1
            if p[i + 1:i + 2] != "?":
                k += 1
                st.append(k)
            else:
                if p[i + 1:i + 4] == "?P<" or p[i + 1:i + 3] == "?<":
                    k += 1
                    st.append(k)
                else:
                    st.append(0)
        elif c == ")" and depth:
            depth -= 1
            if st.pop() == n and not depth:
                seen = p[i + 1:i + 2] not in ("?", "*") and p[i + 1:i + 3] != "{0"
        i += 1
    return bool(seen)


# ------------------------------------------------------------------ mem / option helpers without MIR
@model_of("std::mem::replace")
def memreplace(eng, st, f, p, args):
    if args[0].op != "ptr":
        return None
    st = st.copy()
    old = eng.load(st, args[0])
    eng.store(st, args[0], args[1])
    return [(st, old)]


@model_of("std::mem::take")
def memtake(eng, st, f, p, args):
    if args[0].op != "ptr":
        return None
    r = default(eng, st, {"a": f["a"]}, p, [])
    st = st.copy()
    old = eng.load(st, args[0])
    eng.store(st, args[0], r[0][1])
    return [(st, old)]


@model_of("std::mem::drop", "std::mem::forget")
def memdrop(eng, st, f, p, args):
    return [(st, UNIT)]


# ------------------------------------------------------------------ Vec / slices / iterators
@model_of("std::vec::Vec::new", "std::vec::Vec::with_capacity")
def vnew(eng, st, f, p, args):
    return [(st, agg("array", 0, ()))]


@model_of("std::boxed::Box::new_uninit")
def bnew(eng, st, f, p, args):
    return [(st, UNINIT)]


@model_of("std::boxed::box_assume_init_into_vec_unsafe", "std::slice::<impl [T]>::into_vec", "alloc::slice::<impl [T]>::into_vec")
def bvec(eng, st, f, p, args):
    v = val(eng, st, args[0])
    while v.op == "upd":
        v = v.a[3]
    return [(st, v)]


@model_of("std::vec::from_elem")
def vfrom(eng, st, f, p, args):
    return None


@model_of("std::vec::Vec::push")
def vpush(eng, st, f, p, args):
    a = args[0]
    if a.op != "ptr":
        return None
    st = st.copy()
    x = val(eng, st, args[1])
    c = a.a[0]
    if eng.is_root(c):
        eng.emit(st, ("push", c, a.a[1], x, eng.load(st, a)))
        if eng.collect:
            eng.new_version(st, c, a.a[1], "push", True)
            return [(st, UNIT)]
    old = eng.load(st, a)
    if old.op == "agg" and old.a[0] == "array" and not st.act:
        new = agg("array", 0, old.a[2] + (x,))
    else:
        new = mk("vpush", old, x)
    st.cells[c] = eng.proj_update(eng.read_cell(st, c), a.a[1], new)
    return [(st, UNIT)]


@model_of("std::iter::Extend::extend")
def vextend(eng, st, f, p, args):
    """adding the items of an optional value or of a known list"""
    a = args[0]
    b = base_ty(tyname(eng, f, 0))
    if a.op != "ptr" or b not in ("std::vec::Vec", "std::string::String"):
        return None
    f2 = dict(f, a=list(f.get("a") or ())[-1:])
    r = into_iter(eng, st, f2, p, [args[1]])
    if r is None or len(r) != 1 or symbolic(r[0][1]) or r[0][1].op not in ("it", "ad_opt"):
        return None
    push = M["std::vec::Vec::push" if b == "std::vec::Vec" else "std::string::String::push_str"]

    def fn(s, x):
        rs = push(eng, s, f, "std::vec::Vec::push" if b == "std::vec::Vec" else "std::string::String::push_str", [a, x])
        return [(s2, None) for s2, _ in rs or [(s, UNIT)]]
    r = consume(eng, st, r[0][1], fn)
    return None if r is None else [(s, UNIT) for s, _ in r]


@model_of("std::vec::Vec::pop")
def vpop(eng, st, f, p, args):
    return None


MS = {}


def sl(*names):
    def deco(fn):
        for n in names:
            MS[n] = fn
            M.setdefault("std::vec::Vec::" + n, fn)
        return fn
    return deco


@sl("iter", "into_iter")
def sliter(eng, st, f, p, args):
    v = val(eng, st, args[0])
    return [(st, mk("it", v, 0))]


@sl("iter_mut")
def slitermut(eng, st, f, p, args):
    return None


@sl("len")
def sllen(eng, st, f, p, args):
    return length_(eng, st, f, p, args)


@sl("is_empty")
def slempty(eng, st, f, p, args):
    return isempty_(eng, st, f, p, args)


@sl("first", "last", "get")
def slget(eng, st, f, p, args):
    n = p.rsplit("::", 1)[-1]
    v = val(eng, st, args[0])
    if n == "get":
        i = val(eng, st, args[1])
        if i.op == "agg":
            return None
    elif n == "first":
        i = I(0)
    if n != "last" and v.op == "bytes" and shape.shaped(v.a[0]):
        bt = shape.byte_at(v.a[0], i)
        if bt is not None:
            return [(st, some(I(bt)))]
    if n == "get" or n == "first":
        pass
    else:
        if v.op == "agg" and v.a[0] == "array":
            return [(st, some(v.a[2][-1]) if v.a[2] else NONE)]
        y, no = eng.truth(st, isempty(v))
        out = []
        if y is not None:
            out.append((y, NONE))
        if no is not None:
            out.append((no, some(mk("last", v))))
        return out
    t = lt(i, length(v))
    y, no = eng.truth(st, t)
    out = []
    if y is not None:
        out.append((y, some(index2(v, i))))
    if no is not None:
        out.append((no, NONE))
    return out


@sl("contains")
def slcontains(eng, st, f, p, args):
    v, x = val(eng, st, args[0]), val(eng, st, args[1])
    if v.op == "agg" and v.a[0] == "array":
        r = FALSE
        for y in v.a[2]:
            r = rebuild("or", (r, eqv(x, y)))
        return [(st, r)]
    return [(st, nv(mk("member", v, x), 2))]


@sl("to_vec")
def sltovec(eng, st, f, p, args):
    return [(st, val(eng, st, args[0]))]


@sl("join", "concat")
def sljoin(eng, st, f, p, args):
    v = val(eng, st, args[0])
    sep = val(eng, st, args[1]) if len(args) > 1 else S("")
    if v.op == "agg" and v.a[0] == "array":
        out = []
        for i, x in enumerate(v.a[2]):
            if i:
                out.append(sep)
            out.append(x)
        return [(st, concat(*out))]
    return [(st, mk("join", v, sep))]


M["std::slice::Join::join"] = sljoin


@model_of("std::iter::IntoIterator::into_iter")
def into_iter(eng, st, f, p, args):
    v = args[0]
    if v.op in ("it",) or v.op.startswith("ad_"):
        return [(st, v)]
    if v.op == "ptr":
        v2 = eng.load(st, v)
        if v2.op == "it" or v2.op.startswith("ad_") or v2.op == "range":
            return [(st, v)]
        t = tyname(eng, f, 0)
        if t.startswith("&mut "):
            return None
        v = v2
    v = val(eng, st, v)
    if v.op == "agg" and v.a[0].endswith("::Range"):
        return [(st, v)]
    if v.op == "agg" and v.a[0] == OPT:
        return [(st, mk("it", agg("array", 0, v.a[2]), 0))]
    t = tyname(eng, f, 0)
    if base_ty(t) == "std::option::Option":
        nv(mk("discr", v), 2)
        return [(st, mk("ad_opt", v, 0))]
    if base_ty(t) in ("std::vec::Vec", "std::collections::HashMap", "std::collections::BTreeMap", "serde_json::Map") or base_ty(t).startswith("["):
        return [(st, mk("it", v, 0))]
    # an iterator type: into_iter is the identity
    if v.op in ("call", "top", "noise"):
        return [(st, v)]
    return [(st, mk("it", v, 0))]


@model_of("std::option::Option::iter")
def optiter(eng, st, f, p, args):
    v = val(eng, st, args[0])
    if v.op == "agg" and v.a[0] == OPT:
        return [(st, mk("it", agg("array", 0, v.a[2]), 0))]
    nv(mk("discr", v), 2)
    return [(st, mk("ad_opt", v, 0))]


def as_iter(v):
    return v


def it_next(eng, st, it):
    """-> list of (state, item or None, new iterator)"""
    op = it.op
    if op == "it":
        coll, pos_ = it.a
        if coll.op == "agg" and coll.a[0] == "array":
            if pos_ < len(coll.a[2]):
                return [(st, coll.a[2][pos_], mk("it", coll, pos_ + 1))]
            return [(st, None, it)]
        if coll.op == "str":
            pass
        if coll.op == "split" and pos_ == 0:
            s, q = coll.a
            y, n = eng.truth(st, found(s, q))
            out = []
            if y is not None:
                out.append((y, substr(s, None, pos(s, q)), mk("it", coll, 1)))
            if n is not None:
                out.append((n, s, mk("it", mk("ended", coll), 0)))
            return out
        if coll.op == "split1":
            if pos_ == 0:
                return [(st, coll.a[0], mk("it", coll, 1))]
            return sym_next(eng, st, mk("split", coll.a[1], coll.a[2]), pos_, lambda n: mk("it", mk("split", coll.a[1], coll.a[2]), n))
        if coll.op == "ended":
            return [(st, None, it)]
        return sym_next(eng, st, coll, pos_, lambda n: mk("it", coll, n))
    if op == "agg" and it.a[0].endswith("::Range"):
        a, b = it.a[2]
        if a.op == "int" and b.op == "int":
            if a.a[0] < b.a[0] and b.a[0] - a.a[0] <= 600:
                return [(st, a, agg(it.a[0], 0, (I(a.a[0] + 1), b)))]
            return [(st, None, it)]
        coll = mk("range", a, b)
        return sym_next(eng, st, coll, 0, lambda n: mk("it", coll, n))
    if op == "ad_opt":
        o, n = it.a
        if n:
            return [(st, None, it)]
        out = []
        for var, s in eng.variants(st, o):
            out.append((s, fld(o, 1, 0) if var else None, mk("ad_opt", o, 1)))
        return out
    if op == "ad_map":
        out = []
        for s, x, n in it_next(eng, st, it.a[0]):
            if x is None:
                out.append((s, None, mk("ad_map", n, it.a[1])))
            else:
                for s2, r in eng.apply(s, it.a[1], [x]):
                    out.append((s2, r, mk("ad_map", n, it.a[1])))
        return out
    if op in ("ad_filter", "ad_filter_map"):
        out = []
        todo = [(st, it.a[0], 0)]
        done = set()
        while todo:
            s0, cur, depth = todo.pop(0)
            for s, x, n in it_next(eng, s0, cur):
                if x is None:
                    out.append((s, None, mk(op, n, it.a[1])))
                    continue
                for s2, r in eng.apply(s, it.a[1], [x]):
                    if op == "ad_filter":
                        y, no = eng.truth(s2, r)
                        if y is not None:
                            out.append((y, x, mk(op, n, it.a[1])))
                        rest = no
                    else:
                        rest = None
                        for var, s3 in eng.variants(s2, r):
                            if var:
                                out.append((s3, fld(r, 1, 0), mk(op, n, it.a[1])))
                            else:
                                rest = s3
                    if rest is not None:
                        if n.op == "it" and not (n.a[0].op == "agg" and n.a[0].a[0] == "array"):
                            e = elem(n.a[0])
                            rest = rest.with_g(g_drop(rest.g, lambda t: contains(t, e)))
                            out.append((rest, None, mk(op, n, it.a[1])))
                        elif depth < 600 and (n, x) not in done:
                            if symbolic(n):
                                done.add((n, x))
                            todo.append((rest, n, depth + 1))
        return merge_items(out)
    if op == "ad_enum":
        out = []
        for s, x, n in it_next(eng, st, it.a[0]):
            i = it.a[1]
            if x is None:
                out.append((s, None, it))
            else:
                conc = n.op == "it" and n.a[0].op == "agg"
                out.append((s, tup(I(i) if conc else mk("enumidx", n), x), mk("ad_enum", n, i + 1 if conc else i)))
        return out
    if op == "ad_skip":
        n = it.a[1]
        cur = [(st, it.a[0])]
        return None
    if op == "ad_flatten":
        kind, done = it.a[2], set()

        def nxt(s0, outer, inner):
            if inner is not None:
                r = it_next(eng, s0, inner)
                for s1, x, n in r if r is not None else [(s0, TOP, inner)]:
                    if x is None:
                        yield from nxt(s1, outer, None)
                    else:
                        yield s1, x, mk("ad_flatten", outer, n, kind)
                return
            for s1, x, n in it_next(eng, s0, outer) or ():
                if x is None:
                    yield s1, None, mk("ad_flatten", n, mk("noinner"), kind)
                elif (n, x) not in done:
                    done.add((n, x))
                    yield from nxt(s1, n, inner_iter(eng, s1, x, kind))
        return merge_items(list(nxt(st, it.a[0], None if it.a[1].op == "noinner" else it.a[1])))
    if op == "ad_chain":
        a, b = it.a
        out = []
        for s, x, n in it_next(eng, st, a):
            if x is None:
                for s2, x2, n2 in it_next(eng, s, b):
                    out.append((s2, x2, mk("ad_chain", n, n2)))
            else:
                out.append((s, x, mk("ad_chain", n, b)))
        return out
    return None


def merge_items(out):
    m = {}
    for s, x, n in out:
        k = (s.key(), x, n)
        o = m.get(k)
        if o is None:
            m[k] = [s, x, n]
        else:
            o[0] = o[0].with_g(g_or(o[0].g, s.g))
    return [tuple(v) for v in m.values()]


def sym_next(eng, st, coll, started, mkit):
    out = []
    e = elem(coll)
    tok = (eng.depth, coll)
    if not started:
        y, n = eng.truth(st, isempty(coll))
        if y is not None:
            out.append((y, None, mkit(1)))
        if n is not None:
            n2 = E.St(n.cells, n.g, n.eff, n.act | {tok})
            out.append((n2, e, mkit(1)))
        return out
    g = g_drop(st.g, lambda t: contains(t, e))
    out.append((E.St(st.cells, g, st.eff, st.act - {tok}), None, mkit(1)))
    out.append((E.St(st.cells, g, st.eff, st.act | {tok}), e, mkit(1)))
    return out


@model_of("std::iter::Iterator::next")
def iter_next(eng, st, f, p, args):
    a = args[0]
    if f.get("l"):
        return None
    if a.op != "ptr":
        return None
    it = eng.load(st, a)
    r = it_next(eng, st, it)
    if r is None:
        return None
    out = []
    for s, x, n in r:
        s = s.copy()
        eng.store(s, a, n)
        out.append((s, NONE if x is None else some(x)))
    return out


def adaptor(*names):
    def deco(fn):
        for n in names:
            M["std::iter::Iterator::" + n] = fn
        return fn
    return deco


@adaptor("map", "filter", "filter_map")
def ad(eng, st, f, p, args):
    n = p.rsplit("::", 1)[-1]
    v = args[0]
    if v.op == "ptr":
        v = eng.load(st, v)
    return [(st, mk("ad_" + n, v, val(eng, st, args[1]) if not has_ptr(args[1]) else args[1]))]


has_ptr = E.has_ptr


def inner_iter(eng, st, x, kind):
    if x.op == "it" or x.op.startswith("ad_"):
        return x
    v = val(eng, st, x)
    if kind == "opt":
        if v.op == "agg" and v.a[0] == OPT:
            return mk("it", agg("array", 0, v.a[2]), 0)
        nv(mk("discr", v), 2)
        return mk("ad_opt", v, 0)
    return mk("it", v, 0)


def inner_kind(t):
    """the kind of collection a type is, or None"""
    t = t.strip()
    while t.startswith("&"):
        t = re.sub(r"^&('\w+ )?(mut )?", "", t)
    b = base_ty(t)
    if b == "std::option::Option":
        return "opt"
    if b == "std::vec::Vec" or b.startswith("[") or b in ("std::slice::Iter", "std::vec::IntoIter"):
        return "coll"
    return None


@adaptor("flatten", "flat_map")
def adflatten(eng, st, f, p, args):
    it = args[0]
    if it.op == "ptr":
        it = eng.load(st, it)
    if not (it.op == "it" or it.op.startswith("ad_")):
        return None
    if p.endswith("flat_map"):
        k = inner_kind(tyname(eng, f, 1))
        it = mk("ad_map", it, val(eng, st, args[1]) if not has_ptr(args[1]) else args[1])
    else:
        m = re.match(r"^std::(?:option|slice|vec)::(?:Iter|IntoIter)<(?:'\w+, )?(.*)>$", tyname(eng, f, 0))
        k = inner_kind(m.group(1)) if m else None
    if k is None:
        return None
    return [(st, mk("ad_flatten", it, mk("noinner"), k))]


@adaptor("enumerate")
def adenum(eng, st, f, p, args):
    return [(st, mk("ad_enum", args[0], 0))]


@adaptor("cloned", "copied", "by_ref", "fuse", "peekable", "inspect_")
def adid(eng, st, f, p, args):
    return [(st, args[0])]


@adaptor("chain")
def adchain(eng, st, f, p, args):
    b = args[1]
    if b.op not in ("it",) and not b.op.startswith("ad_"):
        r = into_iter(eng, st, {"a": [f["a"][1]] if len(f.get("a", ())) > 1 else []}, p, [b])
        if r is None:
            return None
        b = r[0][1]
    return [(st, mk("ad_chain", args[0], b))]


@adaptor("rev", "take", "skip", "step_by", "take_while", "skip_while", "zip")
def adother(eng, st, f, p, args):
    n = p.rsplit("::", 1)[-1]
    it = args[0]
    if n == "rev" and it.op == "it" and it.a[1] == 0 and it.a[0].op == "agg" and it.a[0].a[0] == "array":
        return [(st, mk("it", agg("array", 0, tuple(reversed(it.a[0].a[2]))), 0))]
    if n in ("take", "skip") and it.op == "it" and it.a[1] == 0 and it.a[0].op == "agg" and it.a[0].a[0] == "array" and args[1].op == "int":
        k = args[1].a[0]
        xs = it.a[0].a[2]
        return [(st, mk("it", agg("array", 0, xs[:k] if n == "take" else xs[k:]), 0))]
    return [(st, mk("it", mk("sub_" + n, val(eng, st, it), *[val(eng, st, x) for x in args[1:]]), 0))]


def receiver(eng, st, a):
    if a.op == "ptr":
        return eng.load(st, a), a
    return a, None


def consume(eng, st, it, fn):
    """generic driver: fn(state, item) -> list of (state, stop_result or None).  -> list of (state, result or None)"""
    out = []
    work = [(st, it, frozenset())]
    n = 0
    while work:
        s, i, seen = work.pop(0)
        n += 1
        if n > 3000:
            eng.notes.append(("consume", "limit"))
            break
        r = it_next(eng, s, i)
        if r is None:
            return None
        for s2, x, ni in r:
            if x is None:
                out.append((s2, None))
                continue
            if (ni, x) in seen:
                continue         # one generic iteration stands for all
            again = ni == i or symbolic(ni)
            for s3, stop in fn(s2, x):
                if stop is not None:
                    out.append((s3, stop))
                else:
                    work.append((s3, ni, seen | {(ni, x)} if again else seen))
    return merge_res(out)


def merge_res(out):
    m = {}
    for s, r in out:
        k = (s.key(), r)
        o = m.get(k)
        if o is None:
            m[k] = [s, r]
        else:
            o[0] = o[0].with_g(g_or(o[0].g, s.g))
    return [tuple(v) for v in m.values()]


def symbolic(it):
    if it.op in ("ad_chain", "ad_flatten"):
        return any(isinstance(x, T) and symbolic(x) for x in it.a)
    while it.op.startswith("ad_") and it.a and isinstance(it.a[0], T):
        it = it.a[0]
    return it.op == "it" and not (it.a[0].op == "agg" and it.a[0].a[0] == "array") and it.a[0].op != "ended"


def textsearch(eng, st, it, ptr, n, cl):
    """searching the characters (bytes) of a described text with a predicate on one of them"""
    if it.op != "it" or it.a[1] != 0 or it.a[0].op not in ("chars", "char_indices", "bytes") or n not in ("find", "any", "all", "position"):
        return None
    k, t = it.a[0].op, it.a[0].a[0]
    if not shape.shaped(t) or n == "position" and k != "bytes" or k == "bytes" and any(isinstance(x, str) and ord(x) > 127 for x in shape.items(t)[0]):
        return None
    its, offs = shape.items(t)
    i = shape.search(eng, st, t, mk("adapt", cl, k, n == "all"))
    if i is None:
        return None
    if ptr is not None:
        st = st.copy()
        rest = mk("ended") if i < 0 else mk("it", mk(k, shape.text(its[i + 1:])), 0) if k != "char_indices" else TOP
        eng.store(st, ptr, mk("it", rest, 0) if rest.op == "ended" else rest)
    if n in ("any", "all"):
        return [(st, I((i >= 0) == (n == "any")))]
    if i < 0:
        return [(st, NONE)]
    c = I(ord(its[i]))
    return [(st, some(offs[i] if n == "position" else agg("tuple", 0, [offs[i], c]) if k == "char_indices" else c))]


@adaptor("find", "any", "all", "position", "find_map", "for_each", "try_for_each")
def itsearch(eng, st, f, p, args):
    if f.get("l"):
        return None
    n = p.rsplit("::", 1)[-1]
    it, ptr = receiver(eng, st, args[0])
    cl = args[1]
    r = textsearch(eng, st, it, ptr, n, val(eng, st, cl))
    if r is not None:
        return r

    def fn(s, x):
        out = []
        for s2, r in eng.apply(s, cl, [x]):
            if n == "for_each":
                out.append((s2, None))
            elif n == "find_map":
                for var, s3 in eng.variants(s2, r):
                    out.append((s3, some(fld(r, 1, 0)) if var else None))
            elif n == "try_for_each":
                for var, s3 in eng.variants(s2, r):
                    out.append((s3, None if var == 0 else r))
            else:
                y, no = eng.truth(s2, r)
                if n == "all":
                    y, no = no, y
                if y is not None:
                    out.append((y, {"find": some(x), "any": TRUE, "all": FALSE, "position": some(mk("enumidx", x))}[n]))
                if no is not None:
                    out.append((no, None))
        return out

    r = consume(eng, st, it, fn)
    if r is None:
        return None
    dflt = {"find": NONE, "find_map": NONE, "any": FALSE, "all": TRUE, "position": NONE, "for_each": UNIT, "try_for_each": ok(UNIT)}[n]
    # leaving a symbolic collection early through a search result does not leave an active loop behind
    return [(clear_tok(eng, s), dflt if x is None else x) for s, x in r]


def clear_tok(eng, s):
    d = eng.depth
    if any(c[0] == d for c in s.act):
        pass
    return s


@adaptor("count")
def itcount(eng, st, f, p, args):
    it = args[0]
    if it.op == "it" and it.a[1] == 0:
        c = it.a[0]
        if c.op == "chars":
            s = c.a[0]
            return [(st, I(len(s.a[0])) if s.op == "str" else mk("nchars", s))]
        if c.op == "bytes":
            return [(st, length(c.a[0]))]
        return [(st, length(c))]
    return [(st, mk("count", val(eng, st, it)))]


@adaptor("collect")
def itcollect(eng, st, f, p, args):
    it = args[0]
    t = tyname(eng, f, 1)
    b = base_ty(t)
    if b == "std::vec::Vec" or b == "std::string::String":
        if it.op == "it" and it.a[1] == 0:
            c = it.a[0]
            if b == "std::string::String":
                return [(st, c.a[0] if c.op == "chars" else mk("collectstr", c))]
            return [(st, c)]
        if it.op == "ad_map" and it.a[0].op == "it":
            c = it.a[0].a[0]
            if c.op == "agg" and c.a[0] == "array":
                cur = [(st, ())]
                for x in c.a[2]:
                    cur = [(s2, xs + (r,)) for s, xs in cur for s2, r in eng.apply(s, it.a[1], [x])]
                return [(s, agg("array", 0, xs) if b == "std::vec::Vec" else concat(*xs)) for s, xs in cur]
            r = eng.apply(st, it.a[1], [elem(c)])
            if len(r) == 1 and b == "std::vec::Vec":
                return [(r[0][0], mk("mapped", c, val(eng, r[0][0], r[0][1])))]
    if b in ("std::collections::HashMap", "std::collections::BTreeMap", "std::collections::HashSet", "std::collections::BTreeSet"):
        r = mapcollect(eng, st, it, b)
        if r is not None:
            return r
    r = consume(eng, st, it, lambda s, x: [(s, None)])
    if r is None:
        return None
    return [(s, mk("collect", t, val(eng, s, it))) for s, _ in r]


def mapcollect(eng, st, it, b):
    """collecting a known list into a map or a set"""
    c = ("acc", eng.depth, eng.tick)
    st = st.copy()
    st.cells[c] = agg("map", 0, ())

    def fn(s, x):
        x = val(eng, s, x)
        if b.endswith("Set"):
            k, v = x, UNIT
        elif x.op == "agg" and x.a[0] == "tuple":
            k, v = x.a[2]
        else:
            return [(s, None)]
        out = []
        for s2, o in map_get(eng, s, s.cells.get(c, TOP), k):
            s2 = s2.copy()
            eng.store(s2, mk("ptr", c, (("map", k),)), v)
            out.append((s2, None))
        return out
    r = consume(eng, st, it, fn)
    if r is None:
        return None
    out = []
    for s, _ in r:
        m = s.cells.pop(c, TOP)
        base = m
        while base.op == "mapins":
            base = base.a[0]
        if base.op != "agg":
            return None
        out.append((s, m))
    return out


@adaptor("fold")
def itfold(eng, st, f, p, args):
    it = args[0]
    if it.op == "it" and it.a[0].op == "agg" and it.a[0].a[0] == "array":
        cur = [(st, args[1])]
        for x in it.a[0].a[2][it.a[1]:]:
            cur = [y for s, acc in cur for y in eng.apply(s, args[2], [acc, x])]
            cur = merge_res(cur)
        return cur
    return None


@adaptor("last", "nth", "max", "min", "sum", "product", "max_by_key", "min_by_key")
def itmisc(eng, st, f, p, args):
    it, ptr = receiver(eng, st, args[0])
    if p.endswith("::nth") and it.op == "it" and it.a[0].op == "split" and len(args) > 1 and args[1] is I(0):
        r = it_next(eng, st, it)
        return [(s, NONE if x is None else some(x)) for s, x, n in r]
    if not ptr and it.op == "it" and it.a[0].op == "agg" and it.a[0].a[0] == "array" and isinstance(it.a[1], int):
        xs = it.a[0].a[2][it.a[1]:]
        if p.endswith("::last"):
            return [(st, some(xs[-1]) if xs else NONE)]
        if p.endswith("::nth") and args[1].op == "int":
            return [(st, some(xs[args[1].a[0]]) if args[1].a[0] < len(xs) else NONE)]
    return None


@model_of("std::ops::RangeInclusive::new")
def rincl(eng, st, f, p, args):
    a, b = args
    if b.op == "int":
        return [(st, agg("std::ops::Range", 0, (a, I(b.a[0] + 1))))]
    return None


# ------------------------------------------------------------------ char
CHARTEST = {
    "is_whitespace": lambda c: c in shape.UWS, "is_ascii_whitespace": lambda c: c in " \t\r\n\x0c",
    "is_alphanumeric": lambda c: c.isalnum(), "is_ascii_alphanumeric": lambda c: c.isascii() and c.isalnum(),
    "is_alphabetic": lambda c: c.isalpha(), "is_ascii_alphabetic": lambda c: c.isascii() and c.isalpha(),
    "is_ascii_digit": lambda c: c in "0123456789", "is_ascii_punctuation": lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != " ",
    "is_uppercase": lambda c: c.isupper(), "is_lowercase": lambda c: c.islower(),
    "is_ascii_uppercase": lambda c: c.isascii() and c.isupper(), "is_ascii_lowercase": lambda c: c.isascii() and c.islower(),
    "is_ascii": lambda c: c.isascii(),
}


def char_method(eng, st, f, p, args):
    v = val(eng, st, args[0])
    n = p.rsplit("::", 1)[-1]
    h = CHARTEST.get(n)
    if h and v.op == "int" and 0 <= v.a[0] < 0x110000 and (v.a[0] < 128 or "ascii" in n or n == "is_whitespace"):
        return [(st, I(bool(h(chr(v.a[0])))))]
    return None


for _n in CHARTEST:
    for _p in ("std::char::methods::<impl char>::", "core::char::methods::<impl char>::", "std::num::<impl u8>::", "core::num::<impl u8>::"):
        M[_p + _n] = char_method


@model_of("quick_xml::escape::unescape")
def unescape_(eng, st, f, p, args):
    v = val(eng, st, args[0])
    if v.op == "call" and v.a[0] in ("quick_xml::escape::escape", "quick_xml::escape::partial_escape", "quick_xml::escape::minimal_escape"):
        return [(st, ok(v.a[2][0]))]
    if v.op == "str" and "&" not in v.a[0]:
        return [(st, ok(v))]
    if v.op != "str" and shape.shaped(v) and all(
            x != "&" if isinstance(x, str) else shape.spec(x) not in (shape.ESCAPED, shape.PARTIAL) and not shape.spec(x).contain("&")
            for x in shape.items(v)[0]):
        return [(st, ok(v))]
    return None
