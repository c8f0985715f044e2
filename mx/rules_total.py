"""C15, C16, C23: totality, bounded depth, purity."""
from common import Result
from engine import Engine, St
from facts import norm_path
from runs import run, Rows, place, show_conj, textlike, lengthlike, free
from term import *
import re
import models, roots, envio, shape

DERIVED = ("Serialize", "Deserialize", "Debug", "Clone", "PartialEq", "Default", "Eq", "Hash")

# library operations that panic on some arguments although their signature does not say so
PARTIAL = ("Index", "IndexMut", "unwrap", "expect", "unwrap_err", "expect_err", "remove", "swap_remove", "insert_str", "split_at", "split_at_mut",
           "split_off", "truncate", "drain", "replace_range", "copy_from_slice", "clone_from_slice", "borrow", "borrow_mut", "chunks", "windows",
           "step_by", "rotate_left", "rotate_right", "swap", "select_nth_unstable", "from_utf8_unchecked", "unreachable_unchecked", "get_unchecked")


def callee(t):
    f = t[1]
    return f[1]["f"] if f[0] == "k" and "f" in f[1] else None


def site_kinds(b):
    """(block, kind) of every construct of the body that may panic"""
    for i, bl in enumerate(b["blocks"]):
        if not bl:
            continue
        t = bl["t"]
        if t[0] == "assert":
            yield i, t[3]
        elif t[0] == "call":
            f = callee(t)
            if f is None:
                continue
            n = norm_path(f.get("r") or f["p"])
            if t[6] and str(t[6]).startswith("tracing"):
                continue
            if t[4] is None:
                yield i, "diverges: " + n
            elif f.get("tc") and not n.endswith(("from_residual", "Into<U>>::into", "::unwrap_or_else", "::map_or_else")):
                yield i, n


def derived(F, k):
    fn = F.fns.get(k)
    if fn and fn.get("derive"):
        return True
    return any(x in k for x in ("_serde::", " as serde::", "_::_serde", "<impl serde::", " as std::fmt::Debug>", " as std::clone::Clone>", " as std::cmp::"))


def own(F, k):
    b = F.bodies[k]
    return b.get("crate") == "mx_message"


def edges(F):
    """body -> bodies it calls or creates (closures)"""
    if getattr(F, "_edges", None) is not None:
        return F._edges
    out = {}
    for k, b in F.bodies.items():
        s = set()
        for bl in b["blocks"]:
            if not bl:
                continue
            t = bl["t"]
            if t[0] == "call":
                f = callee(t)
                if f is not None and f.get("k") in F.bodies:
                    s.add(f["k"])
                for o in t[2]:
                    consts(o, s, F)
            for st in bl["s"]:
                walk(st, s, F)
        out[k] = s
    for k in F.bodies:
        i = k.rfind("::{closure#")
        if i > 0 and k[:i] in out:
            out[k[:i]].add(k)
    F._edges = out
    return out


def consts(o, s, F):
    if isinstance(o, list) and len(o) == 2 and o[0] == "k" and isinstance(o[1], dict) and "f" in o[1]:
        k = o[1]["f"].get("k")
        if k in F.bodies:
            s.add(k)


def walk(x, s, F):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "k" and isinstance(x[1], dict):
            consts(x, s, F)
            return
        for y in x:
            walk(y, s, F)


def reach(E, ks):
    seen, todo = set(ks), list(ks)
    while todo:
        for y in E.get(todo.pop(), ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def reaching(E, targets):
    back = {}
    for a, bs in E.items():
        for b in bs:
            back.setdefault(b, set()).add(a)
    return reach(back, targets)


# ------------------------------------------------------------------ C15
def c15(W):
    res = Result("C15")
    F = W.F
    E = edges(F)
    sites = {}
    n = 0
    for k, b in F.bodies.items():
        if not own(F, k) or derived(F, k):
            continue
        n += 1
        for i, kind in site_kinds(b):
            sites.setdefault(k, []).append((i, kind))
    res.count("functions", n)
    res.count("functions without any construct that may panic", n - len(sites))
    res.count("constructs that may panic", sum(len(v) for v in sites.values()))
    hot = reaching(E, list(sites))
    # callees first: a function that cannot panic whatever it is given, or whose panic is reported already, needs no look at its callers
    seen, open_ = set(), set()
    for k in callees_first(E, hot):
        if k not in F.bodies or not own(F, k) or derived(F, k) or "{closure" in k:
            if k in hot and (k in sites or any(x in open_ for x in E.get(k, ()))):
                open_.add(k)
            continue
        fn = F.fns.get(k) or {}
        if " as dataflow_rs::AsyncFunctionHandler" in k:
            continue
        if k not in sites and not any(x in open_ for x in E.get(k, ())):
            continue
        res.count("functions analysed in full")
        e = engine_for(F, k)
        try:
            roots.run_fn(F, k, eng=e)
        except RecursionError:
            res.unsure(k, "too deep")
            open_.add(k)
            continue
        seen |= set(e.bodies)
        if judge(W, res, k, e, bool(fn.get("exported") or fn.get("reach") or fn.get("trait")), "any argument"):
            open_.add(k)
    handlers(W, res, hot, seen)
    for k in sites:
        res.ob(len(sites[k]))
        if k not in seen and "{closure" not in k:
            res.unsure("not analysed " + k, "the function was not reached by the analysis")
    return res


def callees_first(E, ks):
    """the functions ks, every one after those it calls (but for cycles)"""
    out, done = [], set()
    for r in sorted(ks):
        if r in done:
            continue
        done.add(r)
        st = [(r, iter(sorted(x for x in E.get(r, ()) if x in ks)))]
        while st:
            k, it = st[-1]
            for x in it:
                if x not in done:
                    done.add(x)
                    st.append((x, iter(sorted(y for y in E.get(x, ()) if y in ks))))
                    break
            else:
                out.append(k)
                st.pop()
    return out


def engine_for(F, k):
    # what a validate function finds is recorded, not carried along
    e = Engine(F, collect=k.endswith(" as validation::Validate>::validate"))
    e.opaque_fns = roots.LIBRARY - {k} if k.startswith(("plugin::", "<plugin::")) else frozenset()
    e.maxstates = 400
    e.no_inline = lambda f: norm_path(f["p"]) == "validation::Validate::validate"
    return e


def handlers(W, res, hot, seen):
    import rules_plugin as rp
    for name in roots.STEPS:
        h = rp.handler(W.F, name)
        if h is None:
            continue
        for what, R, m0, tgt in rp.runs_of(W, res, name):
            seen |= set(R.eng.bodies)
            judge(W, res, "%s step" % name, R.eng, True, what)


# outcomes that some input brings about
CANFAIL = ("quick_xml::de::", "serde_json::from_", "core::str::<impl str>::parse", "serde_json::Value::", "regex::Regex::captures", "regex::Regex::find",
           "datafake_rs::", "std::str::from_utf8", "chrono::DateTime::parse", "mx_envelope::MxMessage::from_", "mx_envelope::peek_",
           "plugin::common::", "xml::xml_to_json_via_document", "xml::from_mx")


def path_(t):
    """an access path into the arguments or the described values"""
    while t.op in ("fld", "elem", "index", "keys", "values", "jtext") or t.op == "mapget" and t.a[1].op == "str":
        t = t.a[0]
    return t.op in ("sym", "arg", "atom")


def decodes(x):
    """a decoding of a text made of constants and one part of the input"""
    if not x.a[0].startswith(("quick_xml::de::", "serde_json::from_str")) or not x.a[2]:
        return False
    t = x.a[2][0]
    parts = t.a if t.op == "concat" else (t,)
    rest = [y for y in parts if y.op != "str"]
    return len(rest) == 1 and textroot(rest[0]) is not None


def places(t):
    """the text in which a term denotes a place, counted from patterns"""
    if t.op in ("pos", "rpos") and pattern(t.a[1]) is not None:
        return textroot(t.a[0])
    if t.op == "sum" and t.a[0]:
        r = set(places(x) for x in t.a[0])
        return r.pop() if len(r) == 1 else None
    return None


def feasible(l):
    t, op, v = l
    if free(l) or textcond(l) or beyond(l):
        return True
    if t.op == "discr":
        x = t.a[0]
        if path_(x):
            return True
        if x.op == "mapget":
            return path_(x.a[0]) or x.a[0].op == "mapins"
        if x.op == "call" and x.a[0].startswith(CANFAIL):
            return (op, v) in (("=", 1), ("!", 0)) or decodes(x) or x.a[2] and all(y.op in ("sym", "arg") for y in x.a[2])
    if t.op == "isempty" and t.a[0].op == "index" and t.a[0].a[0].op == "split":
        return (op, v) in (("=", 0), ("!", 1)) or freetext(t.a[0].a[0].a[0], t.a[0].a[0].a[1])
    if t.op == "isempty":
        return path_(t.a[0])
    if t.op == "call" and t.a[0].startswith("regex::Regex::is_match"):
        return True
    if path_(t):
        return True
    if t.op == "lt" and (op, v) in (("=", 1), ("!", 0)) and places(t.a[0]) is not None and places(t.a[0]) is places(t.a[1]):
        return True
    if op == "!" and isinstance(v, str) and textroot(t) is not None:
        return True
    yes = (op, v) in (("=", 1), ("!", 0))
    if t.op == "match" and t.a[0].op == "rx" and textroot(t.a[1]) is not None:
        return yes and t.a[0].a[0].op == "str"
    if t.op == "discr" and t.a[0].op == "group?":
        return yes
    if t.op == "count" and t.a[0].op == "call" and t.a[0].a[0].endswith(("::matches", "::split", "::match_indices")) and t.a[0].a[2] and textroot(t.a[0].a[2][0]) is not None:
        return True
    if t.op == "lt" and t.a[0].op == "len" and t.a[0].a[0].op == "split" and t.a[1].op == "int":
        return not yes or t.a[1].a[0] > 1 and freetext(t.a[0].a[0].a[0], t.a[0].a[0].a[1])
    if t.op == "ovf" and t.a[0] == "Sub" and t.a[1].op == "len" and textroot(t.a[1].a[0]) is not None and t.a[2].op == "int":
        return True
    return False


TEXTSTEP = ("substr", "trim", "trim_start", "trim_end", "trim_start_matches", "trim_end_matches", "lower", "upper")


def textroot(s):
    """the input text a text was cut from, or None"""
    while True:
        if s.op in TEXTSTEP:
            s = s.a[0]
        elif s.op == "call" and s.a[0].endswith(("::trim", "::trim_start", "::trim_end", "::trim_start_matches", "::trim_end_matches")) and s.a[2]:
            s = s.a[2][0]
        else:
            break
    return s if path_(s) else None


def freetext(s, sep):
    """an input text, or a part of one matched by a negated class, that may lack the separator"""
    if textroot(s) is not None:
        return True
    if s.op == "group" and s.a[0].op == "rx" and s.a[0].a[0].op == "str" and s.a[2].op == "int" and textroot(s.a[1]) is not None:
        g = groups(s.a[0].a[0].a[0])
        n = s.a[2].a[0]
        return 0 < n <= len(g) and re.fullmatch(r"\[\^(\\.|[^\]\\])*\][+*]?", g[n - 1]) is not None
    return False


def groups(p):
    """the sources of a pattern's capture groups"""
    out, st, i, cls = [], [], 0, False
    while i < len(p):
        c = p[i]
        if c == "\\":
            i += 2
            continue
        if cls:
            cls = c != "]"
        elif c == "[":
            cls = True
            if p[i + 1:i + 2] == "^":
                i += 1
        elif c == "(":
            st.append((i, p[i + 1:i + 2] != "?"))
            if st[-1][1]:
                st[-1] += (len(out),)
                out.append(None)
        elif c == ")" and st:
            b = st.pop()
            if b[1]:
                out[b[2]] = p[b[0] + 1:i]
        i += 1
    return out


def textcond(l):
    """a condition on which patterns a text cut from the input holds"""
    t, op, v = l
    return t.op in ("found", "starts", "ends") and textroot(t.a[0]) is not None and (pattern(t.a[1]) is not None or t.op == "found" and t.a[1].op not in TEXTSTEP) or \
        t.op == "isempty" and textroot(t.a[0]) is not None


def pattern(p):
    """the texts a pattern matches, as one of them (None: not a constant)"""
    if p.op == "str":
        return p.a[0]
    if p.op == "char":
        return p.a[0] if isinstance(p.a[0], str) else chr(p.a[0])
    if p.op == "int":
        return chr(p.a[0])
    return None


def contradictory(c):
    """can the conditions on the input's texts not hold together?  Occurrences alone are met by writing the patterns one after the
    other; what must not occur must not be part of them.  Anything else is left open."""
    has, lacks, odd = [], [], []
    for l in c:
        t, op, v = l
        yes = (op, v) in (("=", 1), ("!", 0))
        if t.op == "found" and pattern(t.a[1]) is not None:
            (has if yes else lacks).append((t.a[0], pattern(t.a[1])))
        elif t.op in ("starts", "ends"):
            odd.append((t.op, t.a[0], pattern(t.a[1]), yes))
        elif t.op == "isempty" and yes:
            odd.append(("empty", t.a[0], "", True))
    for s, p in has:
        for z, q in lacks:
            if related(s, z) and q in p:
                return True
    short = [t.a[1].a[0] for t, op, v in c if t.op == "ovf"]
    for x in short:
        if any(l[0].op != "ovf" and contains(l[0], x) and not path_(l[0]) for l in c):
            return True
    if not odd:
        return False
    texts = [x[1] for x in odd] + [s for s, _ in has + lacks]
    if len(set(texts)) > 1 and not (len(odd) == 1 and odd[0][0] == "starts" and odd[0][3] and len(set(textroot(x) for x in texts)) == 1):
        return True
    for o, s, p, yes in odd:
        if p is None:
            return True
        if yes and o == "empty" and has:
            return True
        if yes and any(q in p for _, q in lacks):
            return True
        if not yes and any(p in q for _, q in has):
            return True
    return len([x for x in odd if x[3]]) > 1


def related(a, b):
    return a is b or textroot(a) is None or textroot(b) is None or textroot(a) is textroot(b)


def offset_suspect(s, a):
    """a byte offset that owes nothing to the text's own characters"""
    if a.op == "int":
        return a.a[0] != 0
    if a.op in ("min", "max"):
        return any(offset_suspect(s, x) for x in a.a if hasattr(x, "op"))
    if a.op == "call" and a.a[0].split("<")[0].endswith(("::min", "::max", "_min", "_max")) and a.a[2]:
        return any(offset_suspect(s, x) for x in a.a[2])
    if a.op == "bin" and a.a[0] == "Sub" and a.a[1].op == "len" and a.a[1].a[0] is s and a.a[2].op == "int":
        return a.a[2].a[0] > 0
    if a.op == "div":
        return lengthlike(a.a[0]) or a.a[0].op == "len"
    if a.op == "sum" and len(a.a[0]) == 1:
        x, k = a.a[0][0], a.a[1]
        if x.op in ("pos", "rpos") and x.a[0] is s and pattern(x.a[1]) is not None:
            p = pattern(x.a[1]).encode()
            return k < 0 or k > len(p) or 0 < k < len(p) and not boundary(p, k)
        if x.op == "len" and x.a[0] is s:
            return k < 0
    return False


def boundary(p, k):
    return k >= len(p) or (p[k] & 0xC0) != 0x80


def unordered(s, a, b, c):
    """the end of a range is where a pattern occurs anywhere in the text, the start where others do, and nothing relates the two"""
    k = 0
    if b.op == "sum" and len(b.a[0]) == 1 and b.a[1] >= 0:
        b, k = b.a[0][0], b.a[1]
    if b.op not in ("pos", "rpos") or b.a[0] is not s or pattern(b.a[1]) is None or k:
        return False
    e = pattern(b.a[1])
    if not e.strip() or a.op == "int" or contains(a, b):
        return False
    parts, n = (a.a[0], a.a[1]) if a.op == "sum" else ((a,), 0)
    if n < 0 or not parts or not all(x.op in ("pos", "rpos") and pattern(x.a[1]) for x in parts):
        return False
    if any(e in pattern(x.a[1]) for x in parts):
        return False
    if n == 0 and any(e.startswith(pattern(x.a[1])) for x in parts):
        return False
    for t, op, v in c:
        if t.op == "found" and pattern(t.a[1]) == e and t.a[0] is not s and (op, v) in (("=", 1), ("!", 0)):
            return False
        if t.op in ("lt", "le", "eq") and contains(t, b):
            return False
    return True


def beyond(l):
    """an index one past the pattern found last: the text may end there"""
    t, op, v = l
    if t.op != "lt" or (op, v) not in (("=", 0), ("!", 1)):
        return False
    a, n = t.a
    if n.op != "len":
        return False
    s = n.a[0].a[0] if n.a[0].op == "bytes" else n.a[0]
    if textroot(s) is None:
        return False
    if a.op == "int":
        return True
    if a.op == "sum" and len(a.a[0]) == 1:
        x = a.a[0][0]
        return x.op in ("pos", "rpos") and x.a[0] is s and pattern(x.a[1]) is not None and a.a[1] >= len(pattern(x.a[1]).encode())
    return False


def judge(W, res, what, e, public, case):
    """report what may panic; true when something may that is not reported as a violation"""
    left = False
    for (body, block, kind, detail), (g, eff) in sorted(e.panics.items(), key=str):
        if str(W.F.bodies.get(body, {}).get("mac") or "").startswith("tracing"):
            continue
        key = "%s %s" % (body.split("::<")[0] if not body.startswith("<") else body, kind)
        where = place(W, body)
        sure = None
        for c in g:
            if not public:
                continue
            if all(feasible(l) for l in c) and len([l for l in c if l[1] != "!"]) <= 12 and not contradictory(c):
                if not detail and not kind.startswith("call:"):
                    pass
                elif kind in ("str-slice",):
                    if textroot(detail[0]) is not None and (any(offset_suspect(detail[0], x) for x in detail[1:]) or
                                                            len(detail) > 2 and unordered(detail[0], detail[1], detail[2], c)):
                        sure = c
                elif kind in ("index", "slice-range", "value-index-mut"):
                    # nothing but the length decides
                    if kind == "index" and detail[1].op == "int" and (path_(detail[0]) or detail[0].op == "split" and detail[1].a[0] > 0 and
                                                                      freetext(detail[0].a[0], detail[0].a[1])):
                        sure = c
                    elif kind == "index" and any(beyond(l) for l in c):
                        sure = c
                elif kind == "map-index":
                    sure = c
                elif kind.startswith("call:"):
                    if not maybe(kind):
                        sure = c
                    elif kind.endswith(("String::truncate", "String::split_off", "String::remove", "String::insert", "String::drain", "Vec::remove",
                                        "Vec::swap_remove", "Vec::split_off", "Vec::drain")) and len(detail) > 1 and detail[1].op == "int" and (
                            kind.endswith("remove") or detail[1].a[0] > 0):
                        sure = c
                elif kind.startswith("assert:"):
                    if kind.startswith(("assert:div", "assert:rem")):
                        sure = c
                    elif kind == "assert:bounds" and any(beyond(l) for l in c):
                        sure = c
            if sure is not None:
                break
        if sure is not None:
            res.bad(key, "%s may panic (%s of %s) in %s when %s" % (what, kind, ", ".join(show(x)[:80] for x in detail), body, show_conj(sure)[:300]), where)
        else:
            left = True
            res.unsure(key, "%s (%s): %s of %s may panic when %s" % (what, case, kind, ", ".join(show(x)[:80] for x in detail if hasattr(x, "op")), show_guard(g)[:300]))
    return left


def maybe(kind):
    """operations that only panic on some arguments"""
    return not any(x in kind for x in ("panicking", "unwrap_failed", "expect_failed", "panic_", "begin_panic", "unreachable"))


# ------------------------------------------------------------------ call and type graphs
def cycles(E):
    """strongly connected components with a cycle (Tarjan, iterative)"""
    idx, low, on, st, out, n = {}, {}, set(), [], [], [0]
    for root in sorted(E):
        if root in idx:
            continue
        work = [(root, iter(sorted(E.get(root, ()))))]
        idx[root] = low[root] = n[0]
        n[0] += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(E.get(w, ())))))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in E.get(v, ()):
                        out.append(sorted(comp))
    return out


def calls(F, k):
    """(callee, line, macro) of each resolved call of a body, and the function constants it mentions"""
    for bl in F.bodies[k]["blocks"]:
        if bl and bl["t"][0] == "call":
            f = callee(bl["t"])
            if f is not None:
                yield f, bl["t"][-2], bl["t"][6] if len(bl["t"]) > 6 else None


def adts_in(F, ti, out, seen=None):
    """own types, and the types of unbounded depth, a type is made of without going through an own type"""
    seen = set() if seen is None else seen
    if ti in seen:
        return
    seen.add(ti)
    t = F.types[ti]
    if t["k"] == "adt":
        out.add(t["d"])
        if t["d"] not in F.adts:
            for x in t["a"]:
                adts_in(F, x, out, seen)
        else:
            for x in t["a"]:
                adts_in(F, x, out, seen)
    elif t["k"] in ("ref", "ptr", "slice", "array"):
        adts_in(F, t["t"], out, seen)
    elif t["k"] == "tuple":
        for x in t["a"]:
            adts_in(F, x, out, seen)


UNBOUNDED = ("serde_json::Value", "serde_json::Map", "serde_json::value::RawValue", "quick_xml::de::text::Text")


def type_graph(F):
    G, un = {}, {}
    for p, a in F.adts.items():
        out = set()
        for v in a["variants"]:
            for f in v["fields"]:
                o = set()
                adts_in(F, f["ty"], o)
                out |= {x for x in o if x in F.adts}
                if any(x in UNBOUNDED for x in o):
                    un.setdefault(p, []).append(f["name"])
        G[p] = out
    return G, un


DECODERS_XML = ("quick_xml::de::from_str", "quick_xml::de::from_reader")
SLACK = ("disable_recursion_limit",)


def c16(W):
    res = Result("C16")
    F = W.F
    E = {}
    for k, s in edges(F).items():
        if own(F, k) and not derived(F, k):
            E[k] = {x for x in through_std(F, edges(F), s) if own(F, x) and not derived(F, x)}
    res.count("functions in the call graph", len(E))
    res.count("calls between them", sum(len(v) for v in E.values()))
    res.ob(len(E))
    for comp in cycles(E):
        res.bad("recursion " + " ".join(x.split("::{closure")[0] for x in comp[:3]), "calls itself: %s" % " -> ".join(comp[:6]), place(W, comp[0]))
    # a trait method called without knowing its implementation, from an implementation of it
    G, un = type_graph(F)
    res.count("types in the containment graph", len(G))
    res.ob(len(G))
    for comp in cycles(G):
        res.bad("recursive type " + " ".join(comp[:3]), "the type contains itself: %s - its values, and the functions that read, write, validate and drop "
                "them, are as deep as the input makes them" % " -> ".join(comp[:6]), "%s:%s" % (F.adts[comp[0]]["file"], F.adts[comp[0]]["line"]))
    res.count("longest chain of types", depth(G))
    # decode targets
    carriers = reaching(G, [p for p in un]) if un else set()
    for k in F.bodies:
        if not own(F, k) or derived(F, k):
            continue
        for f, line, mac in calls(F, k):
            n = norm_path(f.get("r") or f["p"])
            if n.startswith(DECODERS_XML) or n.endswith("Deserialize::deserialize") or "::deserialize" in n and "quick_xml" in n:
                res.count("decoding calls")
                res.ob()
                o = set()
                for a in f.get("a", ()):
                    adts_in(F, a, o)
                bad = [x for x in o if x in UNBOUNDED] or [x for x in o if x in carriers]
                if bad:
                    res.bad("decode %s into %s" % (k, bad[0]), "XML is decoded into %s, which nests as deep as the text does" % bad[0], "%s:%s" % (F.bodies[k]["file"], line))
            if any(x in n for x in SLACK):
                res.bad("limit %s" % k, "the depth limit of the JSON reader is switched off (%s)" % n, "%s:%s" % (F.bodies[k]["file"], line))
    feats = cargo_features(W)
    if "unbounded_depth" in feats:
        res.bad("feature unbounded_depth", "serde_json is built without its depth limit", "Cargo.toml")
    return res


def through_std(F, E, s):
    """the own functions a set of callees leads to, library code in between skipped"""
    out, todo, seen = set(), list(s), set(s)
    while todo:
        x = todo.pop()
        if own(F, x):
            out.add(x)
            continue
        for y in E.get(x, ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return out


def depth(G):
    memo = {}

    def d(p, stack=()):
        if p in memo:
            return memo[p]
        if p in stack:
            return 0
        memo[p] = 1 + max([d(x, stack + (p,)) for x in G.get(p, ())] or [0])
        return memo[p]
    return max([d(p) for p in G] or [0])


def cargo_features(W):
    import os
    p = os.path.join(os.environ.get("MX_REPO", "/repo"), "Cargo.toml")
    try:
        with open(p) as f:
            return f.read()
    except OSError:
        return ""


# ------------------------------------------------------------------ C23
CELLS = ("std::cell::", "std::sync::Mutex", "std::sync::RwLock", "std::sync::atomic", "std::sync::Condvar", "std::sync::mpsc", "std::sync::Barrier",
         "std::sync::poison", "std::sys::thread_local", "std::thread::local", "std::thread::LocalKey", "std::sync::Atomic")
ONCE = ("std::sync::OnceLock", "std::sync::LazyLock", "std::sync::once_lock", "std::sync::lazy_lock", "std::sync::Once")
AMBIENT = (("std::env::", "the environment"), ("std::fs::", "the file system"), ("std::net::", "the network"), ("std::process::", "the process"),
           ("std::time::SystemTime::now", "the clock"), ("std::time::Instant::now", "the clock"), ("chrono::Utc::now", "the clock"), ("chrono::Local", "the clock"),
           ("std::thread::current", "the current thread"), ("std::thread::spawn", "another thread"), ("std::io::stdin", "standard input"), ("rand::", "randomness"),
           ("getrandom", "randomness"), ("uuid::", "randomness"), ("fake::", "randomness"), ("datafake_rs::", "randomness"),
           ("std::hash::RandomState", "randomness"), ("std::collections::hash_map::RandomState", "randomness"), ("std::ptr::addr", "an address"),
           ("std::any::type_id", "a type's identity"), ("std::panic::Location", ""), ("tokio::time", "the clock"), ("std::thread::sleep", "the clock"))
MAPITER = ("std::collections::HashMap::iter", "std::collections::HashMap::keys", "std::collections::HashMap::values", "std::collections::HashMap::into_iter",
           "std::collections::HashMap::drain", "std::collections::HashMap::into_keys", "std::collections::HashMap::into_values", "std::collections::HashSet::iter",
           "std::collections::HashSet::drain", "std::collections::HashMap::iter_mut", "std::collections::HashMap::values_mut",
           "std::collections::HashMap::retain")
ORDERLESS = ("::any", "::all", "::count", "::sum", "::max", "::min", "::contains")


def inner_types(F, ti, seen=None):
    return F.inner_types(ti)


def traced(m):
    return str(m or "").startswith(("tracing", "log::"))


def c23(W):
    res = Result("C23")
    F = W.F
    E = edges(F)
    fine = set()
    for n in sorted(F.changing()):
        res.ob()
        c = F.changing()[n]
        what = written_only(F, n) and "only counted" or remembers(W, n)
        if isinstance(what, str) or what is True:
            res.count("maps that only remember what a key gives" if what is True else "counters that nothing reads")
            fine.add(n)
            continue
        tls = "tys" not in c
        res.bad("state " + n, "%s %s: %s" % (n, "is state of a thread" if tls else "can be changed after it was made (%s)" % c["tys"],
                                             what[0] if what else "a call can leave something behind for the next"), "%s:%s" % (c["file"], c["line"]))
    for s in F.statics:
        res.ob()
        if traced(s.get("mac")) and s["tys"].startswith("tracing"):
            res.count("tracing call sites")
            continue
        res.count("statics")
        where = "%s:%s" % (s["file"], s["line"])
        inner = inner_types(F, s["ty"])
        what = None
        owner = s["path"].split("::{constant")[0]
        if s["path"] in F.changing() or owner in F.changing() and str(s.get("mac")).endswith("thread_local"):
            continue
        if s["mut"]:
            what = "is a mutable static"
        elif s["tls"] or any(x.startswith(CELLS[-3:]) for x in inner):
            what = "is state of a thread"
        elif any(x.startswith(CELLS) for x in inner):
            what = "can be changed after it was made (%s)" % s["tys"]
        elif not s["freeze"] and not any(x.startswith(ONCE) for x in inner):
            what = "can be changed after it was made (%s)" % s["tys"]
        if what:
            # only if code outside sample generation uses it
            res.bad("state " + s["path"], "%s %s: a call can leave something behind for the next" % (s["path"], what), where)
    for name, c in (F.consts.items() if isinstance(F.consts, dict) else F.consts):
        if name not in F.changing() and any(x.startswith(("std::thread::LocalKey", "std::thread::local")) for x in inner_types(F, c["ty"])):
            res.bad("state " + name, "%s is state of a thread: a call can leave something behind for the next" % name, "%s:%s" % (c["file"], c["line"]))
    # ambient inputs
    n = 0
    for k in sorted(F.bodies):
        if not own(F, k) or derived(F, k):
            continue
        n += 1
        maps = False
        sink = set()
        for f, line, mac in calls(F, k):
            res.ob()
            if traced(mac):
                continue
            p = norm_path(f.get("r") or f["p"])
            where = "%s:%s" % (F.bodies[k]["file"], line)
            for pre, what in AMBIENT:
                if p.startswith(pre) and what:
                    res.count("reads of ambient inputs")
                    owner = k.split("::{closure")[0]
                    if what == "randomness" and "plugin::generate::" in k:
                        break
                    if what == "the clock" and k.startswith(("plugin::validate::", "<plugin::validate::")):
                        res.count("reads of the clock in the validation step")
                        break
                    res.bad("ambient %s %s" % (owner, p), "%s reads %s (%s)" % (owner, what, p), where)
                    break
            last = p.rsplit("::", 1)[-1]
            if p.startswith(ONCE) and last in ("get_or_init", "get_or_try_init", "set", "take", "get_mut"):
                res.count("write-once initialisations")
                once(W, res, k, f, line, last)
            if p.startswith(MAPITER) or (last in ("into_iter",) and any(x.startswith(("std::collections::HashMap", "std::collections::HashSet")) for a in f.get("a", ())
                                                                       for x in [F.tname(F.strip_refs(a))])):
                maps = where
            sink.add(last)
        if maps:
            if not any(("::" + x) in ORDERLESS for x in sink):
                res.bad("order " + k.split("::{closure")[0], "%s goes through a hash map in its random order" % k, maps)
    res.count("functions", n)
    clock(W, res)
    # every exported type crosses threads
    for p, a in sorted(F.adts.items()):
        if a["generic"] or not a["exported"]:
            continue
        res.ob()
        res.count("exported types")
        for x, y in (("send", "sent to"), ("sync", "shared between")):
            if not a.get(x):
                res.bad("%s %s" % (x, p), "%s cannot be %s threads" % (p, y), "%s:%s" % (a["file"], a["line"]))
    for p, a in sorted(F.adts.items()):
        if a["generic"] and a["exported"]:
            o = set()
            for v in a["variants"]:
                for f in v["fields"]:
                    o |= inner_types(F, f["ty"])
            bad = [x for x in o if x.startswith(("std::rc::", "std::cell::", "std::ptr::NonNull", "std::sync::MutexGuard"))]
            res.ob()
            if bad:
                res.bad("send " + p, "%s holds %s and cannot cross threads" % (p, bad[0]), "%s:%s" % (a["file"], a["line"]))
    # messages hold no shared mutable state
    for p, a in sorted(F.adts.items()):
        for v in a["variants"]:
            for f in v["fields"]:
                o = inner_types(F, f["ty"])
                bad = [x for x in o if x.startswith(CELLS) and not x.startswith(("std::cell::LazyCell",))]
                if bad:
                    res.bad("interior " + p, "%s.%s can change behind a shared reference (%s)" % (p, f["name"], bad[0]), "%s:%s" % (a["file"], a["line"]))
    for u in F.unsafe:
        if str(u.get("mac") or "").endswith("thread_local"):
            continue
        res.unsure("unsafe %s" % (u,), "unsafe code is not analysed")
    return res


def mentions(F, n):
    """functions whose body, or a closure in it, names the static n"""
    out = set()
    for k, b in F.bodies.items():
        if not own(F, k) or k == n or k.startswith(n + "::"):
            continue
        if any(static_named(x) == n for x in constants(b["blocks"])):
            out.add(k)
    return out


def constants(x):
    if isinstance(x, dict):
        if "static" in x or "fnp" in x:
            yield x
        for y in x.values():
            yield from constants(y)
    elif isinstance(x, list):
        for y in x:
            yield from constants(y)


def static_named(c):
    return c["static"] if "static" in c else c["fnp"].split("::{constant")[0].split("::{closure")[0]


def written_only(F, n):
    """an atomic that is added to or set while nothing uses what it holds"""
    c = F.changing()[n]
    if not all(x.startswith(("std::sync::atomic", "std::sync::Atomic")) or x.startswith("std::cell::UnsafeCell") for x in F.inner_types(c["ty"])):
        return False
    for k in mentions(F, n):
        b = F.bodies[k]
        held = set()
        for bl in b["blocks"]:
            for s in bl["s"] if bl else ():
                if s[0] == "=" and any(static_named(x) == n for x in constants(s[2])):
                    held.add(s[1][0])
        for _ in range(3):
            for bl in b["blocks"]:
                for s in bl["s"] if bl else ():
                    if s[0] == "=" and any(o[1][0] in held for o in operands(s[2])):
                        held.add(s[1][0])
        for bl in b["blocks"]:
            if not bl or bl["t"][0] != "call":
                continue
            t = bl["t"]
            if any(o[0] in "cm" and o[1][0] in held for o in t[2]) or any(static_named(x) == n for o in t[2] for x in constants(o)):
                f = callee(t)
                last = norm_path(f["p"]).rsplit("::", 1)[-1] if f else ""
                if not (last == "store" or last.startswith("fetch_")) or used(b, t[3][0]):
                    return False
    return True


def used(b, l):
    for bl in b["blocks"]:
        if not bl:
            continue
        if any(s[0] == "=" and any(o[1][0] == l for o in operands(s[2])) for s in bl["s"]):
            return True
        t = bl["t"]
        if t[0] == "call" and any(o[0] in "cm" and o[1][0] == l for o in t[2]) or t[0] == "switch" and t[1][0] in "cm" and t[1][1][0] == l:
            return True
    return False


def remembers(W, n):
    """True when what is kept under a key is always what the code makes for that key without it, and nothing else is done with it;
    else what is wrong"""
    F = W.F
    owners = {k.split("::{closure")[0] for k in mentions(F, n)}
    if not owners:
        return True
    mem, gets, runs = {}, [], {}
    for k in sorted(owners):
        if k not in F.bodies:
            return ("it is used in %s" % k,)
        e = engine_for(F, k)
        e.opaque_fns = frozenset()
        e, r = roots.run_fn(F, k, eng=e)
        runs[k] = [(e.deep(s, v), s.g) for s, v in r]
        for what, m, key, v, st in e.kept:
            if m != n:
                continue
            if what == "other":
                return ("%s in %s" % (key, k),)
            if what == "get":
                gets.append((k, key))
            else:
                mem.setdefault(k, []).append((key, v, st.g))
        if k not in mem and not any(x[0] == k for x in gets):
            return ("what %s does with it is not known" % k,)
    if not mem:
        return True
    forms = set()
    for k, xs in mem.items():
        for key, v, g in xs:
            form = keyform(key)
            if form is None:
                return ("the key %s in %s does not tell all it is made of apart" % (show(key)[:80], k),)
            m = {q: mk("memokey", i) for i, q in enumerate(form[1])}
            w = subst(v, m)
            if loose(w):
                return ("what %s keeps under %s depends on more than that: %s" % (k, show(key)[:60], show(w)[:120]),)
            forms.add((w, form[0]))
    if len(forms) != 1:
        return ("different things are kept in it",)
    w, form = next(iter(forms))
    for k, key in gets:
        f = keyform(key)
        if f is None or f[0] is not form:
            return ("%s looks for %s, kept is %s" % (k, show(key)[:80], show(form)[:80]),)
    # with the thing found in the map, every function does what it does when it made it just now
    for k in sorted({x[0] for x in gets} | set(mem)):
        e = engine_for(F, k)
        e.opaque_fns = frozenset()

        def hits(m, key):
            if m != n:
                return None
            return subst(w, {mk("memokey", i): q for i, q in enumerate((keyform(key) or ((), ()))[1])})
        e.hits = hits
        e, r = roots.run_fn(F, k, eng=e)
        hot = {e.deep(s, v) for s, v in r}
        if hot - {v for v, g in runs[k]}:
            x = next(iter(hot - {v for v, g in runs[k]}))
            return ("%s gives something else when it finds the key: %s" % (k, show(x)[:120]),)
    return True


def keyform(key):
    """a key that tells what it is made of apart, and the things it is made of"""
    if key.op in ("arg", "sym", "fld"):
        return mk("memokey", 0), (key,)
    if key.op == "agg" and key.a[0] in ("tuple", "array"):
        at = []
        for q in key.a[2]:
            if q.op in ("arg", "sym", "fld"):
                if q not in at:
                    at.append(q)
            elif not is_const(q):
                return None
        return subst(key, {q: mk("memokey", i) for i, q in enumerate(at)}), tuple(at)
    if key.op == "concat":
        at = [q for q in key.a if not is_const(q)]
        if len(at) == 1 and at[0].op in ("arg", "sym", "fld"):
            return subst(key, {at[0]: mk("memokey", 0)}), tuple(at)
    if is_const(key):
        return key, ()
    return None


def loose(t):
    """whether a term depends on an argument or anything else but constants and the key"""
    return any(x.op in ("arg", "sym", "TOP", "top", "static", "ver", "after") for x in subterms(t))


def once(W, res, k, f, line, last):
    """a write-once static may only be made of constants"""
    F = W.F
    b = F.bodies[k]
    where = "%s:%s" % (b["file"], line)
    owner = k.split("::{closure")[0]
    if last in ("take", "get_mut"):
        res.bad("once %s %s" % (owner, last), "%s changes a write-once static" % owner, where)
        return
    for bl in b["blocks"]:
        if bl and bl["t"][0] == "call" and callee(bl["t"]) is f:
            ops = bl["t"][2][1:]
            for o in ops:
                src = sources(F, b, o)
                if any(x[0] == "arg" for x in src):
                    res.bad("once %s" % owner, "%s keeps a value made from its argument for all later calls" % owner, where)
                elif any(x[0] == "call" for x in src):
                    res.unsure("once %s" % owner, "kept value made by %s" % sorted(x[1] for x in src if x[0] == "call")[0])


def sources(F, b, o, seen=None):
    """what an operand is made of within its body: arguments, call results, constants"""
    seen = set() if seen is None else seen
    if o[0] == "k":
        return {("const",)}
    p = o[1]
    l = p[0]
    if l in seen:
        return set()
    seen.add(l)
    if 1 <= l <= b["argc"]:
        return {("arg", l)}
    out = set()
    for bl in b["blocks"]:
        if not bl:
            continue
        for s in bl["s"]:
            if s[0] == "=" and s[1][0] == l:
                for q in operands(s[2]):
                    out |= sources(F, b, q, seen)
        t = bl["t"]
        if t[0] == "call" and t[3][0] == l:
            f = callee(t)
            n = norm_path(f.get("r") or f["p"]) if f else "?"
            if n.endswith(("Deref>::deref", "::as_str", "Deref::deref", "::to_string", "::to_owned", "::clone", "::into", "::from", "::as_ref", "::borrow")):
                for q in t[2]:
                    out |= sources(F, b, q, seen)
            else:
                sub = set()
                for q in t[2]:
                    sub |= sources(F, b, q, seen)
                out |= {x for x in sub if x[0] == "arg"} or {("call", n)}
    return out


def operands(rv):
    """operands and places an rvalue reads"""
    out = []

    def go(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], list):
                out.append(x)
            elif len(x) == 2 and x[0] == "k":
                pass
            elif len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                out.append(["c", x])
            else:
                for y in x:
                    go(y)
    go(rv)
    return out


def isclock(t):
    return t.op == "call" and t.a[0].startswith(("chrono::Utc", "chrono::Local", "std::time::"))


def shows(t, entry=None):
    """the map entry (innermost) under which the clock shows in a value, other than a timestamp's; None: nowhere"""
    if isclock(t):
        return None if entry == "timestamp" else entry or "the value itself"
    if t.op == "mapins":
        m, k, v = t.a
        r = shows(m, entry)
        if r is None:
            r = shows(v, k.a[0] if k.op == "str" else entry)
        return r or shows(k, "a name")
    for y in t.a:
        for z in (y if isinstance(y, tuple) else (y,)):
            if isinstance(z, tuple):
                z = agg("tuple", 0, tuple(q for q in z if isinstance(q, T)))
            if isinstance(z, T):
                r = shows(z, entry)
                if r is not None:
                    return r
    return None


def clock(W, res):
    """the clock decides nothing, and shows in a timestamp entry only"""
    import rules_plugin as rp
    for name in roots.STEPS:
        if rp.handler(W.F, name) is None:
            continue
        for what, R, m0, tgt in rp.runs_of(W, res, name):
            for c, r, s in R:
                res.ob()
                for t, op, v in c:
                    if any(isclock(x) for x in subterms(t)):
                        res.bad("clock decides " + name, "the %s step decides by the clock: %s" % (name, show(t)[:120]), "src/plugin")
                for x in (r, rp.final(R, s)):
                    if not any(isclock(y) for y in subterms(x)):
                        continue
                    e = shows(x)
                    if e is not None:
                        res.bad("clock shows %s %s" % (name, e), "the %s step puts the clock into %s" % (name, e), "src/plugin")
