"""What each `validate` does, read off its decision structure: one record per type.

The engine gives, for every way through the function, the errors pushed to the collector and the nested validations, each
with the condition under which it happens (a set of conjunctions over the value, the path, the configuration and the
collector).  Here those conditions are compared with the only admissible ones; what differs becomes a problem of the
property it concerns."""
import multiprocessing, os, sys
from engine import Engine
from facts import norm_path
from term import *
import roots, rx
from schema import Schema

ARG0, PATH, CFG, COLL = mk("arg", 0), mk("arg", 1), mk("arg", 2), mk("arg", 3)
SUFFIX = " as validation::Validate>::validate"


def collector_fields(F):
    """-> (field of ErrorCollector that add_error pushes to, field that add_critical_error changes besides it)"""
    def touched(name):
        e = Engine(F, collect=True)
        roots.run_fn(F, "parse_result::ErrorCollector::" + name, eng=e)
        return {(ev[0], ev[2][0][2]) for (ev, _), (g, _, _) in e.events.items() if ev[0] in ("push", "write", "mutcall") and g and ev[2]}
    n = touched("add_error")
    errs = [f for k, f in n if k == "push"]
    c = touched("add_critical_error")
    crit = [f for k, f in c if k == "write" and f not in errs]
    if len(errs) != 1:
        raise ValueError("the list of collected errors is not recognised")
    return errs[0], crit[0] if len(crit) == 1 else None


def raised(v):
    """a value that says: critical (true, or a count that grew)"""
    return v is TRUE or v.op == "int" and v.a[0] > 0 or v.op == "sum" and isinstance(v.a[-1], int) and v.a[-1] > 0


class Ctx:
    def __init__(self, F):
        self.F = F
        self.schema = Schema(F)
        self.eng = Engine(F, collect=True)
        self.eng.no_inline = lambda f: norm_path(f["p"]) == "validation::Validate::validate"
        self.ix = lambda adt, name: [f["name"] for f in F.adts[adt]["variants"][0]["fields"]].index(name)
        self.sums = {0: {}, 1: {}}
        self.ffi = self.ix("parse_result::ParserConfig", "fail_fast")
        self.FF = fld(CFG, None, self.ix("parse_result::ParserConfig", "fail_fast"))
        self.VO = fld(CFG, None, self.ix("parse_result::ParserConfig", "validate_optional_fields"))
        self.ERRS, self.CRIT = collector_fields(F)
        self.VE = {n: self.ix("error::ValidationError", n) for n in ("code", "message", "field", "path")}
        for t in (self.FF, self.VO):
            nv(t, 2)
        nv(isempty(PATH), 2)
        self.COLLE = isempty(fld(COLL, None, self.ERRS))


def decode(t):
    """value term -> (field, mode) relative to self;  mode: '' | 'o' (inside an option) | 'e' (each item) combined"""
    mode = ""
    while True:
        if t.op == "fld" and t.a[1] is None and t.a[0] is ARG0:
            return t.a[2], mode
        if t.op == "fld" and t.a[1] == 1 and t.a[2] == 0:
            mode = "o" + mode
            t = t.a[0]
        elif t.op == "elem":
            mode = "e" + mode
            t = t.a[0]
        else:
            return None


def prefixes(t):
    """literals that hold whenever the value t exists"""
    out = set()
    while t.op in ("fld", "elem"):
        if t.op == "fld" and t.a[1] == 1:
            out.add((discr(t.a[0]), "=", 1))
            t = t.a[0]
        elif t.op == "elem":
            out.add((isempty(t.a[0]), "=", 0))
            t = t.a[0]
        else:
            break
    return out


def is_coll(t):
    return contains(t, COLL) or has_op(t, "ver")


def overlap(g, h):
    """can both conditions hold in one run?  (facts about the collector do not separate two sites of one run)"""
    f = lambda x: frozenset(frozenset(l for l in c if not is_coll(l[0])) for c in x)
    return bool(g_meet(f(g), f(h)))


def restrict(g, lit):
    return g_simplify(g_and(g, lit))


def drop_lits(c, lits_):
    return frozenset(l for l in c if l not in lits_)


def rx_of(t):
    """match term -> (pattern, subject) or None"""
    if t.op == "match" and t.a[0].op == "rx" and t.a[0].a[0].op == "str":
        return t.a[0].a[0].a[0], t.a[1]
    return None


def settle_rx(g):
    """decide isrx literals by reading the pattern"""
    out = set()
    for c in g:
        r, ok_ = set(), True
        for l in c:
            if l[0].op == "isrx" and l[0].a[0].op == "str":
                v, why = rx.validity(l[0].a[0].a[0])
                if v is None:
                    v = True
                if (1 if v else 0) != l[2]:
                    ok_ = False
                    break
            else:
                r.add(l)
        if ok_:
            out.add(frozenset(r))
    return g_simplify(frozenset(out))


def text(c):
    return ", ".join(sorted(show_lit(l) for l in c))[:240]


def gather(cx, key, ff):
    """run `validate` with fail_fast = ff -> (engine, pushes, calls, critical-writes, others)
    pushes: {error value: [guard, order, twice, [(guard, old contents)]]};  calls: {(callee, args without path): [guard, order, twice, [(guard, path)]]}"""
    F = cx.F
    e = Engine(F, collect=True)
    e.no_inline, e.bodies, e.fns = cx.eng.no_inline, cx.eng.bodies, cx.eng.fns
    e.summaries = cx.sums[ff]
    e.versions, e.stale = ff == 1, ff == 0
    cfg = upd(CFG, None, cx.ffi, I(ff))
    roots.run_fn(F, key, eng=e, args={2: cfg})
    pushes, calls, W, other = {}, {}, GFALSE, []
    n = 0
    for (ev, site), (g, okey, _) in e.events.items():
        g = settle_rx(g)
        n += 1
        if ev[0] == "push" and ev[1] == ("R", 3) and len(ev[2]) == 1 and ev[2][0][2] == cx.ERRS:
            if not g:
                continue
            o, extra = pushes.get(ev[3]), ev[4]
            if o is None:
                o = pushes[ev[3]] = [GFALSE, okey, False, []]
        elif ev[0] == "call":
            if not g:
                continue
            k = (ev[1], ev[2][:1] + ev[2][2:])
            o, extra = calls.get(k), ev[2][1] if len(ev[2]) > 1 else None
            if o is None:
                o = calls[k] = [GFALSE, okey, False, []]
        elif ev[0] == "write" and ev[1] == ("R", 3) and len(ev[2]) == 1 and ev[2][0][2] == cx.CRIT and raised(ev[3]):
            W = W | g
            continue
        else:
            if g:
                other.append(ev)
            continue
        if any(overlap(g, h) for h, _ in o[3]):
            o[2] = True
        o[0] = g_or(o[0], g)
        o[1] = min(o[1], okey, key=okn)
        o[3].append((g, extra))
    return e, cfg, pushes, calls, g_simplify(W), other, n


def okn(k):
    return [(x if isinstance(x, tuple) else (x, 9999)) for x in k]


def show_name(t):
    return t.a[0] if t is not None and t.op == "str" else show(t)[:60] if t is not None else "?"


def analyse(cx, key):
    """-> record {type, key, checks, nested, problems[(prop, what)], undecided, n (events read)}"""
    F = cx.F
    tpath = key[1:key.index(" as validation::Validate>")]
    sh = cx.schema.shape(tpath) if tpath in F.adts else None
    rec = {"type": tpath, "key": key, "checks": [], "nested": [], "problems": [], "undecided": [], "n": 0,
           "file": F.bodies[key]["file"], "line": F.bodies[key]["line"]}
    prob = lambda p, w: rec["problems"].append((p, w))
    wname = lambda f: sh.fields[f]["w"] if sh is not None and sh.kind == "struct" and f < len(sh.fields) else "#%s" % f
    OVERFLOW[0] = 0
    e, cfg, pushes, calls, W, other, n = gather(cx, key, 0)
    if OVERFLOW[0]:
        rec["undecided"].append("too many alternatives")
    OVERFLOW[0] = 0
    e1, cfg1, pushes1, calls1, W1, other1, n1 = gather(cx, key, 1)
    rec["n"] = n + n1
    for x in e.notes + e1.notes:
        rec["undecided"].append(repr(x)[:200])
    for ev in other + other1:
        if ev[0] == "wild-write":
            rec["undecided"].append("write through an unknown pointer")
        elif ev[1] == ("R", 3):
            prob("C10", "the collected errors are changed by %s" % (ev[3] if ev[0] == "mutcall" else "an assignment to %s" % (ev[2],)))
    order = []
    # ---- collecting
    seen = {}
    for (callee, args), (g, okey, twice, parts) in calls.items():
        nested(cx, rec, prob, wname, callee, args, g, okey, order, seen, twice, parts, cfg)
    errs = {}
    for v, (g, okey, twice, parts) in pushes.items():
        r = pushed(cx, rec, prob, wname, v, g, okey, order, seen, twice, sh)
        if r:
            errs[v] = r
    if W:
        prob("C10", "an error is marked critical although fail-fast is off (%s)" % text(next(iter(W))))
    for (bk, coll), g in e.exits.items():
        if settle_rx(g):
            d = decode(coll) if isinstance(coll, T) else None
            prob("C08", "stops before every item of %s has been validated" % (wname(d[0]) if d else "a list"))
    order.sort(key=lambda x: okn(x[0]))
    last = -1
    for _, f in order:
        if f < last:
            prob("C10", "%s is validated after %s: errors do not come in element order" % (wname(f), wname(last)))
            break
        last = f
    # ---- failing fast
    if OVERFLOW[0]:
        rec["undecided"].append("too many alternatives when failing fast")
        rec["problems"] = sorted(set(rec["problems"]))
        return rec
    nocoll = lambda g: frozenset(frozenset(l for l in c if not is_coll(l[0])) for c in g)
    W1 = nocoll(W1)
    for (callee, args), o in calls.items():
        a1 = tuple(cfg1 if a is cfg else a for a in args)
        o1 = calls1.get((callee, a1))
        d = decode(args[0])
        w = wname(d[0]) if d else "?"
        if o1 is None:
            prob("C08", "%s is not validated when failing fast" % w)
            continue
        base = prefixes(args[0])
        if not any(all(only_fault(l, sh) for l in c if l not in base and l[0] not in (isempty(PATH), cx.VO) and not is_coll(l[0])) for c in o1[0]):
            prob("C08", "%s is validated only under a condition when failing fast: %s" % (w, text(next(iter(o1[0])))))
    for (callee, a1) in calls1:
        if (callee, tuple(cfg if a is cfg1 else a for a in a1)) not in calls:
            d = decode(a1[0])
            prob("C08", "%s is validated only when failing fast" % (wname(d[0]) if d else show(a1[0])[:80]))
    for v, (code, w, kind, arg, t) in errs.items():
        o1 = pushes1.get(v)
        if o1 is None:
            prob("C10", "%s: error %d is not reported when failing fast" % (w, code))
            continue
        if any((isempty(old), "=", 1) not in c for g, old in o1[3] for c in g):
            prob("C10", "%s: error %d may be added to earlier errors when failing fast" % (w, code))
            continue
        g1 = o1[0]
        for c in g1:
            fl = fault(c, code, sh)
            prop = "C07" if code == 1005 else "C06"
            if fl is None or fl[:3] != (kind, arg, t):
                if any(has_op(l[0], "top") for l in c):
                    rec["undecided"].append("condition of error %d" % code)
                else:
                    prob(prop, "%s: error %d has another condition when failing fast: %s" % (w, code, text(c)))
                break
            extra = [l for l in c if l is not fl[3] and l not in prefixes(t) and l[0] not in (isempty(PATH), cx.VO) and not is_coll(l[0])]
            if not all(only_fault(l, sh) for l in extra):
                prob("C10", "%s: error %d needs a further condition when failing fast: %s" % (w, code, text(extra)))
                break
        if not g_covers(W1, nocoll(g1)):
            prob("C10", "%s: error %d is not marked critical when failing fast" % (w, code))
    for v in pushes1:
        if v not in pushes:
            prob("C10", "an error is reported only when failing fast: %s" % show(v)[:120])
    rec["problems"] = sorted(set(rec["problems"]))
    return rec


def nested(cx, rec, prob, wname, callee, args, g, okey, order, seen, twice, parts, cfg):
    v = args[0]
    d = decode(v)
    if d is None:
        if v.op in ("top", "noise"):
            rec["undecided"].append("validates an unknown value")
        else:
            prob("C08", "validates %s, which is no element of the value" % show(v)[:120])
        return
    f, mode = d
    w = wname(f)
    order.append((okey, f))
    base = prefixes(v)
    dup = seen.setdefault(("call", v), [])
    if twice or any(overlap(g, h) for h in dup):
        prob("C10", "%s is validated twice" % w)
    dup.append(g)
    conds = set()
    for P in (0, 1):
        for c in restrict(g, (isempty(PATH), "=", P)):
            conds.add(frozenset(l for l in c if l not in base and l[0] is not isempty(PATH)))
        if not g_and(g, (isempty(PATH), "=", P)):
            prob("C08", "%s is not validated when the path is %s" % (w, "empty" if P else "not empty"))
    conds = g_simplify(frozenset(conds))
    cond = "always"
    if conds != GTRUE:
        if conds == frozenset([frozenset([(cx.VO, "=", 1)])]):
            cond = "optional"
        else:
            cond = "other"
            if any(has_op(l[0], "top") for c in conds for l in c):
                rec["undecided"].append("condition of %s" % w)
            else:
                prob("C08", "%s is validated only under a condition: %s" % (w, " | ".join(text(c) for c in list(conds)[:3])))
                if any(is_coll(l[0]) for c in conds for l in c):
                    prob("C10", "whether %s is validated depends on the errors before it" % w)
    if "o" not in mode and cond == "optional":
        prob("C08", "%s is mandatory but skipped when optional fields are not validated" % w)
    # config and collector go through unchanged
    if len(args) > 1 and args[1] is not cfg and not has_op(args[1], "top"):
        prob("C08", "%s is validated with another configuration" % w)
    if len(args) > 2 and not (args[2].op == "rootptr" and args[2].a[0] == ("R", 3) and not args[2].a[1]):
        prob("C08", "%s is validated with another collector" % w)
    for h, p in parts:
        pc = path_problem(p, h, w)
        if pc:
            prob("C09", "path of %s: %s" % (w, pc))
    rec["nested"].append({"f": f, "mode": mode, "callee": callee, "cond": cond})


def only_fault(l, sh=None):
    """literal that says an earlier check passed (or which optional parts are present)"""
    t, op, v = l
    if t.op == "isempty" and not is_text(t.a[0], sh):
        return True
    return t.op in ("lt", "match") and op == "=" and v == 1 or t.op == "isempty" and v == 0 or t.op == "lt" and v == 0 or t.op == "discr"


def path_problem(p, g, w):
    """the path must be `path.w`, or `w` when path is empty"""
    for P in (0, 1):
        h = g_and(g, (isempty(PATH), "=", P))
        if not h:
            continue
        q = subst(p, {PATH: S("")}) if P else p
        want = S(w) if P else concat(PATH, S("." + w))
        if q is want:
            continue
        if has_op(q, "top"):
            return None
        return "%s instead of %s" % (show(q)[:100], show(want))
    return None


def option_some(t):
    if t.op == "agg" and t.a[1] == 1 and t.a[2]:
        return t.a[2][0]
    return None


def pushed(cx, rec, prob, wname, v, g, okey, order, seen, twice, sh):
    """one error of the collecting mode -> (code, element, kind, bound, value term)"""
    if v.op != "agg":
        if v.op in ("top", "noise") or v.op == "call":
            rec["undecided"].append("unknown error value %s" % show(v)[:100])
        else:
            prob("C10", "an error of unknown content is collected: %s" % show(v)[:100])
        return
    fs = v.a[2]
    code = fs[cx.VE["code"]]
    name = option_some(fs[cx.VE["field"]])
    path = option_some(fs[cx.VE["path"]])
    if code.op != "int":
        rec["undecided"].append("error code %s" % show(code)[:60])
        return
    code = code.a[0]
    nm = show_name(name)
    prop = {1001: "C06", 1002: "C06", 1005: "C07"}.get(code, "C10")
    if code == 9999:
        prob("C11", "an invalid pattern is used for %s" % nm)
        return
    if code not in (1001, 1002, 1005):
        rec["checks"].append({"f": -1, "mode": "", "kind": "other", "arg": code, "P": -1})
        return
    kinds = set()
    for c in g:
        fl = fault(c, code, sh)
        if fl is None:
            if any(has_op(l[0], "top") for l in c):
                rec["undecided"].append("condition of error %d" % code)
                return
            prob(prop, "error %d for %s is reported under: %s" % (code, nm, text(c) or "every condition"))
            return
        kind, arg, t, lit, note = fl
        if note:
            prob(prop, "%s: %s" % (nm, note))
        rest = frozenset(l for l in c if l is not lit and l not in prefixes(t) and l[0] is not isempty(PATH))
        kinds.add((kind, arg, t, rest))
    k4 = {k[:3] for k in kinds}
    if len(k4) != 1:
        prob(prop, "error %d for %s has several conditions" % (code, nm))
        return
    kind, arg, t = k4.pop()
    rests = g_simplify(frozenset(k[3] for k in kinds))
    d = decode(t)
    if d is None:
        prob(prop, "error %d is reported for %s, which is no element of the value" % (code, show(t)[:100]))
        if t.op == "elem" and t.a[0].op.startswith("sub_"):
            prob("C08", "only some occurrences are checked: %s" % show(t)[:100])
        return
    f, mode = d
    w = wname(f)
    if rests != GTRUE:
        prob(prop, "%s: error %d only under a further condition: %s" % (w, code, " | ".join(text(c) for c in list(rests)[:3])))
        if any(is_coll(l[0]) for c in rests for l in c):
            prob("C10", "%s: whether error %d is collected depends on the errors before it" % (w, code))
    order.append((okey, f))
    # which paths of the caller are covered by this event
    for P in (0, 1):
        if not g_and(g, (isempty(PATH), "=", P)):
            continue
        dup = seen.setdefault((kind, arg, t, P), [])
        if dup or twice:
            prob("C10", "%s: error %d is collected twice" % (w, code))
        dup.append(1)
        cov = {"f": f, "mode": mode, "kind": kind, "arg": arg, "P": P}
        if cov not in rec["checks"]:
            rec["checks"].append(cov)
    # C09
    if name is None or name is not S(w):
        if not (name is not None and has_op(name, "top")):
            prob("C09", "error %d for %s names %s" % (code, w, show(name) if name else "no field"))
    if path is None:
        prob("C09", "error %d for %s has no path" % (code, w))
    else:
        pp = path_problem(path, g, w)
        if pp:
            prob("C09", "path of error %d for %s: %s" % (code, w, pp))
    return code, w, kind, arg, t


def is_text(t, sh):
    """the term is the text of an element (not a list)"""
    d = decode(t)
    if d is None:
        return False
    if sh is None or sh.kind != "struct" or d[0] >= len(sh.fields):
        return True
    f = sh.fields[d[0]]
    want = {"req": "", "opt": "o", "vec": "e", "optvec": "oe"}[f["occ"]]
    return f["leaf"] == "text" and d[1] == want


def fault(c, code, sh=None):
    """the literal of conjunction c that says what is wrong -> (kind, arg, value term, literal, note)"""
    best = None
    for l in c:
        t, op, v = l
        if code in (1001, 1002):
            if t.op == "lt" and t.a[1].op == "int" and t.a[0].op in ("nchars", "len") and op == "=":
                note = None if t.a[0].op == "nchars" else "length is counted in bytes, not characters"
                n = t.a[1].a[0]
                # the strongest such fact
                if code == 1001 and v == 1 and (best is None or n < best[1]):
                    best = "min", n, t.a[0].a[0], l, note
                if code == 1002 and v == 0 and (best is None or n - 1 > best[1]):
                    best = "max", n - 1, t.a[0].a[0], l, note
        if code == 1005:
            m = rx_of(t)
            if m and op == "=" and v == 0:
                p, subj = m
                note = None
                if subj.op == "trim":
                    subj = subj.a[0]
                else:
                    note = "the pattern is applied to the value with its surrounding white space"
                return "pat", p, subj, l, note
    if best and not (code == 1001 and any(l[0].op == "isempty" and l[2] == 1 and is_text(l[0].a[0], sh) for l in c)):
        return best
    if code in (1001, 1002):
        for l in c:
            t, op, v = l
            if t.op == "isempty" and op == "=" and decode(t.a[0]) is not None:
                if code == 1001 and v == 1 and is_text(t.a[0], sh):
                    return "min", 1, t.a[0], l, None
    if code == 1002:
        for l in c:
            t, op, v = l
            if t.op == "isempty" and op == "=" and v == 0 and is_text(t.a[0], sh):
                return "max", 0, t.a[0], l, None
    return None


# ---------------------------------------------------------------- all types, in parallel
_CX = None


def _work(keys):
    sys.setrecursionlimit(20000)
    out = []
    for k in keys:
        try:
            out.append(analyse(_CX, k))
        except Exception as ex:   # an analysis failure is an undecided function, never a verdict
            out.append({"type": k[1:k.index(" as validation::Validate>")], "key": k, "checks": [], "nested": [], "problems": [],
                        "undecided": ["analysis failed: %r" % (ex,)], "n": 0, "file": "", "line": 0})
    return out


def profile(F, jobs=None):
    global _CX
    _CX = Ctx(F)
    keys = sorted(k for k in F.bodies if k.endswith(SUFFIX) and "{closure" not in k)
    jobs = jobs or min(8, os.cpu_count() or 1)
    chunks = [keys[i:i + 20] for i in range(0, len(keys), 20)]
    if jobs == 1:
        rs = [_work(c) for c in chunks]
    else:
        with multiprocessing.get_context("fork").Pool(jobs) as pool:
            rs = pool.map(_work, chunks, 1)
    return {r["type"]: r for x in rs for r in x}
