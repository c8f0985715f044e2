"""Abstract runs of library functions on described inputs, and verdicts over the resulting decision tables."""
from engine import Engine, St
from term import *
import roots, shape
from envio import decoded


class Rows:
    """the decision table of one function for one described input"""

    def __init__(self, eng, rows):
        self.eng = eng
        self.rows = rows                # [(conjunction, result, state)]
        self.panics = eng.panics
        self.notes = list(eng.notes)

    def __iter__(self):
        return iter(self.rows)


def run(W, key, args=None, io=None, g=GTRUE, opaque=frozenset(), maxstates=1500, hooks=None, cells=None):
    """-> Rows, or None when the function does not exist"""
    F = W.F
    if key not in F.bodies:
        return None
    e = Engine(F)
    e.maxstates = maxstates
    e.io = io
    e.opaque_fns = opaque
    if hooks:
        e.hooks = dict(e.hooks, **hooks)
    _, rs = roots.run_fn(F, key, args, e, g, cells)
    out = []
    for s, r in rs:
        r = e.deep(s, r)
        for c in s.g:
            out.append((c, r, s))
    return Rows(e, out)


def guard_not(t, values):
    g = GTRUE
    for v in values:
        g = g_and(g, (t, "!", v))
    return g


def is_err(t):
    return t.op == "agg" and t.a[0] == RES and t.a[1] == 1


def is_ok(t):
    return t.op == "agg" and t.a[0] == RES and t.a[1] == 0


def okval(t):
    return t.a[2][0] if is_ok(t) else None


def known(t):
    """is the term a fully known value (constants, constructors, symbols and access paths)?"""
    return all(x.op in ("int", "str", "agg", "sym", "arg", "fld", "concat", "atom", "display", "mapins") for x in subterms(t))


def place(W, key):
    b = W.F.bodies.get(key)
    return "%s:%s" % (b["file"], b["line"]) if b else ""


def table(W, res, key, what, rows, want, allowed=None, why=""):
    """every row's result must satisfy `want`; rows under conditions outside `allowed` cannot convict.

    want(result) -> True / False / None (unknown).  allowed(literal) -> may that condition really occur?"""
    if rows is None:
        res.bad("missing " + key, "%s is gone" % key)
        return False
    res.ob()
    good = True
    if not rows.rows and not rows.panics:
        res.unsure("%s %s" % (key, what), "no outcome was derived")
        return False
    for c, r, s in rows:
        v = want(r) if not takes2(want) else want(r, c)
        if v is True:
            continue
        good = False
        strange = [l for l in c if not (allowed and allowed(l))]
        if len({l[0] for l in strange}) <= 2 and all(free(l) for l in strange):
            strange = []
        if v is False and not strange:
            res.bad("%s %s" % (key.rsplit("::", 1)[-1], what), "%s, %s: gives %s%s%s" % (
                key, what, show(r)[:400], why, (" when " + show_conj(c)[:300]) if c else ""), place(W, key))
        else:
            res.unsure("%s %s" % (key.rsplit("::", 1)[-1], what), "gives %s when %s" % (show(r)[:300], show_conj(c)[:300]))
    if rows.panics:
        good = False
    return good


def free(l):
    """a condition on the input's own texts that some described input meets and some does not"""
    t = l[0]
    if l[1] == "!" and isinstance(l[2], str):
        return t.op in ("sym", "atom", "arg") or inside(t)
    if t.op in ("sym", "atom", "arg") or t.op == "fld" and isinstance(l[2], str) and inside(t):
        return True
    if t.op in ("found", "starts", "ends") and t.a[1].op == "str":
        return textlike(t.a[0])
    if t.op == "isempty":
        return t.a[0].op in ("sym", "atom", "arg")
    if t.op in ("lt", "le", "gt", "ge", "eq", "eqi"):
        return all(x.op in ("int", "str") or lengthlike(x) or textlike(x) for x in t.a)
    return False


def inside(t):
    """a member of something decoded"""
    while t.op == "fld":
        if decoded(t) is not None:
            return True
        t = t.a[0]
    return False


def textlike(t):
    if t.op in ("sym", "atom", "arg", "str"):
        return True
    if t.op == "fld":
        # a text inside a decoded header or payload is any text
        return textlike(t.a[0]) or decoded(t) is not None
    return t.op == "concat" and all(textlike(x) for x in t.a)


def lengthlike(t):
    if t.op == "len":
        return textlike(t.a[0])
    if t.op == "sum":
        return all(lengthlike(x) or x.op == "int" for x in _flat(t.a))
    return t.op == "int"


def _flat(a):
    for x in a:
        if isinstance(x, tuple):
            yield from _flat(x)
        elif hasattr(x, "op"):
            yield x
        else:
            yield I(x)


def takes2(f):
    return getattr(f, "two", False)


def show_conj(c):
    return " and ".join(sorted("%s%s%s" % (show(t), op if op == "=" else "!=", v) for t, op, v in c)) or "always"
