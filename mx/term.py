"""Interned terms (access paths, constants, aggregates, uninterpreted applications) and guard sets."""


class T:
    __slots__ = ("op", "a", "_s")

    def __init__(self, op, a):
        self.op = op
        self.a = a
        self._s = None

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T(op, a)
        _tab[k] = t
    return t


def I(v):
    return mk("int", int(v))


def S(s):
    return mk("str", s)


UNIT = mk("agg", "tuple", 0, ())
TRUE = I(1)
FALSE = I(0)


def agg(kind, variant, fields):
    return mk("agg", kind, variant, tuple(fields))


OPT = "std::option::Option"
RES = "std::result::Result"


def some(x):
    return agg(OPT, 1, (x,))


NONE = agg(OPT, 0, ())


def ok(x):
    return agg(RES, 0, (x,))


def err(x):
    return agg(RES, 1, (x,))


def tup(*x):
    return agg("tuple", 0, x)


def fld(b, var, i):
    while True:
        if b.op == "agg":
            if var is not None and b.a[1] != var:
                return mk("absurd")
            fs = b.a[2]
            if i < len(fs):
                return fs[i]
            return mk("fld", b, var, i)
        if b.op == "upd":
            base, uv, ui, val = b.a
            if ui == i and (uv == var):
                return val
            b = base
            continue
        return mk("fld", b, var, i)


def upd(b, var, i, v):
    if b is not None and b.op == "agg" and i < len(b.a[2]):
        fs = list(b.a[2])
        fs[i] = v
        return agg(b.a[0], b.a[1], fs)
    if b is None:
        b = mk("uninit")
    if b.op == "upd":
        # one entry per field, in field order (same variant only)
        chain = []
        while b.op == "upd" and b.a[1] == var:
            if b.a[2] != i:
                chain.append((b.a[2], b.a[3]))
            b = b.a[0]
        chain.append((i, v))
        for j, x in sorted(chain, key=lambda y: (isinstance(y[0], str), y[0])):
            b = mk("upd", b, var, j, x)
        return b
    return mk("upd", b, var, i, v)


def discr(t):
    if t.op == "agg":
        return I(t.a[1])
    while t.op == "upd":
        t = t.a[0]
    return mk("discr", t)


def index(b, i):
    if b.op == "agg" and i.op == "int" and b.a[0] in ("array",):
        if 0 <= i.a[0] < len(b.a[2]):
            return b.a[2][i.a[0]]
    return mk("index", b, i)


def concat(*parts):
    out = []
    for p in parts:
        if p.op == "concat":
            ps = p.a
        else:
            ps = (p,)
        for q in ps:
            if q.op == "str":
                if not q.a[0]:
                    continue
                if out and out[-1].op == "str":
                    out[-1] = S(out[-1].a[0] + q.a[0])
                    continue
            out.append(q)
    if not out:
        return S("")
    if len(out) == 1:
        return out[0]
    return mk("concat", *out)


def is_const(t):
    return t.op in ("int", "str")


def has_op(t, op, _seen=None):
    if isinstance(t, T):
        if t.op == op:
            return True
        return any(has_op(x, op) for x in t.a)
    if isinstance(t, tuple):
        return any(has_op(x, op) for x in t)
    return False


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if isinstance(t, T):
        if t in seen:
            return
        seen.add(t)
        yield t
        for x in t.a:
            yield from subterms(x, seen)
    elif isinstance(t, tuple):
        for x in t:
            yield from subterms(x, seen)


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
        return str(t)
    if t._s is not None:
        return t._s
    a = t.a
    if depth > 40:
        return "..."
    if t.op == "int":
        s = str(a[0])
    elif t.op == "str":
        s = '"%s"' % (a[0] if len(a[0]) < 200 else a[0][:200] + "...")
    elif t.op == "sym":
        s = a[0]
    elif t.op == "fld":
        b = show(a[0], depth + 1)
        s = "%s.%s%s" % (b, "" if a[1] is None else "%d:" % a[1], a[2])
    elif t.op == "agg":
        nm = a[0].split("::")[-1]
        fs = a[2]
        if len(fs) > 12:
            s = "%s#%s{%d items}" % (nm, a[1], len(fs))
        else:
            s = "%s#%s(%s)" % (nm, a[1], ", ".join(show(x, depth + 1) for x in fs))
    elif t.op == "call":
        s = "%s%s(%s)" % (a[0].split("::")[-1] if not a[0].startswith("<") else a[0], "<%s>" % ",".join(a[1]) if a[1] else "", ", ".join(show(x, depth + 1) for x in a[2]))
        if len(a) > 3 and a[3] is not None:
            s += "@%s" % (a[3],)
    else:
        s = "%s(%s)" % (t.op, ", ".join(show(x, depth + 1) for x in a))
    if len(s) < 4000:
        t._s = s
    return s


# ------------------------------------------------------------------ guards
# literal: (term, '=', value) or (term, '!', value); value is an int or a str
# conjunction: frozenset of literals;  guard: frozenset of conjunctions (disjunctive)
GTRUE = frozenset([frozenset()])
GFALSE = frozenset()
MAXCONJ = 400
OVERFLOW = [0]   # how often a guard was weakened because it had too many alternatives


def conj_add(c, lit):
    """conj + literal, or None when contradictory"""
    t, op, v = lit
    drop = []
    if t.op == "isempty":
        # a text that equals a (non-empty) literal is not empty
        u = t.a[0]
        yes = (op, v) in (("=", 1), ("!", 0))
        for l in c:
            if l[0] is u and isinstance(l[2], str):
                if l[1] == "=":
                    return None if yes else c
                if yes:
                    drop.append(l)
    elif op == "=" and isinstance(v, str):
        e = mk("isempty", t)
        for l in c:
            if l[0] is e:
                if (l[1], l[2]) in (("=", 1), ("!", 0)):
                    return None
                drop.append(l)
    elif op == "!" and isinstance(v, str):
        e = mk("isempty", t)
        if (e, "=", 1) in c:
            return c
    for l in c:
        if l[0] is t:
            if l[1] == "=":
                if op == "=":
                    return c if l[2] == v else None
                return None if l[2] == v else c
            else:
                if op == "=":
                    if l[2] == v:
                        return None
                    drop.append(l)
                elif l[2] == v:
                    return c
    if drop:
        c = c - frozenset(drop)
    elif op == "!":
        n = NV.get(t)
        if n:
            ex = {l[2] for l in c if l[0] is t and l[1] == "!"} | {v}
            if len(ex) >= n:
                return None
            if len(ex) == n - 1:
                rest = set(range(n)) - ex
                if len(rest) == 1:
                    c = frozenset(l for l in c if l[0] is not t)
                    return c | {(t, "=", rest.pop())}
    return c | {lit}


def g_and(g, lit):
    out = set()
    for c in g:
        r = conj_add(c, lit)
        if r is not None:
            out.add(r)
    return frozenset(out)


def conj_join(c, d):
    for l in d:
        c = conj_add(c, l)
        if c is None:
            return None
    return c


def g_meet(g, h):
    out = set()
    for c in g:
        for d in h:
            r = conj_join(c, d)
            if r is not None:
                out.add(r)
    return g_simplify(frozenset(out))


def _flip(l):
    t, op, v = l
    if NV.get(t) == 2:
        return (t, "=", 1 - v) if op == "=" and v in (0, 1) else None
    return (t, "!" if op == "=" else "=", v)


def g_simplify(g):
    if len(g) <= 1:
        return g
    g = set(g)
    changed = True
    while changed:
        changed = False
        for c in list(g):
            if c not in g:
                continue
            for l in c:
                f = _flip(l)
                if f is None:
                    continue
                r = c - {l}
                d = conj_add(r, f)
                if d is not None and d is not c and d in g:
                    g.discard(c)
                    g.discard(d)
                    g.add(r)
                    changed = True
                    break
                # x != v  |  x = v with extra '!' literals already absorbed
        if changed:
            continue
        # subsumption
        if len(g) <= 60:
            for c in list(g):
                for d in g:
                    if d is not c and d < c:
                        g.discard(c)
                        changed = True
                        break
    if len(g) > MAXCONJ:
        OVERFLOW[0] += 1
        it = iter(g)
        acc = next(it)
        for c in it:
            acc &= c
        return frozenset([acc])
    return frozenset(g)


def g_or(g, h):
    return g_simplify(g | h)


def g_covers(g, h):
    """every conj of h is subsumed by one of g"""
    for d in h:
        if d in g:
            continue
        if not any(c <= d for c in g):
            return False
    return True


def show_lit(l):
    return "%s %s %s" % (show(l[0]), "==" if l[1] == "=" else "!=", repr(l[2]))


def show_guard(g):
    if not g:
        return "false"
    return " | ".join("{" + ", ".join(sorted(show_lit(l) for l in c)) + "}" for c in g)


def substitute(t, m, simp, memo=None):
    """replace terms by mapping m, rebuilding with smart constructors (simp(op, args) -> term)"""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(substitute(x, m, simp, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = m.get(t)
    if r is None:
        if not t.a or t.op in ("int", "str", "sym"):
            r = t
        else:
            na = tuple(substitute(x, m, simp, memo) for x in t.a)
            r = t if na == t.a else simp(t.op, na)
    memo[t] = r
    return r


# ------------------------------------------------------------------ derived constructors
NV = {}  # term -> number of values it ranges over (for literals)
NOISE = mk("noise")
TOP = mk("top")
UNINIT = mk("uninit")


def nv(t, n):
    if n and t.op not in ("int", "str"):
        NV[t] = n
    return t


def not_(x):
    if x.op == "int":
        return I(0 if x.a[0] else 1)
    if x.op == "not":
        return x.a[0]
    if x.op in ("noise", "top"):
        return x
    return mk("not", x)


def minlen(parts):
    import shape
    n = 0
    for x in parts:
        if x.op == "len":
            sp = shape.spec(x.a[0])
            if sp is not None and sp.nonempty:
                n += 1
    return n


def lt(a, b):
    if a.op == "int" and b.op == "int":
        return I(a.a[0] < b.a[0])
    if a is b:
        return FALSE
    if a.op in ("noise", "top") or b.op in ("noise", "top"):
        return NOISE if NOISE in (a, b) else TOP
    if a.op == "elem" and a.a[0].op == "range" and (a.a[0].a[1] is b or lt(b, a.a[0].a[1]) is FALSE):
        return TRUE       # the numbers of a range are below its end
    if a.op in ("sum", "int", "len") and b.op in ("sum", "int", "len") and not (a.op == "int" and b.op == "int"):
        ap, ac = (list(a.a[0]), a.a[1]) if a.op == "sum" else ([], a.a[0]) if a.op == "int" else ([a], 0)
        bp, bc = (list(b.a[0]), b.a[1]) if b.op == "sum" else ([], b.a[0]) if b.op == "int" else ([b], 0)
        if (ac, bc) != (0, 0) or ap or bp:
            ra, rb = list(ap), list(bp)
            for x in ap:
                if x in rb:
                    ra.remove(x)
                    rb.remove(x)
            if not ra and ac < bc + minlen(rb):
                return TRUE
            if not rb and ac + minlen(ra) >= bc:
                return FALSE
    # unsigned quantities only: x > n  <=>  !(x < n+1);  x < 1 <=> x = 0
    if a.op == "int":
        return not_(lt(b, I(a.a[0] + 1)))
    if b.op == "int":
        if b.a[0] <= 0:
            return FALSE
        if b.a[0] == 1:
            return eq(a, I(0))
    return nv(mk("lt", a, b), 2)


FILLED = []        # told by shape: is the text known to be non-empty?


def isempty(c):
    if c.op == "split":
        return FALSE      # a split has at least one piece
    if c.op == "agg" and c.a[0] == "array":
        return I(len(c.a[2]) == 0)
    if c.op == "str":
        return I(not c.a[0])
    if c.op == "mapped":
        return isempty(c.a[0])
    if c.op == "concat" and any(x.op == "str" for x in c.a):
        return FALSE
    if c.op == "range":
        a, b = c.a
        if a is I(0) and b.op == "len":
            return isempty(b.a[0])
    if c.op in ("noise", "top"):
        return c
    if c.op in ("atom", "concat", "call") and any(f(c) for f in FILLED):
        return FALSE
    return nv(mk("isempty", c), 2)


def length(c):
    if c.op == "agg" and c.a[0] == "array":
        return I(len(c.a[2]))
    if c.op == "str":
        return I(len(c.a[0].encode()))
    if c.op == "mapped":
        return length(c.a[0])
    if c.op in ("noise", "top"):
        return c
    if c.op == "concat":
        import shape
        if shape.shaped(c):
            return shape.items(c)[1][-1]
    return mk("len", c)


def eq(a, b):
    if a is b and a.op not in ("top", "noise", "uninit"):
        return TRUE
    if a.op == "noise" or b.op == "noise":
        return NOISE
    if a.op == "top" or b.op == "top":
        return TOP
    if is_const(a) and is_const(b):
        return I(a.op == b.op and a.a[0] == b.a[0])
    if is_const(a):
        a, b = b, a
    if b.op == "int" and a.op in ("not", "eq", "lt", "isempty", "found", "isrx") and b.a[0] in (0, 1):
        return a if b.a[0] else not_(a)
    if b.op == "str" and not b.a[0]:
        return isempty(a)
    if b is I(0):
        if a.op == "len":
            return isempty(a.a[0])
        if a.op == "nchars":
            return isempty(a.a[0])
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1] or len(a.a[2]) != len(b.a[2]):
            return FALSE
        parts = [eq(x, y) for x, y in zip(a.a[2], b.a[2])]
        if all(p is TRUE for p in parts):
            return TRUE
        if any(p is FALSE for p in parts):
            return FALSE
        parts = [p for p in parts if p is not TRUE]
        if len(parts) == 1:
            return parts[0]
        return mk("and", *parts)
    if not is_const(b) and repr(a) > repr(b):
        a, b = b, a
    return nv(mk("eq", a, b), 2)


def elem(coll):
    if coll.op == "mapped":
        return coll.a[1]
    if coll.op == "range" and False:
        return coll
    return mk("elem", coll)


def index2(b, i):
    if i.op == "elem" and i.a[0].op == "range":
        lo, hi = i.a[0].a
        if lo is I(0) and hi.op == "len" and hi.a[0] is b:
            return elem(b)
    if b.op == "mapped" and i.op == "int":
        pass
    return index(b, i)


# literals from terms: list of conjunctions (each a list of literals) under which term == value
def lits(t, v):
    """DNF (list of literal lists) for t == v;  [] = impossible"""
    op = t.op
    if op in ("int", "str"):
        return [[]] if t.a[0] == v else []
    if op in ("noise", "top"):
        return [[]]
    if v == "":
        e = isempty(t)
        return lits(e, 1)
    if op == "not" and v in (0, 1):
        return lits(t.a[0], 1 - v)
    if op == "eq" and v in (0, 1):
        a, b = t.a
        if is_const(b):
            if v:
                return lits(a, b.a[0])
            return nlits(a, b.a[0])
        return [[(t, "=", v)]]
    if op == "and":
        if v:
            out = [[]]
            for x in t.a:
                out = [o + l for o in out for l in lits(x, 1)]
            return out
        out = []
        pre = [[]]
        for x in t.a:
            out += [o + l for o in pre for l in lits(x, 0)]
            pre = [o + l for o in pre for l in lits(x, 1)]
        return out
    if op == "or":
        return lits(mk("and", *[not_(x) for x in t.a]), 1 - v)
    if op == "isempty" and v in (0, 1):
        x = t.a[0]
        return [[(t, "=", v)]]
    if op == "agg":
        return [[]]
    return [[(t, "=", v)]]


def nlits(t, v):
    """DNF for t != v"""
    op = t.op
    if op in ("int", "str"):
        return [[]] if t.a[0] != v else []
    if op in ("noise", "top"):
        return [[]]
    if v == "":
        return lits(isempty(t), 0)
    n = NV.get(t)
    if n == 2 and v in (0, 1):
        return lits(t, 1 - v)
    if op in ("not", "eq", "and", "or") and v in (0, 1):
        return lits(t, 1 - v)
    if op == "agg":
        return [[]]
    return [[(t, "!", v)]]


def g_assume(g, t, v, neg=False):
    """guard and (t == v)   (or != when neg)"""
    alts = (nlits if neg else lits)(t, v)
    if alts == [[]]:
        return g
    out = set()
    for c in g:
        for a in alts:
            r = c
            for l in a:
                r = conj_add(r, l)
                if r is None:
                    break
            if r is not None:
                out.add(r)
    return frozenset(out)


def g_drop(g, pred):
    """forget the literals for which pred(term) holds"""
    out = set()
    ch = False
    for c in g:
        d = [l for l in c if pred(l[0])]
        if d:
            ch = True
            out.add(c - frozenset(d))
        else:
            out.add(c)
    return g_simplify(frozenset(out)) if ch else g


def g_stale(g, pred):
    """the literals for which pred(term) holds now speak of something that has changed since: kept as marks on the term;
    where a mark says the opposite of an older one, neither is kept"""
    out = set()
    ch = False
    for c in g:
        d = [l for l in c if l[0].op != "stale" and pred(l[0])]
        if d:
            ch = True
            n = set(c - frozenset(d))
            for t, op, v in d:
                m = mk("stale", t)
                old = {l for l in n if l[0] is m}
                if old and (m, op, v) not in old:
                    n -= old
                else:
                    n.add((m, op, v))
            out.add(frozenset(n))
        else:
            out.add(c)
    return g_simplify(frozenset(out)) if ch else g


_contains = {}


def contains(t, x):
    """x occurs in t"""
    if t is x:
        return True
    k = (t, x)
    r = _contains.get(k)
    if r is not None:
        return r
    r = False
    st = list(t.a)
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
        elif isinstance(y, T):
            if contains(y, x):
                r = True
                break
    _contains[k] = r
    return r


def rebuild(op, a):
    """smart re-construction after substitution"""
    if op == "fld":
        return fld(*a)
    if op == "upd":
        return upd(*a)
    if op == "discr":
        n = None
        r = discr(a[0])
        return r
    if op == "not":
        return not_(a[0])
    if op == "lt":
        return lt(*a)
    if op == "eq":
        return eq(*a)
    if op == "isempty":
        return isempty(a[0])
    if op == "len":
        return length(a[0])
    if op == "elem":
        return elem(a[0])
    if op == "index":
        return index2(*a)
    if op == "concat":
        return concat(*a)
    if op == "and":
        ps = [p for p in a if p is not TRUE]
        if any(p is FALSE for p in ps):
            return FALSE
        if not ps:
            return TRUE
        return ps[0] if len(ps) == 1 else mk("and", *ps)
    if op == "or":
        ps = [p for p in a if p is not FALSE]
        if any(p is TRUE for p in ps):
            return TRUE
        if not ps:
            return FALSE
        return ps[0] if len(ps) == 1 else mk("or", *ps)
    if op == "nchars" and a[0].op == "str":
        return I(len(a[0].a[0]))
    r = mk(op, *a)
    return r


def subst(t, m, memo=None):
    r = substitute(t, m, rebuild, memo if memo is not None else {})
    return r


def subst_nv(t, m, memo):
    """substitute and carry the value count over"""
    r = substitute(t, m, rebuild, memo)
    n = NV.get(t)
    if n and r not in NV and r.op not in ("int", "str"):
        NV[r] = n
    return r


def g_subst(g, m, memo):
    out = GFALSE
    for c in g:
        h = GTRUE
        for (t, op, v) in c:
            h = g_assume(h, subst_nv(t, m, memo), v, op == "!")
            if not h:
                break
        out = out | h
    return g_simplify(out)
