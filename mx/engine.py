"""Guarded value-flow analysis over MIR.

A forward dataflow analysis: the abstract value of a place is a term (constant, access path, aggregate or
uninterpreted application); program points carry a set of abstract states that is joined where environments agree
(their path conditions, kept as sets of literals, are united).  Calls to local functions are analysed in context or
through summaries; library calls through the transfer functions in models.py.  Nothing is executed and no solver is
involved: literals are compared syntactically after normalisation.
"""
import heapq
from term import *
from facts import norm_path

MAXSTATES = 80
MAXVISITS = 60


class St:
    __slots__ = ("cells", "g", "eff", "act")

    def __init__(self, cells, g, eff=(), act=frozenset()):
        self.cells = cells
        self.g = g
        self.eff = eff
        self.act = act

    def copy(self):
        return St(dict(self.cells), self.g, self.eff, self.act)

    def with_g(self, g):
        return St(self.cells, g, self.eff, self.act)

    def assume(self, t, v, neg=False):
        g = g_assume(self.g, t, v, neg)
        if not g:
            return None
        return self if g is self.g else St(self.cells, g, self.eff, self.act)

    def key(self):
        return (frozenset(self.cells.items()), self.eff, self.act)


class Body:
    def __init__(self, key, raw):
        self.key = key
        self.raw = raw
        self.blocks = raw["blocks"]
        self.argc = raw["argc"]
        self.locals = raw["locals"]
        self.file = raw["file"]
        n = len(self.blocks)
        self.succ = [self._succ(b) for b in self.blocks]
        self._rpo()
        self._live()

    @staticmethod
    def _succ(b):
        if not b:
            return []
        t = b["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[3]] + [t[4]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[5]]
        if k == "yield":
            return [t[3]]
        return []

    def _rpo(self):
        seen = set()
        post = []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen and self.blocks[s]:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        post.reverse()
        self.rpo = {b: i for i, b in enumerate(post)}
        self.order = post

    def _live(self):
        use = {}
        df = {}

        def pl_use(p, u):
            u.add(p[0])
            for e in p[1]:
                if e[0] == "i":
                    u.add(e[1])

        def op_use(o, u):
            if o[0] in ("c", "m"):
                pl_use(o[1], u)

        for b in self.order:
            u, d = set(), set()

            def U(f, *a):
                s = set()
                f(*a, s)
                u.update(s - d)

            def D(p):
                if not p[1]:
                    d.add(p[0])
                else:
                    U(pl_use, p)

            for s in self.blocks[b]["s"]:
                if s[0] == "=":
                    rv = s[2]
                    k = rv[0]
                    if k in ("use", "rep"):
                        U(op_use, rv[1])
                    elif k in ("ref",):
                        U(pl_use, rv[2])
                    elif k == "rawptr":
                        U(pl_use, rv[-1])
                    elif k == "discr":
                        U(pl_use, rv[1])
                    elif k == "cast":
                        U(op_use, rv[2])
                    elif k == "bin":
                        U(op_use, rv[2])
                        U(op_use, rv[3])
                    elif k == "un":
                        U(op_use, rv[2])
                    elif k == "agg":
                        for o in rv[2]:
                            U(op_use, o)
                    else:
                        for x in rv[1:]:
                            if isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                                U(pl_use, x)
                    D(s[1])
                elif s[0] == "sd":
                    U(pl_use, s[1])
            t = self.blocks[b]["t"]
            k = t[0]
            if k == "switch":
                U(op_use, t[1])
            elif k == "call":
                U(op_use, t[1])
                for a in t[2]:
                    U(op_use, a)
                D(t[3])
            elif k == "assert":
                U(op_use, t[1])
                for o in t[4]:
                    U(op_use, o)
            elif k == "yield":
                U(op_use, t[1])
                D(t[2])
            elif k == "ret":
                U(pl_use, [0, []])
            use[b], df[b] = u, d
        live = {b: set() for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                out = set()
                for s in self.succ[b]:
                    if s in live:
                        out |= live[s]
                n = use[b] | (out - df[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live


class Summary:
    __slots__ = ("rets", "events", "panics", "exits")


class Engine:
    def __init__(self, F, collect=False):
        self.F = F
        self.bodies = {}
        self.depth = 0
        self.stack = []
        self.collect = collect
        self.maxstates = MAXSTATES
        self.io = None        # readers and writers of shaped texts
        self.events = {}      # collect mode: event -> [guard, order]
        self.panics = {}      # (bodykey, block, kind) -> [guard, detail]
        self.exits = {}       # early loop exits: (bodykey, coll) -> guard
        self.summaries = {}
        self.sites = []       # call-site stack
        self.opaque = {}      # opaque callees seen
        self.notes = []
        self.fns = {}
        self.versions = False
        self.stale = False  # keep conditions on earlier contents of a root as marks (see profile.gather)
        self.no_inline = None  # predicate(callee) -> bool : record as event only
        self.hooks = {}
        self.opaque_fns = frozenset()   # local functions treated as uninterpreted pure operations
        self.used_opaque = set()
        self.covered = {}     # body key -> set of blocks analysed
        self.tick = 0
        self.kept = []        # what is done with maps that outlive the call
        self.hits = None      # what such a map is taken to hold: (static, key) -> value
        self.lazy = {}        # write-once statics: their values
        import models
        self.models = models

    # ------------------------------------------------------------ basics
    def changing(self):
        """statics whose value can change between calls"""
        return self.F.changing()

    def body(self, key):
        b = self.bodies.get(key)
        if b is None:
            b = Body(key, self.F.bodies[key])
            self.bodies[key] = b
        return b

    def place_ty(self, body, p):
        """type id of a place (None when it cannot be told)"""
        t = body.locals[p[0]]
        for e in p[1]:
            k = e[0]
            T = self.F.types[t] if t is not None else None
            if k == "*":
                if T and T["k"] in ("ref", "ptr"):
                    t = T["t"]
                elif T and T["k"] == "adt" and T["a"]:
                    t = T["a"][0]
                else:
                    return None
            elif k == "f":
                t = e[2]
            elif k in ("i", "c"):
                if T and T["k"] in ("slice", "array"):
                    t = T["t"]
                else:
                    return None
            elif k in ("v", "s"):
                pass
            else:
                return None
        return t

    def nvariants(self, tid):
        if tid is None:
            return None
        T = self.F.types[self.F.strip_refs(tid)]
        if T["k"] == "bool":
            return 2
        if T["k"] != "adt":
            return None
        d = T["d"]
        if d in ("std::boxed::Box", "std::sync::Arc", "std::rc::Rc"):
            return self.nvariants(T["a"][0]) if T["a"] else None
        A = self.F.adts.get(d)
        if A:
            return len(A["variants"])
        return {"std::option::Option": 2, "std::result::Result": 2, "std::ops::ControlFlow": 2,
                "std::borrow::Cow": 2, "std::cmp::Ordering": 3, "serde_json::Value": 6}.get(d)

    # ------------------------------------------------------------ memory
    def read_cell(self, st, c):
        return st.cells.get(c, UNINIT)

    def proj_read(self, v, projs):
        for p in projs:
            k = p[0]
            if k == "f":
                v = fld(v, p[1], p[2])
            elif k == "i":
                v = index2(v, p[1])
            elif k == "map":
                v = self.models.map_get_or_null(v, p[1])
            elif k == "ci":
                v = mk("cindex", v, p[1], p[2])
            elif k == "s":
                v = mk("subslice", v, *p[1:])
            elif k == "x":
                v = mk("call", p[1], (), (v,) + p[2], None)
            else:
                v = TOP
        return v

    def proj_update(self, v, projs, val):
        if not projs:
            return val
        p = projs[0]
        k = p[0]
        old = self.proj_read(v, (p,))
        new = self.proj_update(old, projs[1:], val)
        if k == "f":
            return upd(v, p[1], p[2], new)
        if k == "i":
            if v.op == "agg" and v.a[0] == "array" and p[1].op == "int" and 0 <= p[1].a[0] < len(v.a[2]):
                fs = list(v.a[2])
                fs[p[1].a[0]] = new
                return agg("array", v.a[1], fs)
            return mk("updi", v, p[1], new)
        if k == "map":
            return self.models.map_insert(v, p[1], new)
        return mk("updx", v, repr(p), new)

    def load(self, st, ptr):
        return self.proj_read(self.read_cell(st, ptr.a[0]), ptr.a[1])

    def is_root(self, cell):
        return cell[0] == "R"

    def store(self, st, ptr, val):
        """in place on st"""
        c, projs = ptr.a
        if self.is_root(c):
            self.emit(st, ("write", c, projs, val))
            if self.collect and not self.versions:
                self.new_version(st, c, projs, "write")
                return
        st.cells[c] = self.proj_update(self.read_cell(st, c), projs, val)

    def new_version(self, st, c, projs, tag, nonempty=False):
        """collect mode: what is at c/projs changed in a way only the event records.
        Without versions everything known about the root is forgotten; with versions the new content is a new symbol,
        and once something was pushed nothing else about the path matters (only whether more is pushed)."""
        if not self.versions:
            s = st.cells[c]
            st.g = (g_stale if self.stale else g_drop)(st.g, lambda t: contains(t, s))
            return
        s = mk("ver", tag)
        st.g = g_drop(st.g, lambda t: contains(t, s))
        st.cells[c] = self.proj_update(self.read_cell(st, c), projs, s)
        if nonempty:
            st.g = g_assume(GTRUE if len(self.stack) == 1 else st.g, isempty(s), 0)

    def deep(self, st, t, seen=None):
        """replace pointers by the values they point to (for terms that leave the state)"""
        if not has_ptr(t):
            return t
        if t.op == "ptr":
            c = t.a[0]
            if self.is_root(c):
                return self.load(st, t)
            return self.deep(st, self.load(st, t))
        def go(x):
            if isinstance(x, T):
                return self.deep(st, x)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        return rebuild(t.op, tuple(go(x) for x in t.a))

    def emit(self, st, ev):
        site = self.site()
        if self.collect:
            e = self.events.get((ev, site))
            if e is None:
                self.tick += 1
                self.events[(ev, site)] = [st.g, self.order_key(), site]
            else:
                e[0] = g_or(e[0], st.g)
        else:
            e = (ev, site)
            if e not in st.eff:
                st.eff = st.eff + (e,)

    def order_key(self):
        return tuple(s[1] for s in self.sites)

    def site(self):
        return tuple((s[0], s[2], s[3]) for s in self.sites)

    def panic(self, st, kind, detail):
        k = (self.sites[-1][0], self.sites[-1][2], kind) if self.sites else ("?", 0, kind)
        for x in reversed(self.sites):
            if self.F.bodies.get(x[0], {}).get("crate") == "mx_message":
                k = (x[0], x[2], kind)
                break
        key = k + (detail,)
        e = self.panics.get(key)
        if e is None:
            self.panics[key] = [st.g, st.eff]
        else:
            e[0] = g_or(e[0], st.g)

    # ------------------------------------------------------------ places
    def resolve_place(self, st, d, body, p):
        """-> ('val', term) | ('loc', cell, projs)"""
        cell = (d, p[0])
        projs = []
        ty = body.locals[p[0]]
        var = None
        cur = None  # a value, once we left addressable memory
        for e in p[1]:
            k = e[0]
            if k == "*":
                v = cur if cur is not None else self.proj_read(self.read_cell(st, cell), tuple(projs))
                T = self.F.types[ty] if ty is not None else None
                isref = T is None or T["k"] in ("ref", "ptr")
                if v.op == "ptr":
                    cell, projs = v.a[0], list(v.a[1])
                    cur = None
                elif isref:
                    cur = v
                else:
                    pass  # Box: transparent, same location
                if T is None:
                    ty = None
                elif T["k"] in ("ref", "ptr"):
                    ty = T["t"]
                elif T["k"] == "adt" and T["a"]:
                    ty = T["a"][0]
                else:
                    ty = None
                var = None
                continue
            if k == "v":
                var = e[1]
                continue
            if k == "f":
                pr = ("f", var, e[1])
                ty = e[2]
                var = None
                T0 = None
            elif k == "i":
                idx = self.read_cell(st, (d, e[1]))
                pr = ("i", idx)
                T = self.F.types[ty] if ty is not None else None
                ty = T["t"] if T and T["k"] in ("slice", "array") else None
            elif k == "c":
                pr = ("i", I(e[1])) if not e[3] else ("ci", e[1], "end")
                T = self.F.types[ty] if ty is not None else None
                ty = T["t"] if T and T["k"] in ("slice", "array") else None
            elif k == "s":
                pr = ("s", e[1], e[2], bool(e[3]))
            else:
                pr = None
            if pr is None:
                continue
            if cur is not None:
                cur = self.proj_read(cur, (pr,))
            else:
                projs.append(pr)
        if cur is not None:
            return ("val", cur)
        return ("loc", cell, tuple(projs))

    def read_place(self, st, d, body, p):
        if not p[1]:
            return st.cells.get((d, p[0]), UNINIT)
        r = self.resolve_place(st, d, body, p)
        if r[0] == "val":
            return r[1]
        v = self.proj_read(self.read_cell(st, r[1]), r[2])
        return v

    def write_place(self, st, d, body, p, val):
        if not p[1]:
            st.cells[(d, p[0])] = val
            return
        r = self.resolve_place(st, d, body, p)
        if r[0] == "val":
            self.emit(st, ("wild-write", r[1], val))
            return
        self.store(st, mk("ptr", r[1], r[2]), val)

    # ------------------------------------------------------------ constants
    def const(self, c):
        k = id(c)
        if "f" in c:
            f = c["f"]
            t = mk("fn", f.get("k") or f.get("r") or f["p"], norm_path(f["p"]))
            self.fns[t] = f
            return t
        if "s" in c:
            return S(c["s"])
        if "i" in c:
            return I(c["i"])
        if "fl" in c:
            return mk("float", c["fl"])
        if "ref" in c:
            return self.const(c["ref"])
        if "adt" in c:
            T = self.F.types[c["t"]]
            if T["d"] == "std::thread::LocalKey":
                n = [x["fnp"] for x in c["adt"][1] if "fnp" in x]
                if n:
                    return mk("static", n[0].split("::{constant")[0].split("::{closure")[0])
            fs = [self.const(x) for x in c["adt"][1]]
            if T["d"] in ("std::boxed::Box", "std::sync::Arc") and fs:
                return fs[0]
            if T["d"] in ("std::string::String",):
                return S("")
            if T["d"] in ("std::vec::Vec",):
                return agg("array", 0, ())
            return agg(T["d"], c["adt"][0], fs)
        if "tup" in c:
            return agg("tuple", 0, [self.const(x) for x in c["tup"]])
        if "arr" in c:
            return agg("array", 0, [self.const(x) for x in c["arr"]])
        if "bytes" in c:
            return agg("array", 0, [I(x) for x in c["bytes"]])
        if "static" in c:
            return mk("static", c["static"])
        if "z" in c:
            t = c.get("t")
            if t is not None:
                T = self.F.types[t]
                if T["k"] == "tuple":
                    return UNIT
                if T["k"] == "closure":
                    return agg("closure:" + T["d"], 0, ())
                return mk("zst", self.F.tname(t))
            return UNIT
        n = c.get("n")
        return mk("const", n or str(c.get("o")), self.F.tname(c["t"]) if "t" in c else "?")

    def operand(self, st, d, body, o):
        if o[0] in ("c", "m"):
            return self.read_place(st, d, body, o[1])
        if o[0] == "k":
            return self.const(o[1])
        return TOP

    # ------------------------------------------------------------ rvalues
    def binop(self, op, a, b, tid=None):
        if a.op == "noise" or b.op == "noise":
            return NOISE
        if op.endswith("WithOverflow"):
            base = op[:-len("WithOverflow")]
            r = self.binop(base, a, b)
            if a.op == "int" and b.op == "int":
                o = FALSE if base != "Sub" or a.a[0] >= b.a[0] else TRUE
            else:
                o = nv(mk("ovf", base, a, b), 2)
            return tup(r, o)
        if op == "Eq":
            return eq(a, b)
        if op == "Ne":
            return not_(eq(a, b))
        if op == "Lt":
            return lt(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Le":
            return not_(lt(b, a))
        if op == "Ge":
            return not_(lt(a, b))
        if op in ("BitAnd", "BitOr", "BitXor") and (self.is_bool(a) and self.is_bool(b)):
            if op == "BitAnd":
                return rebuild("and", (a, b))
            if op == "BitOr":
                return rebuild("or", (a, b))
            return not_(eq(a, b))
        if a.op == "int" and b.op == "int":
            x, y = a.a[0], b.a[0]
            f = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y,
                 "Div": lambda: x // y if y else None, "Rem": lambda: x % y if y else None,
                 "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                 "Shl": lambda: x << y, "Shr": lambda: x >> y}.get(op)
            if f:
                r = f()
                if r is not None:
                    return I(r)
        if op in ("Add", "AddUnchecked"):
            if b is I(0):
                return a
            if a is I(0):
                return b
            if a.op == "sum" or b.op == "sum" or True:
                return mksum(a, b)
        if op in ("Sub", "SubUnchecked") and b is I(0):
            return a
        if op == "Cmp":
            return nv(mk("cmp", a, b), 3)
        return mk("bin", op, a, b)

    def is_bool(self, t):
        return t.op in ("not", "eq", "lt", "isempty", "and", "or", "found") or (t.op == "int" and t.a[0] in (0, 1)) or NV.get(t) == 2

    def rvalue(self, st, d, body, rv):
        k = rv[0]
        if k == "use":
            return self.operand(st, d, body, rv[1])
        if k == "ref":
            mut, p = rv[1], rv[2]
            if mut:
                r = self.resolve_place(st, d, body, p)
                if r[0] == "val":
                    return r[1]
                # reference to a reborrowed pointer value
                return mk("ptr", r[1], r[2])
            return self.read_place(st, d, body, p)
        if k == "agg":
            kind = rv[1]
            ops = [self.operand(st, d, body, o) for o in rv[2]]
            if kind[0] == "array":
                return agg("array", 0, ops)
            if kind[0] == "tuple":
                return agg("tuple", 0, ops)
            if kind[0] == "adt":
                if kind[1] == "std::boxed::Box" and ops:
                    return ops[0]
                return agg(kind[1], kind[2], ops)
            if kind[0] in ("closure", "coroutine"):
                return agg(kind[0] + ":" + kind[2], 0, ops)
            return agg("ptr", 0, ops)
        if k == "discr":
            v = self.read_place(st, d, body, rv[1])
            if v.op == "ptr":
                v = self.load(st, v)
            if v.op in ("noise", "top"):
                return v
            r = discr(v)
            if r.op == "discr" and r not in NV:
                n = self.nvariants(self.place_ty(body, rv[1]))
                if n:
                    NV[r] = n
            return r
        if k == "bin":
            return self.binop(rv[1], self.operand(st, d, body, rv[2]), self.operand(st, d, body, rv[3]))
        if k == "un":
            v = self.operand(st, d, body, rv[2])
            if rv[1] == "Not":
                if v.op == "int" and v.a[0] not in (0, 1):
                    return mk("un", "Not", v)
                return not_(v)
            if rv[1] == "PtrMetadata":
                if v.op == "ptr":
                    v = self.load(st, v)
                return length(v)
            if rv[1] == "Neg" and v.op == "int":
                return I(-v.a[0])
            return mk("un", rv[1], v)
        if k == "cast":
            v = self.operand(st, d, body, rv[2])
            return v
        if k == "rep":
            v = self.operand(st, d, body, rv[1])
            return mk("rep", v)
        if k == "rawptr":
            r = self.resolve_place(st, d, body, rv[-1])
            return r[1] if r[0] == "val" else mk("ptr", r[1], r[2])
        if k == "tls":
            return mk("static", str(rv[1]))
        return TOP

    # ------------------------------------------------------------ running a body
    def prune(self, st, d, live):
        """drop dead locals of frame d (keeping what live pointers reach)"""
        keep = {}
        work = []
        for c, v in st.cells.items():
            if c[0] != d or c[1] in live:
                keep[c] = v
                if has_ptr(v):
                    work.append(v)
        while work:
            v = work.pop()
            for c in ptr_cells(v):
                if c not in keep and c in st.cells:
                    w = st.cells[c]
                    keep[c] = w
                    if has_ptr(w):
                        work.append(w)
        st.cells = keep

    def run(self, key, args, st):
        """analyse body `key` on argument terms; -> list of (state, returned term)"""
        body = self.body(key)
        self.depth += 1
        d = self.depth
        self.stack.append(key)
        # callee sees only what its arguments reach
        reach = {}
        work = [a for a in args if has_ptr(a)]
        while work:
            v = work.pop()
            for c in ptr_cells(v):
                if c not in reach and c in st.cells:
                    reach[c] = st.cells[c]
                    if has_ptr(st.cells[c]):
                        work.append(st.cells[c])
        for c, v in st.cells.items():
            if c[0] == "R" and c not in reach:
                reach[c] = v
        rest = {c: v for c, v in st.cells.items() if c not in reach}
        cells = dict(reach)
        for i, a in enumerate(args):
            cells[(d, i + 1)] = a
        s0 = St(cells, st.g, st.eff, st.act)
        rets = {}
        pend = {0: {s0.key(): s0}}
        done = {}
        visits = {}
        heap = [(0, 0)]
        inheap = {0}
        cov = self.covered.setdefault(key, set())
        while heap:
            _, b = heapq.heappop(heap)
            inheap.discard(b)
            states = pend.pop(b, {})
            dn = done.setdefault(b, {})
            for k, s in states.items():
                old = dn.get(k)
                if old is not None:
                    if g_covers(old, s.g):
                        continue
                    dn[k] = g_or(old, s.g)
                else:
                    dn[k] = s.g
                visits[b] = visits.get(b, 0) + 1
                if visits[b] > 4000:
                    self.notes.append(("visits", key, b))
                    continue
                cov.add(b)
                for (nb, ns) in self.step(body, d, b, s):
                    if nb is None:
                        # return
                        self.finish(d, ns, rets)
                        continue
                    self.prune(ns, d, body.live.get(nb, ()))
                    if body.rpo[nb] <= body.rpo[b]:
                        self.widen(body, d, nb, ns, visits)
                    kk = ns.key()
                    pb = pend.setdefault(nb, {})
                    o = pb.get(kk)
                    if o is not None:
                        o.g = g_or(o.g, ns.g)
                    else:
                        pb[kk] = ns
                        if len(pb) > self.maxstates:
                            self.collapse(pb, key, nb)
                    if nb not in inheap:
                        inheap.add(nb)
                        heapq.heappush(heap, (body.rpo[nb], nb))
        self.stack.pop()
        self.depth -= 1
        out = []
        for (k, ret), s in rets.items():
            cells = dict(rest)
            cells.update(s.cells)
            out.append((St(cells, s.g, s.eff, s.act), ret))
        return out

    def widen(self, body, d, nb, s, visits):
        """on a back edge: integer counters and growing terms are generalised so that loops converge"""
        for c, v in list(s.cells.items()):
            if c[0] == d:
                w = widen_term(v, (body.key, nb, c[1]))
                if w is not v:
                    s.cells[c] = w
                    if w.op == "piece":
                        # a fresh piece each time round: nothing is known of this one yet
                        s.g = g_drop(s.g, lambda t: contains(t, w))
                        for c2, v2 in list(s.cells.items()):
                            if c2 != c and c2[0] == d and isinstance(v2, T) and contains(v2, w):
                                s.cells[c2] = TOP

    def collapse(self, pb, key, nb):
        """too many states at a point: join the environments (differing values become unknown)"""
        self.notes.append(("collapse", key, nb))
        groups = {}
        for k, s in pb.items():
            groups.setdefault((s.eff, s.act), []).append(s)
        pb.clear()
        for (eff, act), ss in groups.items():
            cells = {}
            keys = set.intersection(*[set(s.cells) for s in ss])
            for c in keys:
                vs = {s.cells[c] for s in ss}
                cells[c] = vs.pop() if len(vs) == 1 else TOP
            g = GFALSE
            for s in ss:
                g = g | s.g
            n = St(cells, g_simplify(g), eff, act)
            pb[n.key()] = n

    def finish(self, d, s, rets):
        ret = s.cells.get((d, 0), UNIT)
        cells = {c: v for c, v in s.cells.items() if c[0] != d}
        # values pointing into the dying frame (summaries of by-value results)
        s2 = St(cells, s.g, s.eff, s.act)
        if has_ptr(ret) and any(c[0] == d for c in ptr_cells(ret)):
            ret = self.deep_frame(s, ret, d)
        k = (s2.key(), ret)
        o = rets.get(k)
        if o is not None:
            o.g = g_or(o.g, s2.g)
        else:
            rets[k] = s2

    def deep_frame(self, s, t, d):
        if isinstance(t, tuple):
            return tuple(self.deep_frame(s, x, d) for x in t)
        if not isinstance(t, T) or not has_ptr(t):
            return t
        if t.op == "ptr":
            if t.a[0][0] == d:
                return self.deep_frame(s, self.load(s, t), d)
            return t
        return rebuild(t.op, tuple(self.deep_frame(s, x, d) for x in t.a))

    def step(self, body, d, b, s0):
        st = s0.copy()
        bl = body.blocks[b]
        rp = body.rpo[b]
        self.sites.append((body.key, rp, bl["t"][-2] if bl["t"][0] == "call" else b, b))
        try:
            for i, x in enumerate(bl["s"]):
                if x[0] == "=":
                    line = x[3] if len(x) > 3 else 0
                    self.sites[-1] = (body.key, (rp, i), line, b)
                    v = self.rvalue(st, d, body, x[2])
                    self.write_place(st, d, body, x[1], v)
                elif x[0] == "sd":
                    v = self.read_place(st, d, body, x[1])
                    if v.op == "agg":
                        v = agg(v.a[0], x[2], v.a[2])
                    else:
                        v = mk("setdiscr", v, x[2])
                    self.write_place(st, d, body, x[1], v)
            t = bl["t"]
            line = self.term_line(t)
            self.sites[-1] = (body.key, (rp, 9999), line, b)
            return list(self.terminator(body, d, b, st, t))
        finally:
            self.sites.pop()

    @staticmethod
    def term_line(t):
        if t[0] == "call":
            return t[5]
        if t[0] == "switch":
            return t[5]
        if t[0] == "assert":
            return t[6]
        return 0

    def terminator(self, body, d, b, st, t):
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "drop":
            return [(t[2], st)]
        if k == "ret":
            if st.act:
                for c in st.act:
                    if c[0] == d:
                        kk = (body.key, c[1])
                        self.exits[kk] = g_or(self.exits.get(kk, GFALSE), st.g)
                st = St(st.cells, st.g, st.eff, frozenset(c for c in st.act if c[0] != d))
            return [(None, st)]
        if k in ("unreach", "unwind"):
            return []
        if k == "switch":
            v = self.operand(st, d, body, t[1])
            if v.op == "ptr":
                v = self.load(st, v)
            T = self.F.types[t[2]]
            if T["k"] == "bool" and v.op not in ("int",) and v not in NV:
                nv(v, 2)
            if v.op == "int":
                for val, nb in t[3]:
                    if val == v.a[0]:
                        return [(nb, st)]
                return [(t[4], st)]
            out = []
            g = st.g
            for val, nb in t[3]:
                h = g_assume(g, v, val)
                if h:
                    out.append((nb, St(dict(st.cells), h, st.eff, st.act)))
                g = g_assume(g, v, val, True)
                if not g:
                    break
            if g and body.blocks[t[4]] and body.blocks[t[4]]["t"][0] != "unreach":
                out.append((t[4], St(dict(st.cells), g, st.eff, st.act)))
            return out
        if k == "assert":
            v = self.operand(st, d, body, t[1])
            exp = 1 if t[2] else 0
            ops = tuple(self.operand(st, d, body, o) for o in t[4])
            bad = st.assume(v, 1 - exp) if v.op != "int" else (st if v.a[0] != exp else None)
            if bad is not None:
                if not self.models.discharge_assert(self, bad, t[3], v, ops):
                    self.panic(bad, "assert:" + t[3], (v,) + ops)
                else:
                    return [(t[5], st)]
            okst = st.assume(v, exp) if v.op != "int" else (st if v.a[0] == exp else None)
            return [(t[5], okst.copy())] if okst is not None else []
        if k == "yield":
            st.cells[(d, t[2][0])] = NOISE
            return [(t[3], st)]
        if k == "call":
            return self.do_call(body, d, b, st, t)
        if k == "tailcall":
            return []
        return []

    def do_call(self, body, d, b, st, t):
        fop, aops, dst, target, line, mac = t[1], t[2], t[3], t[4], t[5], t[6]
        args = [self.operand(st, d, body, o) for o in aops]
        if fop[0] == "k" and "f" in fop[1]:
            f = fop[1]["f"]
        else:
            fv = self.operand(st, d, body, fop)
            f = self.fns.get(fv)
            if f is None:
                f = {"p": "<indirect>", "a": [], "c": "?"}
                args = [fv] + args
        rty = self.place_ty(body, dst)
        res = self.call(st, f, args, mac=mac, rty=rty, diverges=target is None)
        out = []
        if target is None:
            return out
        for (s, r) in res:
            s = s.copy()
            self.write_place(s, d, body, dst, r)
            out.append((target, s))
        return out

    def call(self, st, f, args, mac=None, rty=None, diverges=False):
        """-> list of (state, result)"""
        if f.get("ctor"):
            adt, var = f["ctor"]
            return [(st, agg(adt, var, args))]
        p = norm_path(f["p"])
        if mac and mac.startswith("tracing"):
            r = self.models.tracing_call(self, st, f, p, args)
            if r is not None:
                return r
        if any(a.op == "noise" for a in args) and f.get("c") == "tracing":
            return [(st, NOISE)]
        h = self.hooks.get(p)
        if h:
            r = h(self, st, f, args)
            if r is not None:
                return r
        r = self.models.model(self, st, f, p, args, rty)
        if r is not None:
            return r
        if diverges:
            self.panic(st, "call:" + p, tuple(self.deep(st, a) for a in args))
            return []
        if self.opaque_fns and p in self.opaque_fns:
            r = mk("call", p, self.targs(f), tuple(self.deep(st, a) for a in args), None)
            if rty is not None:
                n = self.nvariants(rty)
                if n:
                    nv(discr(r), n)
                if self.F.types[rty]["k"] == "bool":
                    nv(r, 2)
            self.used_opaque.add(p)
            return [(st, r)]
        if self.no_inline and self.no_inline(f):
            self.emit(st, ("call", f.get("k") or f.get("r") or p, tuple(self.arg_snapshot(st, a) for a in args)))
            st = st.copy()
            for a in args:
                if a.op == "ptr" and self.is_root(a.a[0]):
                    if self.versions and all((isempty(mk("ver", "push")), "=", 0) in c for c in st.g):
                        continue    # the recorded callees only ever add (their own obligation)
                    self.new_version(st, a.a[0], a.a[1], "call")
            return [(st, mk("call", p, self.targs(f), tuple(self.arg_snapshot(st, a) for a in args), None))]
        key = f.get("k")
        if key and key in self.F.bodies:
            if key in self.stack:
                self.notes.append(("recursion", key, tuple(self.stack)))
                return self.opaque_call(st, f, p, args, rty)
            if self.collect and f.get("l"):
                return self.apply_summary(st, key, args)
            return self.run(key, args, st)
        return self.opaque_call(st, f, p, args, rty)

    def targs(self, f):
        return tuple(self.F.tname(x) for x in f.get("a", ()))

    def arg_snapshot(self, st, a):
        if a.op == "ptr" and self.is_root(a.a[0]):
            return mk("rootptr", a.a[0], a.a[1])
        return self.deep(st, a)

    def opaque_call(self, st, f, p, args, rty=None):
        self.opaque[p] = self.opaque.get(p, 0) + 1
        vals = tuple(self.deep(st, a) for a in args)
        # closures handed to code we do not model may run: analyse them once for their panics and effects
        st = st.copy()
        impure = self.models.impure(p)
        ret = mk("call", p, self.targs(f), vals, self.site() if impure else None)
        if f.get("tc"):
            self.panic(st, "call:" + p, vals)
        for i, a in enumerate(args):
            if a.op == "ptr":
                old = self.load(st, a)
                new = mk("after", p, i, vals)
                c = a.a[0]
                if self.is_root(c):
                    self.emit(st, ("mutcall", c, a.a[1], p, vals))
                    if self.collect:
                        self.new_version(st, c, a.a[1], "after " + p)
                        continue
                st.cells[c] = self.proj_update(self.read_cell(st, c), a.a[1], new)
        for a in vals:
            if a.op == "agg" and a.a[0].startswith("closure:"):
                self.run_unknown_closure(st, a)
        if rty is not None and self.F.types[rty]["k"] == "bool":
            nv(ret, 2)
        return [(st, ret)]

    def run_unknown_closure(self, st, cl):
        key = cl.a[0].split(":", 1)[1]
        if key not in self.F.bodies or key in self.stack:
            return
        b = self.body(key)
        args = [mk("sym", "?cl%d" % i) for i in range(b.argc - 1)]
        self.run(key, [cl] + args, st)

    # ------------------------------------------------------------ closures
    def apply(self, st, fv, args):
        """call a closure / fn value with untupled args"""
        if fv.op == "ptr":
            inner = self.load(st, fv)
            if inner.op in ("agg", "fn"):
                fv2 = inner
            else:
                fv2 = inner
        else:
            fv2 = fv
        if fv2.op == "adapt":
            # a predicate on the items of a text iterator, as one on characters
            cl, kind, neg = fv2.a
            x = agg("tuple", 0, [mk("sym", "?offset"), args[0]]) if kind == "char_indices" else args[0]
            r = self.apply(st, cl, [x])
            return [o for s, v in r for o in self.negated(s, v)] if neg else r
        if fv2.op == "fn":
            f = self.fns.get(fv2)
            if f is not None:
                return self.call(st, f, list(args))
        if fv2.op == "agg" and fv2.a[0].startswith(("closure:",)):
            key = fv2.a[0].split(":", 1)[1]
            if key in self.F.bodies:
                if key in self.stack:
                    self.notes.append(("recursion", key, tuple(self.stack)))
                    return [(st, TOP)]
                return self.run(key, [fv2] + list(args), st)
        if fv2.op == "zst":
            pass
        return [(st, mk("apply", self.deep(st, fv2), tuple(self.deep(st, a) for a in args)))]

    def negated(self, st, v):
        y, no = self.truth(st, v)
        return [(s, r) for s, r in ((y, FALSE), (no, TRUE)) if s is not None]

    def truth(self, st, v):
        """-> (state where v holds or None, state where it does not or None)"""
        if v.op == "ptr":
            v = self.load(st, v)
        if v.op == "int":
            return (st, None) if v.a[0] else (None, st)
        if v not in NV:
            nv(v, 2)
        return st.assume(v, 1), st.assume(v, 0)

    def variants(self, st, v, n=2):
        """split on the discriminant of v -> list of (variant, state)"""
        if v.op == "ptr":
            v = self.load(st, v)
        dt = discr(v)
        if dt.op == "int":
            return [(dt.a[0], st)]
        nv(dt, n)
        out = []
        for i in range(n):
            s = st.assume(dt, i)
            if s is not None:
                out.append((i, s))
        return out

    # ------------------------------------------------------------ summaries (collect mode)
    def summary(self, key):
        s = self.summaries.get(key)
        if s is not None:
            return s
        body = self.body(key)
        sub = Engine(self.F, collect=True)
        sub.bodies = self.bodies
        sub.summaries = self.summaries
        sub.hooks = self.hooks
        sub.no_inline = self.no_inline
        sub.opaque_fns = self.opaque_fns
        sub.used_opaque = self.used_opaque
        sub.fns = self.fns
        sub.versions, sub.stale = self.versions, self.stale
        sub.covered = self.covered
        sub.notes = self.notes
        sub.opaque = self.opaque
        sub.stack = list(self.stack) + []
        args = []
        cells = {}
        for i in range(body.argc):
            T = self.F.types[body.locals[i + 1]]
            sy = mk("arg", i)
            if T["k"] == "ref" and T["m"]:
                c = ("R", i)
                cells[c] = sy
                args.append(mk("ptr", c, ()))
            else:
                args.append(sy)
        res = sub.run(key, args, St(cells, GTRUE))
        s = Summary()
        s.rets = [(st.g, sub.deep(st, r), {c: st.cells[c] for c in cells if st.cells.get(c) is not cells[c]}) for st, r in res]
        s.events = [(ev[0], e[0], e[1], e[2]) for ev, e in sub.events.items()]
        s.panics = dict(sub.panics)
        s.exits = dict(sub.exits)
        self.summaries[key] = s
        return s

    def apply_summary(self, st, key, args):
        sm = self.summary(key)
        m = {}
        roots = {}
        ok_ = True
        for i, a in enumerate(args):
            if a.op == "ptr":
                if self.is_root(a.a[0]):
                    roots[("R", i)] = a
                    m[mk("arg", i)] = self.load(st, a)
                else:
                    ok_ = False
            elif has_ptr(a):
                ok_ = False
            else:
                m[mk("arg", i)] = a
        if not ok_:
            return self.run(key, args, st)
        memo = {}
        st = st.copy()
        gin = st.g

        def mapev(x):
            if isinstance(x, T):
                if x.op == "rootptr":
                    a = roots.get(x.a[0])
                    return mk("rootptr", a.a[0], a.a[1] + x.a[1]) if a is not None else subst_nv(m[mk("arg", x.a[0][1])], {}, {})
                if has_op_rootptr(x):
                    return rebuild(x.op, tuple(mapev(y) for y in x.a))
                return subst_nv(x, m, memo)
            if isinstance(x, tuple):
                return tuple(mapev(y) for y in x)
            return x

        for ev, g, order, site in sm.events:
            h = g_subst(g, m, memo)
            if not h:
                continue
            h = g_meet(gin, h)
            if not h:
                continue
            if ev[0] in ("write", "mutcall", "push"):
                a = roots.get(ev[1])
                if a is None:
                    continue
                ne = (ev[0], a.a[0], a.a[1] + mapev(ev[2])) + tuple(mapev(x) for x in ev[3:])
            else:
                ne = tuple(mapev(x) for x in ev)
            ns = self.site() + site
            e = self.events.get((ne, ns))
            if e is None:
                self.events[(ne, ns)] = [h, self.order_key() + order, ns]
            else:
                e[0] = g_or(e[0], h)
        for k, e in sm.panics.items():
            h = g_meet(gin, g_subst(e[0], m, memo))
            if h:
                nk = k[:3] + (mapev(k[3]),)
                o = self.panics.get(nk)
                if o is None:
                    self.panics[nk] = [h, ()]
                else:
                    o[0] = g_or(o[0], h)
        for k, g in sm.exits.items():
            h = g_meet(gin, g_subst(g, m, memo))
            if h:
                nk = (k[0], subst_nv(k[1], m, memo))
                self.exits[nk] = g_or(self.exits.get(nk, GFALSE), h)
        out = {}
        if not self.versions:
            wrote = {roots[ev[1]].a[0] for ev, _, _, _ in sm.events if ev[0] in ("write", "mutcall", "push") and ev[1] in roots}
            for c in wrote:
                self.new_version(st, c, (), "")
            rootsyms = [st.cells[c] for c in wrote]
        for g, r, rc in sm.rets:
            if not self.versions:
                h = g_subst(g, m, memo)
                if h and wrote:
                    h = (g_stale if self.stale else g_drop)(h, lambda t: any(contains(t, s) for s in rootsyms))
                h = g_meet(st.g, h) if h else h
                if h:
                    rr = subst_nv(r, m, memo)
                    n = St(dict(st.cells), h, st.eff, st.act)
                    o = out.get((n.key(), rr))
                    if o is not None:
                        o.g = g_or(o.g, h)
                    else:
                        out[(n.key(), rr)] = n
                continue
            fresh = {x for v in rc.values() for x in subterms(v) if x.op == "ver"}
            h = GFALSE
            top = len(self.stack) == 1
            for c in g:
                pre = frozenset(l for l in c if not has_op(l[0], "ver"))
                post = frozenset(l for l in c if has_op(l[0], "ver"))
                x = g_meet(st.g, g_subst(frozenset([pre]), m, memo))
                if x and top and mk("ver", "push") in fresh:
                    x = GTRUE
                elif x and top and not fresh:
                    # nothing was reported: remember only what is known about the roots
                    keep = frozenset(l for l in pre if any(contains(l[0], mk("arg", i[1])) for i in roots))
                    x = g_meet(st.g, g_subst(frozenset([keep]), m, memo))
                elif x and fresh:
                    x = g_drop(x, lambda t: any(contains(t, f) for f in fresh))
                if x and post:
                    x = g_meet(x, g_subst(frozenset([post]), m, memo))
                h = h | x
            h = g_simplify(h)
            if not h:
                continue
            rr = subst_nv(r, m, memo)
            cells = dict(st.cells)
            for c, v in rc.items():
                a = roots.get(c)
                if a is not None:
                    cells[a.a[0]] = self.proj_update(self.read_cell(st, a.a[0]), a.a[1], subst_nv(v, m, memo))
            n = St(cells, h, st.eff, st.act)
            k = (n.key(), rr)
            o = out.get(k)
            if o is not None:
                o.g = g_or(o.g, h)
            else:
                out[k] = n
        return [(n, k[1]) for k, n in out.items()]


_hp = {}


def has_ptr(t):
    r = _hp.get(t)
    if r is None:
        r = False
        if t.op == "ptr":
            r = True
        else:
            st = list(t.a)
            while st and not r:
                y = st.pop()
                if isinstance(y, tuple):
                    st.extend(y)
                elif isinstance(y, T) and has_ptr(y):
                    r = True
        _hp[t] = r
    return r


_hr = {}


def has_op_rootptr(t):
    r = _hr.get(t)
    if r is None:
        r = has_op(t, "rootptr")
        _hr[t] = r
    return r


def ptr_cells(t):
    out = []
    st = [t]
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
        elif isinstance(y, T):
            if y.op == "ptr":
                out.append(y.a[0])
                st.extend(y.a[1])
            elif has_ptr(y):
                st.extend(y.a)
    return out


def mksum(a, b):
    """canonical sum: constant last, operands sorted"""
    parts = []
    c = 0
    for x in (a, b):
        if x.op == "sum":
            parts += list(x.a[0])
            c += x.a[1]
        elif x.op == "int":
            c += x.a[0]
        else:
            parts.append(x)
    if not parts:
        return I(c)
    parts.sort(key=repr)
    if len(parts) == 1 and c == 0:
        return parts[0]
    return mk("sum", tuple(parts), c)


def widen_term(v, tag):
    if v.op == "sum" and len(v.a[0]) == 1 and v.a[0][0].op == "ctr" and v.a[0][0].a[1] == tag:
        return v.a[0][0]
    if v.op == "vpush" and depth_of(v, "vpush") > 3:
        return mk("grown", v.a[0].op)
    if v.op == "substr":
        n = cuts(v)
        if n > 3:
            b = v.a[0]
            while b.op in ("substr", "trim"):
                b = b.a[0]
            return mk("piece", b, str(tag))
        if v.a[0].op == "piece":
            return v.a[0]
    if v.op == "piece":
        return v
    if v.op == "concat" and len(v.a) > 60:
        return mk("grown", "concat")
    return v


def cuts(v):
    """how many searches determine where a piece of text starts"""
    n = 0
    while v.op in ("substr", "trim"):
        if v.op == "substr":
            a = v.a[1]
            n += len([x for x in (a.a[0] if a.op == "sum" else (a,)) if x.op in ("pos", "rpos")])
        v = v.a[0]
    return n


def depth_of(v, op):
    n = 0
    while v.op == op:
        n += 1
        v = v.a[0]
    return n
