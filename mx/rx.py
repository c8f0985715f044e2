"""Regular expressions as the `regex` crate reads them: validity, language emptiness, lengths, equivalence, matching.

Decides questions about the *language* of a pattern, so that two spellings of one pattern are one pattern."""
import sys, unicodedata
from functools import lru_cache

MAXCP = 0x10FFFF
META = set("\\.+*?()|[]{}^$#&-~")


class Invalid(Exception):
    """not a regular expression of the regex crate"""


class Unknown(Exception):
    """a construct this reader does not decide"""


# ---------------------------------------------------------------- character sets: sorted disjoint ranges
def norm(rs):
    rs = sorted(rs)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def neg(rs):
    out, p = [], 0
    for a, b in norm(rs):
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAXCP:
        out.append((p, MAXCP))
    # surrogates are not characters
    return minus(tuple(out), ((0xD800, 0xDFFF),))


def minus(a, b):
    out = []
    for lo, hi in a:
        cur = lo
        for x, y in b:
            if y < cur or x > hi:
                continue
            if x > cur:
                out.append((cur, x - 1))
            cur = max(cur, y + 1)
        if cur <= hi:
            out.append((cur, hi))
    return tuple(out)


def inter(a, b):
    out = []
    for x, y in a:
        for u, v in b:
            lo, hi = max(x, u), min(y, v)
            if lo <= hi:
                out.append((lo, hi))
    return norm(out)


@lru_cache(None)
def uni(kind):
    rs = []
    for c in range(0x110000):
        if 0xD800 <= c <= 0xDFFF:
            continue
        ch = chr(c)
        if kind == "d":
            ok = unicodedata.category(ch) == "Nd"
        elif kind == "s":
            ok = ch in "\t\n\x0b\x0c\r \x85\u00a0\u1680\u2028\u2029\u202f\u205f\u3000" or 0x2000 <= c <= 0x200A
        else:
            k = unicodedata.category(ch)
            ok = k[0] in "LM" or k in ("Nd", "Pc", "Nl") or c in (0x200C, 0x200D)
        if ok:
            rs.append((c, c))
    return norm(rs)


ANY_NL = minus(((0, MAXCP),), ((0xD800, 0xDFFF),))
DOT = minus(ANY_NL, ((10, 10),))


@lru_cache(None)
def category(name):
    """\\p{name} for the general categories"""
    if not (name in ("L", "M", "N", "P", "S", "Z", "C") or len(name) == 2 and name[0] in "LMNPSZC" and name[1].islower()):
        raise Unknown("\\p{%s}" % name)
    return norm([(c, c) for c in range(MAXCP + 1) if not 0xD800 <= c <= 0xDFFF and unicodedata.category(chr(c)).startswith(name)])


def fold(rs):
    out = list(rs)
    for a, b in rs:
        if b - a > 5000:
            continue
        for c in range(a, b + 1):
            for x in (chr(c).lower(), chr(c).upper()):
                if len(x) == 1:
                    out.append((ord(x), ord(x)))
    return norm(out)


# ---------------------------------------------------------------- parser -> AST
# ("set", ranges) ("cat", [..]) ("alt", [..]) ("rep", x, lo, hi|None) ("bol",) ("eol",)
class P:
    def __init__(self, s):
        self.s, self.i, self.n = s, 0, len(s)
        self.icase = self.dotall = self.multi = self.ext = False

    def peek(self):
        return self.s[self.i] if self.i < self.n else None

    def parse(self):
        r = self.alt()
        if self.i < self.n:
            raise Invalid("unopened group")
        return r

    def alt(self):
        save = (self.icase, self.dotall, self.multi)
        alts = [self.cat()]
        while self.peek() == "|":
            self.i += 1
            alts.append(self.cat())
        self.icase, self.dotall, self.multi = save
        return alts[0] if len(alts) == 1 else ("alt", alts)

    def cat(self):
        out = []
        while True:
            c = self.peek()
            if c is None or c in "|)":
                break
            if c in "*+?":
                if not out or out[-1] is None:
                    raise Invalid("repetition operator missing expression")
                self.i += 1
                lo, hi = {"*": (0, None), "+": (1, None), "?": (0, 1)}[c]
                if self.peek() == "?":
                    self.i += 1
                out[-1] = ("rep", out[-1], lo, hi)
                continue
            if c == "{":
                if not out or out[-1] is None:
                    raise Invalid("repetition operator missing expression")
                lo, hi = self.counted()
                if self.peek() == "?":
                    self.i += 1
                out[-1] = ("rep", out[-1], lo, hi)
                continue
            out.append(self.atom())
        out = [x for x in out if x is not None]
        return out[0] if len(out) == 1 else ("cat", out)

    def counted(self):
        j = self.s.find("}", self.i)
        if j < 0:
            raise Invalid("unclosed counted repetition")
        body = self.s[self.i + 1:j].replace(" ", "")
        self.i = j + 1
        parts = body.split(",")
        if len(parts) > 2 or (not parts[0] and (len(parts) == 1 or not parts[1])) or not all(x == "" or (x.isdigit() and x.isascii()) for x in parts):
            raise Invalid("bad counted repetition {%s}" % body)
        lo = int(parts[0]) if parts[0] else 0
        hi = lo if len(parts) == 1 else (int(parts[1]) if parts[1] else None)
        if hi is not None and hi < lo:
            raise Invalid("invalid repetition range {%s}" % body)
        if max(lo, hi or 0) > 0xFFFFFFFF:
            raise Invalid("repetition bound")
        return lo, hi

    def atom(self):
        c = self.s[self.i]
        if c == "(":
            self.i += 1
            if self.s.startswith("?", self.i):
                m = self.s[self.i:]
                if m.startswith(("?=", "?!", "?<=", "?<!")):
                    raise Invalid("look-around is not supported")
                if m.startswith(("?P<", "?<")):
                    j = self.s.find(">", self.i)
                    if j < 0:
                        raise Invalid("unclosed group name")
                    self.i = j + 1
                    save = None
                else:
                    j = self.i + 1
                    on = True
                    fl = (self.icase, self.dotall, self.multi)
                    while j < self.n and self.s[j] not in ":)":
                        f = self.s[j]
                        if f == "-":
                            on = False
                        elif f == "i":
                            self.icase = on
                        elif f == "s":
                            self.dotall = on
                        elif f == "m":
                            self.multi = on
                        elif f == "U":
                            pass
                        else:
                            raise Unknown("flag " + f)
                        j += 1
                    if j >= self.n:
                        raise Invalid("unclosed group")
                    self.i = j + 1
                    if self.s[j] == ")":
                        return None     # flags for the rest of the enclosing group
                    r = self.alt()
                    self.icase, self.dotall, self.multi = fl
                    if self.peek() != ")":
                        raise Invalid("unclosed group")
                    self.i += 1
                    return r
            r = self.alt()
            if self.peek() != ")":
                raise Invalid("unclosed group")
            self.i += 1
            return r
        if c == "[":
            return ("set", self.cls())
        if c == ".":
            self.i += 1
            return ("set", ANY_NL if self.dotall else DOT)
        if c == "^":
            self.i += 1
            return ("mbol",) if self.multi else ("bol",)
        if c == "$":
            self.i += 1
            return ("meol",) if self.multi else ("eol",)
        if c == "\\":
            r = self.esc(False)
            if isinstance(r, tuple) and r and r[0] in ("bol", "eol"):
                return r
            return ("set", self.f(r))
        self.i += 1
        return ("set", self.f(((ord(c), ord(c)),)))

    def f(self, rs):
        return fold(rs) if self.icase else norm(rs)

    def esc(self, incls):
        self.i += 1
        if self.i >= self.n:
            raise Invalid("incomplete escape")
        c = self.s[self.i]
        self.i += 1
        if c in "dDsSwW":
            r = uni(c.lower())
            return neg(r) if c.isupper() else r
        if c in "pP":
            m = self.s[self.i:]
            neg_ = c == "P"
            if m.startswith("{"):
                j = m.find("}")
                if j < 0:
                    raise Invalid("unclosed \\p{")
                name, self.i = m[1:j], self.i + j + 1
                if name.startswith("^"):
                    name, neg_ = name[1:], not neg_
            else:
                name, self.i = m[:1], self.i + 1
            r = category(name)
            return neg(r) if neg_ else r
        if c in "bB":
            if incls:
                raise Invalid("\\b in class")
            raise Unknown("\\b")
        if c == "A" and not incls:
            return ("bol",)
        if c == "z" and not incls:
            return ("eol",)
        if c in "xuU":
            m = self.s[self.i:]
            if m.startswith("{"):
                j = m.find("}")
                if j < 0:
                    raise Invalid("unclosed hex escape")
                h, self.i = m[1:j], self.i + j + 1
            else:
                k = {"x": 2, "u": 4, "U": 8}[c]
                h, self.i = m[:k], self.i + k
                if len(h) < k:
                    raise Invalid("hex escape")
            try:
                v = int(h, 16)
            except ValueError:
                raise Invalid("hex escape")
            if v > MAXCP or 0xD800 <= v <= 0xDFFF:
                raise Invalid("hex escape")
            return ((v, v),)
        m = {"n": 10, "r": 13, "t": 9, "f": 12, "v": 11, "a": 7}.get(c)
        if m is not None:
            return ((m, m),)
        if ord(c) < 128 and not c.isalnum() and c not in "<>":
            return ((ord(c), ord(c)),)
        raise Invalid("unrecognized escape \\" + c)

    def cls(self):
        """[...]; at '['"""
        self.i += 1
        negate = False
        if self.peek() == "^":
            negate = True
            self.i += 1
        acc = []
        first = True
        while True:
            c = self.peek()
            if c is None:
                raise Invalid("unclosed character class")
            if c == "]" and not first:
                self.i += 1
                break
            if c == "[":
                if self.s.startswith("[:", self.i):
                    j = self.s.find(":]", self.i)
                    name = self.s[self.i + 2:j] if j > 0 else None
                    t = {"alpha": ((65, 90), (97, 122)), "digit": ((48, 57),), "alnum": ((48, 57), (65, 90), (97, 122)),
                         "upper": ((65, 90),), "lower": ((97, 122),), "space": ((9, 13), (32, 32)), "xdigit": ((48, 57), (65, 70), (97, 102)),
                         "punct": ((33, 47), (58, 64), (91, 96), (123, 126)), "word": ((48, 57), (65, 90), (95, 95), (97, 122))}.get(name)
                    if t:
                        acc += t
                        self.i = j + 2
                        first = False
                        continue
                acc += self.cls()
                first = False
                continue
            if self.s.startswith(("&&", "--", "~~"), self.i):
                if self.s.startswith("--", self.i) and first:
                    pass
                else:
                    raise Unknown("class set operation")
            lo = self.item()
            first = False
            if self.peek() == "-" and self.i + 1 < self.n and self.s[self.i + 1] not in "]-":
                if len(lo) == 1 and lo[0][0] == lo[0][1]:
                    self.i += 1
                    if self.peek() == "[":
                        raise Invalid("bad class range")
                    hi = self.item()
                    if not (len(hi) == 1 and hi[0][0] == hi[0][1]):
                        raise Invalid("class range literal")
                    if hi[0][0] < lo[0][0]:
                        raise Invalid("invalid class range")
                    acc.append((lo[0][0], hi[0][0]))
                    continue
            acc += lo
        r = self.f(acc)
        return neg(r) if negate else r

    def item(self):
        c = self.s[self.i]
        if c == "\\":
            return self.esc(True)
        self.i += 1
        return ((ord(c), ord(c)),)


@lru_cache(None)
def parse(p):
    return P(p).parse()


def size(x):
    k = x[0]
    if k == "set":
        return 1 + len(x[1])
    if k in ("cat", "alt"):
        return 1 + sum(size(y) for y in x[1])
    if k == "rep":
        return 1 + size(x[1]) * max(1, x[3] if x[3] is not None else x[2] + 1)
    return 1


@lru_cache(None)
def validity(p):
    """-> (True, '') | (False, why) | (None, why undecided)"""
    try:
        t = parse(p)
    except Invalid as e:
        return False, str(e)
    except Unknown as e:
        return None, str(e)
    if size(t) > 60000:
        return None, "size limit"
    return True, ""


# ---------------------------------------------------------------- automaton of the *full-match* language
class NFA:
    def __init__(self):
        self.eps, self.tr = [], []

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def build(self, x, a, b):
        k = x[0]
        if k == "set":
            self.tr[a].append((x[1], b))
        elif k == "cat":
            cur = a
            for y in x[1][:-1]:
                n = self.new()
                self.build(y, cur, n)
                cur = n
            if x[1]:
                self.build(x[1][-1], cur, b)
            else:
                self.eps[cur].append(b)
        elif k == "alt":
            for y in x[1]:
                self.build(y, a, b)
        elif k == "rep":
            _, y, lo, hi = x
            cur = a
            for _ in range(lo):
                n = self.new()
                self.build(y, cur, n)
                cur = n
            if hi is None:
                l, m = self.new(), self.new()
                self.eps[cur].append(l)
                self.build(y, l, m)
                self.eps[m].append(l)
                self.eps[l].append(b)
            else:
                for _ in range(hi - lo):
                    n = self.new()
                    self.eps[cur].append(b)
                    m = self.new()
                    self.eps[cur].append(m)
                    self.build(y, m, n)
                    cur = n
                self.eps[cur].append(b)
        else:
            raise Unknown("anchor inside a pattern")


ANCHORS = ("bol", "eol", "mbol", "meol")


def has_anchor(t):
    if t[0] in ANCHORS:
        return True
    if t[0] in ("cat", "alt"):
        return any(has_anchor(y) for y in t[1])
    if t[0] == "rep":
        return has_anchor(t[1])
    return False


def branches(t, limit=200):
    """-> sequences of parts without anchors except at their ends, whose union is t"""
    work, out = [[t]], []
    while work:
        xs = work.pop()
        flat = []
        for x in xs:
            flat.extend(x[1] if x[0] == "cat" else [x])
        if any(x[0] == "cat" for x in flat):
            work.append(flat)
            continue
        for i, x in enumerate(flat):
            if x[0] == "alt" and has_anchor(x):
                work.extend(flat[:i] + [y] + flat[i + 1:] for y in reversed(x[1]))
                break
            if x[0] == "rep" and has_anchor(x):
                raise Unknown("repeated anchor")
        else:
            out.append(flat)
        if len(out) + len(work) > limit:
            raise Unknown("too many alternatives with anchors")
    return out


def unanchored(t):
    """-> [(parts, anchors at the start, anchors at the end)]"""
    out = []
    for xs in branches(t):
        b, e = set(), set()
        while xs and xs[0][0] in ("bol", "mbol"):
            b.add(xs[0][0])
            xs = xs[1:]
        while xs and xs[-1][0] in ("eol", "meol"):
            e.add(xs[-1][0])
            xs = xs[:-1]
        if any(x[0] in ANCHORS for x in xs):
            raise Unknown("anchor inside a pattern")
        out.append((xs, b, e))
    return out


def union(alts):
    alts = [xs[0] if len(xs) == 1 else ("cat", xs) for xs in alts]
    return alts[0] if len(alts) == 1 else ("alt", alts)


@lru_cache(None)
def search_core(p):
    """pattern handed to is_match -> (AST of the full-match language)"""
    any_ = ("rep", ("set", ANY_NL), 0, None)
    nl = ("set", ((10, 10),))
    out = []
    for xs, b, e in unanchored(parse(p)):
        pre = [] if "bol" in b else [("rep", ("cat", [any_, nl]), 0, 1)] if b else [any_]
        post = [] if "eol" in e else [("rep", ("cat", [nl, any_]), 0, 1)] if e else [any_]
        out.append(pre + xs + post)
    return union(out)


class Auto:
    def __init__(self, ast):
        self.n = NFA()
        s, f = self.n.new(), self.n.new()
        self.n.build(ast, s, f)
        self.start, self.final = s, f
        self._cl = {}

    def closure(self, ss):
        ss = frozenset(ss)
        r = self._cl.get(ss)
        if r is None:
            seen, work = set(ss), list(ss)
            while work:
                x = work.pop()
                for y in self.n.eps[x]:
                    if y not in seen:
                        seen.add(y)
                        work.append(y)
            r = frozenset(x for x in seen if self.n.tr[x] or x == self.final)
            self._cl[ss] = r
        return r

    def init(self):
        return self.closure([self.start])

    def step(self, S, c):
        out = set()
        for x in S:
            for rs, y in self.n.tr[x]:
                for a, b in rs:
                    if a <= c <= b:
                        out.add(y)
                        break
        return self.closure(out)

    def acc(self, S):
        return self.final in S

    def sets(self):
        return {rs for t in self.n.tr for rs, _ in t}


def reps(autos, extra=()):
    """one representative character per class that no transition of any automaton (nor an extra set) distinguishes"""
    cuts = {0, 0xE000}
    allsets = sorted({rs for a in autos for rs in a.sets()} | set(extra))
    for rs in allsets:
        for lo, hi in rs:
            cuts.add(lo)
            cuts.add(hi + 1)
    out, seen = [], set()
    for c in sorted(cuts):
        if c > MAXCP or 0xD800 <= c <= 0xDFFF:
            continue
        sig = tuple(any(a <= c <= b for a, b in rs) for rs in allsets)
        if sig not in seen:
            seen.add(sig)
            out.append(c)
    return out


def trimmed_texts():
    """the texts without surrounding white space"""
    n = ("set", minus(ANY_NL, uni("s")))
    return ("rep", ("cat", [n, ("rep", ("cat", [("rep", ("set", ANY_NL), 0, None), n]), 0, 1)]), 0, 1)


def same(ast1, ast2, limit=60000, trimmed=False):
    """language equality (trimmed: for texts without surrounding white space) by product construction
    -> (True, None) | (False, witness) | (None, why)"""
    A, B, C = Auto(ast1), Auto(ast2), Auto(trimmed_texts() if trimmed else ("rep", ("set", ANY_NL), 0, None))
    al = reps([A, B, C])
    s = (A.init(), B.init(), C.init())
    seen = {s}
    work = [(s, "")]
    while work:
        (x, y, z), w = work.pop(0)
        if A.acc(x) != B.acc(y) and C.acc(z):
            return False, w
        for c in al:
            n = (A.step(x, c), B.step(y, c), C.step(z, c))
            if n[2] and n not in seen:
                if len(seen) > limit:
                    return None, "too many states"
                seen.add(n)
                work.append((n, w + chr(c)))
    return True, None


def included(ast1, ast2, limit=20000):
    A, B = Auto(ast1), Auto(ast2)
    al = reps([A, B])
    s = (A.init(), B.init())
    seen = {s}
    work = [(s, "")]
    while work:
        (x, y), w = work.pop(0)
        if A.acc(x) and not B.acc(y):
            return False, w
        for c in al:
            nx = A.step(x, c)
            if not nx:
                continue
            n = (nx, B.step(y, c))
            if n not in seen:
                if len(seen) > limit:
                    return None, "too many states"
                seen.add(n)
                work.append((n, w + chr(c)))
    return True, None


def witness(asts, lo, hi, trimmed=True, limit=400000):
    """a text in every language with lo <= length <= hi, without surrounding white space;  None if there is none"""
    AS = [Auto(a) for a in asts]
    al = reps(AS, (uni("s"), ((33, 126),)))
    # printable, non-space representatives first
    al = sorted(al, key=lambda c: (chr(c).isspace(), not 33 <= c <= 126, c))
    hi = hi if hi is not None else 5000
    cur = {tuple(a.init() for a in AS): ""}
    n = 0
    visited = set()
    while cur:
        if n >= (lo or 0):
            for S, w in cur.items():
                if all(a.acc(x) for a, x in zip(AS, S)):
                    if not trimmed or w == w.strip():
                        return w
        if n >= hi:
            return None
        key = frozenset(cur)
        if n >= (lo or 0):
            if key in visited:
                return None
            visited.add(key)
        nxt = {}
        for S, w in cur.items():
            for c in al:
                if trimmed and not w and chr(c).isspace():
                    continue
                T = tuple(a.step(x, c) for a, x in zip(AS, S))
                if all(T) and (T not in nxt or (trimmed and nxt[T].endswith((" ", "\n")))):
                    nxt[T] = w + chr(c)
        cur = nxt
        n += 1
        if len(visited) > limit:
            return None
    return None


@lru_cache(None)
def full(p):
    """AST of the texts that pattern p describes from first to last character (p without search semantics)"""
    return union([xs for xs, _, _ in unanchored(parse(p))])
