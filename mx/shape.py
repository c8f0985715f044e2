"""Texts of known shape: a concatenation of constants and atoms (unknown texts with known exclusions).

Searching, slicing and trimming such a text is decided from the shape alone, for every content of the atoms, or left
as an uninterpreted operation when it is not decided by the shape."""
from term import *

SPEC = {}     # atom term -> Atom
EXCLUDED = []  # characters that no atom contains, for the time being
WS = " \t\r\n"


class Atom:
    """what is known of every text the atom stands for"""
    nonempty = True
    ws = False          # consists of whitespace only
    solid = False       # neither starts nor ends with whitespace

    def contain(self, p):
        return True

    def start(self, p):
        """may a text start with p (or be a proper prefix of nothing: p lies wholly inside)"""
        return self.contain(p)

    def end(self, p):
        return self.contain(p)


class Lacks(Atom):
    """any text without certain characters"""

    def __init__(self, chars, nonempty=True, ws=False, solid=False, avoid=()):
        self.chars = chars
        self.avoid = avoid     # words the text does not contain
        self.nonempty = nonempty
        self.ws = ws
        self.solid = solid

    def contain(self, p):
        if any(c in EXCLUDED for c in p):
            return False
        if self.ws and any(c not in WS for c in p):
            return False
        return not any(c in self.chars for c in p) and not any(w in p for w in self.avoid)


class Content(Atom):
    """the serialized children of an element: '<' only starts tags whose names are known, text in it is escaped"""
    solid = True

    def __init__(self, names, nonempty=True):
        self.names = names
        self.nonempty = nonempty

    def contain(self, p):
        if any(c in EXCLUDED for c in p):
            return False
        if "<" not in p:
            return True
        i = p.index("<")
        if i:
            return (">" not in p[:i] or True) and self.contain(p[i:])
        n = p[1:]
        if n.startswith("/"):
            n = n[1:]
        for k, ch in enumerate(n):
            if ch in " >/":
                return n[:k] in self.names
        return any(x.startswith(n) for x in self.names)

    def start(self, p):
        return p.startswith("<") and self.contain(p)

    def end(self, p):
        return p.endswith(">") and self.contain(p)


ESCAPED = Lacks("<>&'\"", nonempty=False)
PARTIAL = Lacks("<>&", nonempty=False)


def spec(t):
    r = SPEC.get(t)
    if r is None and t.op == "call" and len(t.a[2]) == 1:
        if t.a[0] == "quick_xml::escape::escape":
            return ESCAPED
        if t.a[0] == "quick_xml::escape::partial_escape":
            return PARTIAL
        if t.a[0] == "quick_xml::escape::minimal_escape":
            return Lacks("<&", nonempty=False)
    return r


def atom(name, sp):
    t = mk("atom", name)
    SPEC[t] = sp
    return t


_items = {}


def items(t):
    """-> (items, offsets) or None when t is not a shaped text"""
    r = _items.get(t)
    if r is not None:
        return r or None
    ps = t.a if t.op == "concat" else (t,)
    its, offs = [], []
    import engine as E
    off = I(0)
    ok_ = True
    for p in ps:
        if p.op == "str":
            for ch in p.a[0]:
                its.append(ch)
                offs.append(off)
                off = E.mksum(off, I(len(ch.encode())))
        elif spec(p) is not None:
            its.append(p)
            offs.append(off)
            off = E.mksum(off, mk("len", p))
        else:
            ok_ = False
            break
    offs.append(off)
    r = (its, offs) if ok_ else ()
    _items[t] = r
    return r or None


def textual(t):
    return t.op == "str" or shaped(t)


def shaped(t):
    return t.op in ("concat", "atom", "call") and items(t) is not None


def filled(t):
    """is the text non-empty whatever its atoms stand for?"""
    return any(spec(p) is not None and spec(p).nonempty for p in (t.a if t.op == "concat" else (t,)))


FILLED.append(filled)


def text(its):
    return concat(*[S(x) if isinstance(x, str) else x for x in its]) if its else S("")


def here(its, i, p):
    """does p occur at item i?  True / False / None (depends on the content)"""
    if not p:
        return True
    if i >= len(its):
        return False
    x = its[i]
    if isinstance(x, str):
        return here(its, i + 1, p[1:]) if x == p[0] else False
    sp = spec(x)
    if not sp.nonempty and here(its, i + 1, p) is not False:
        return None
    if sp.start(p):
        return None
    for k in range(1, len(p)):
        if sp.start(p[:k]) and sp.end(p[:k]) and here(its, i + 1, p[k:]) is not False:
            return None
    return False


def begins_in(its, i, p):
    """may an occurrence of p begin inside atom i?"""
    sp = spec(its[i])
    if sp.contain(p):
        return True
    for k in range(1, len(p)):
        if sp.end(p[:k]) and here(its, i + 1, p[k:]) is not False:
            return True
    return False


def chartest(eng, st, p):
    """the predicate of a character pattern: text char -> True/False/None"""
    if p.op == "charset":
        return lambda ch: ch in p.a[0]

    def test(ch):
        try:
            rs = eng.apply(st, p, (I(ord(ch)),))
        except Exception:
            return None
        vs = {r for _, r in rs}
        if len(vs) == 1:
            v = vs.pop()
            if v.op == "int":
                return bool(v.a[0])
        return None
    return test


UWS = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"
NAMELACKS = UWS + "<>/&\"'=!?"
CLASSES = {"is_whitespace": UWS, "is_ascii_whitespace": " \t\r\n\x0c"}


def never(eng, st, p, test, sp):
    """no character of the atom satisfies the predicate"""
    if sp.ws:
        return all(test(c) is False for c in WS)
    ch = mk("sym", "?char")
    try:
        rs = eng.apply(st, p, (ch,))
    except Exception:
        return False

    def out(t, v):
        """can the condition t = v not hold of a character of the atom?"""
        if t is ch and isinstance(v, int):
            return not sp.contain(chr(v))
        if t.op == "eq" and v == 1:
            a, b = t.a
            if b is ch:
                a, b = b, a
            return a is ch and b.op == "int" and not sp.contain(chr(b.a[0]))
        if t.op == "call" and v == 1 and t.a[2] == (ch,):
            cs = CLASSES.get(t.a[0].rsplit("::", 1)[-1])
            return cs is not None and all(not sp.contain(c) for c in cs)
        return False
    for s, r in rs:
        if r.op == "int" and not r.a[0]:
            continue
        if r.op != "int" and out(r, 1):
            continue
        for c in s.g:
            if not any(l[1] == "=" and out(l[0], l[2]) for l in c):
                return False
    return True


def search(eng, st, t, p, last=False, start=0):
    """first (last) occurrence -> item index, -1 when there is none, None when undecided"""
    its, offs = items(t)
    rng = range(start, len(its))
    if last:
        rng = reversed(rng)
    if p.op == "str":
        q = p.a[0]
        for i in rng:
            if isinstance(its[i], str):
                r = here(its, i, q)
                if r is None:
                    return None
                if r:
                    return i
            elif begins_in(its, i, q):
                return None
        return -1
    if p.op in ("charset", "fn", "adapt") or (p.op == "agg" and p.a[0].startswith("closure:")) or p.op == "fndef":
        test = chartest(eng, st, p)
        for i in rng:
            x = its[i]
            if isinstance(x, str):
                r = test(x)
                if r is None:
                    return None
                if r:
                    return i
            else:
                sp = spec(x)
                if p.op == "charset":
                    if any(sp.contain(c) for c in p.a[0]):
                        return None
                elif not never(eng, st, p, test, sp):
                    return None
        return -1
    return None


def at(t, off):
    """item index of an offset"""
    its, offs = items(t)
    if off is None:
        return len(its)
    for i, o in enumerate(offs):
        if o is off:
            return i
    return None


def cut(t, a, b):
    its, offs = items(t)
    i = at(t, a if a is not None else I(0))
    j = at(t, b)
    if i is None or j is None:
        return None
    if i > j:
        return mk("absurd")
    return text(its[i:j])


def trim(t, left=True, right=True):
    its, _ = items(t)
    i, j = 0, len(its)
    if left:
        while i < j:
            x = its[i]
            if isinstance(x, str):
                if x not in WS:
                    break
            elif spec(x).ws:
                pass
            elif spec(x).solid and spec(x).nonempty:
                break
            else:
                return None
            i += 1
    if right:
        while j > i:
            x = its[j - 1]
            if isinstance(x, str):
                if x not in WS:
                    break
            elif spec(x).ws:
                pass
            elif spec(x).solid and spec(x).nonempty:
                break
            else:
                return None
            j -= 1
    return text(its[i:j])


def trim_pred(eng, st, t, p, left=True, right=True):
    """remove the leading / trailing characters a predicate or a set accepts, or None"""
    its, _ = items(t)
    test = chartest(eng, st, p)

    def drop(x):
        if isinstance(x, str):
            return test(x)
        sp = spec(x)
        if sp.ws:
            rs = {test(c) for c in WS}
            return rs.pop() if len(rs) == 1 else None
        if not sp.nonempty:
            return None
        if p.op == "charset":
            return None if any(sp.contain(c) for c in p.a[0]) else False
        return False if never(eng, st, p, test, sp) else None
    i, j = 0, len(its)
    while left and i < j:
        r = drop(its[i])
        if r is None:
            return None
        if not r:
            break
        i += 1
    while right and j > i:
        r = drop(its[j - 1])
        if r is None:
            return None
        if not r:
            break
        j -= 1
    return text(its[i:j])


def occurrences(eng, st, t, p):
    its, _ = items(t)
    out = []
    i = 0
    while True:
        r = search(eng, st, t, p, start=i)
        if r is None:
            return None
        if r < 0:
            return out
        out.append(r)
        i = r + len(p.a[0])


def replace(eng, st, t, p, q, limit=None):
    if p.op != "str" or not p.a[0]:
        return None
    oc = occurrences(eng, st, t, p)
    if oc is None:
        return None
    its, _ = items(t)
    out, i = [], 0
    for o in oc[:limit]:
        out.append(text(its[i:o]))
        out.append(q)
        i = o + len(p.a[0])
    out.append(text(its[i:]))
    return concat(*out)


def starts(t, p, end=False, eng=None, st=None):
    its, _ = items(t)
    if p.op != "str":
        if eng is None or p.op not in ("charset", "fn", "fndef", "agg"):
            return None
        if not its:
            return False
        x = its[-1] if end else its[0]
        return chartest(eng, st, p)(x) if isinstance(x, str) else None
    q = p.a[0]
    if not end:
        return here(its, 0, q)
    # as a suffix: enough constant characters at the end decide it
    i = len(its)
    k = len(q)
    while k:
        if i == 0:
            return False
        x = its[i - 1]
        if not isinstance(x, str):
            return False if not spec(x).end(q[:k]) and spec(x).nonempty else None
        if x != q[k - 1]:
            return False
        i -= 1
        k -= 1
    return True


def byte_at(t, off):
    its, offs = items(t)
    i = at(t, off)
    if i is None or i >= len(its) or not isinstance(its[i], str) or ord(its[i]) > 127:
        return None
    return ord(its[i])


# ---------------------------------------------------------------- simple patterns: literal (set+) literal
import re as _re
_SIMPLE = _re.compile(r"^([^\\\[\](){}.*+?^$|]+)\((\[\^?[^\\\[\]]+\]|\.)([+*])\??\)([^\\\[\](){}.*+?^$|]+)$")


def captures(eng, st, pattern, t):
    """all matches, one after the other, or None when undecided"""
    out, at_ = [], 0
    while True:
        m = capture(eng, st, pattern, t, at_, True)
        if m is None:
            return None
        if m is False:
            return out
        out.append(m[:2])
        at_ = m[2]


def capture(eng, st, pattern, t, start=0, end=False):
    """first match of `lit(set+)lit` in the text -> (whole, group 1), False when there is none, None when undecided"""
    m = _SIMPLE.match(pattern)
    if not m:
        return None
    l1, cls, rep, l2 = m.groups()
    if cls == ".":
        neg_, cs = True, "\n"
    else:
        neg_ = cls[1] == "^"
        cs = cls[2:-1] if neg_ else cls[1:-1]
    if "-" in cs[1:-1]:
        return None

    def has(ch):
        return (ch not in cs) if neg_ else (ch in cs)
    if has(l2[0]):
        return None
    its, _ = items(t)
    i = start
    while True:
        i = search(eng, st, t, S(l1), start=i)
        if i is None:
            return None
        if i < 0:
            return False
        j = k = i + len(l1)
        while k < len(its):
            x = its[k]
            if isinstance(x, str):
                if not has(x):
                    break
            else:
                sp = spec(x)
                if not neg_ or any(sp.contain(c) for c in cs):
                    # the set cannot be seen to hold of the whole atom; a first character outside it ends the match
                    if neg_ and isinstance(sp, Content) and sp.nonempty and "<" in cs:
                        break
                    return None
            k += 1
        if k > j and any(isinstance(x, str) or spec(x).nonempty for x in its[j:k]):
            h = here(its, k, l2)
            if h is None:
                return None
            if h:
                return (text(its[i:k + len(l2)]), text(its[j:k])) + ((k + len(l2),) if end else ())
        i += 1


# ---------------------------------------------------------------- markup of shaped texts
class Malformed(Exception):
    pass


def markup(t):
    """-> list of nodes: ('decl', text) | ('el', name, [(attr, value text)], children) | ('content', atom) | ('text', s)"""
    if t.op == "str":
        its = list(t.a[0])
    else:
        r = items(t)
        if r is None:
            raise Malformed("not a text of known shape: %s" % show(t)[:300])
        its = r[0]
    n = len(its)

    def lit(i, s):
        return all(i + k < n and its[i + k] == c for k, c in enumerate(s))

    def name(i):
        j = i
        while j < n and isinstance(its[j], str) and its[j] not in " \t\r\n<>/=\"'?":
            j += 1
        if j == i:
            raise Malformed("a tag without a name")
        return "".join(its[i:j]), j

    def attrs(i):
        out = []
        while True:
            sp = False
            while i < n and (its[i] in WS if isinstance(its[i], str) else spec(its[i]).ws):
                i += 1
                sp = True
            if i >= n:
                raise Malformed("unfinished tag")
            if its[i] in (">", "/", "?"):
                return out, i
            if not isinstance(its[i], str):
                raise Malformed("unknown text inside a tag")
            if not sp:
                raise Malformed("attributes are not separated")
            a, i = name(i)
            if not lit(i, "="):
                raise Malformed("attribute %s without a value" % a)
            i += 1
            q = its[i] if i < n else None
            if q not in ("'", '"'):
                raise Malformed("attribute %s is not quoted" % a)
            j = i + 1
            while j < n and its[j] != q:
                x = its[j]
                if isinstance(x, str):
                    if x in "<&":
                        raise Malformed("raw %s in attribute %s" % (x, a))
                else:
                    sp_ = spec(x)
                    for c in "<&" + q:
                        # an escaped text holds & only as part of an entity
                        if sp_.contain(c) and not (c == "&" and sp_ in (ESCAPED, PARTIAL)):
                            raise Malformed("attribute %s may contain a raw %s" % (a, c))
                    if c == q and sp_.contain(q):
                        raise Malformed("attribute %s may end early" % a)
                j += 1
            if j >= n:
                raise Malformed("attribute %s is not closed" % a)
            if any(a == b for b, _ in out):
                raise Malformed("attribute %s is given twice" % a)
            out.append((a, text(its[i + 1:j])))
            i = j + 1

    def nodes(i, close):
        out = []
        while i < n:
            x = its[i]
            if not isinstance(x, str):
                sp = spec(x)
                out.append(("ws",) if sp.ws else ("content", x))
                i += 1
                continue
            if x != "<":
                if x == "&":
                    raise Malformed("raw & in content")
                if x in WS:
                    if not out or out[-1] != ("ws",):
                        out.append(("ws",))
                elif out and out[-1][0] == "text":
                    out[-1] = ("text", out[-1][1] + x)
                else:
                    out.append(("text", x))
                i += 1
                continue
            if lit(i, "<?"):
                j = i
                while j < n and not lit(j, "?>"):
                    j += 1
                if j >= n:
                    raise Malformed("unfinished declaration")
                out.append(("decl", "".join(its[i:j + 2])))
                i = j + 2
                continue
            if lit(i, "</"):
                nm, j = name(i + 2)
                while j < n and its[j] in WS:
                    j += 1
                if not lit(j, ">"):
                    raise Malformed("unfinished end tag %s" % nm)
                if nm != close:
                    raise Malformed("</%s> closes <%s>" % (nm, close))
                return out, j + 1
            nm, j = name(i + 1)
            at_, j = attrs(j)
            if lit(j, "/>"):
                out.append(("el", nm, at_, []))
                i = j + 2
                continue
            if not lit(j, ">"):
                raise Malformed("unfinished tag %s" % nm)
            ch, i = nodes(j + 1, nm)
            out.append(("el", nm, at_, ch))
        if close is not None:
            raise Malformed("<%s> is not closed" % close)
        return out, i
    return nodes(0, None)[0]


def solid(nodes):
    return [x for x in nodes if x[0] != "ws"]
