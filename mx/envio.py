"""Readers and writers of shaped texts: the serialization library as far as the rules need it.

Writing a value of a derived struct type T gives <T>content</T> (all 25 payloads and the header have at least one
mandatory element and no attributes, which the rules check); reading content of T with type T gives the value back."""
from term import *
import shape

SE = ("quick_xml::se::to_string",)
DE = ("quick_xml::de::from_str", "quick_xml::de::from_reader")


class IO:
    def __init__(self, W):
        self.W = W
        self.names = {}
        self.content = {}    # atom -> (type, value or None)
        self.read = []       # (type, text) decodes seen
        self.wrote = []      # (type, value)

    def tagnames(self, t):
        r = self.names.get(t)
        if r is None:
            r = set()
            for c in self.W.schema.reach(t):
                sh = self.W.schema.shape(c)
                for f in sh.fields:
                    if not f["w"].startswith(("@", "$")):
                        r.add(f["w"])
                if sh.kind == "enum":
                    # a code list is text; a choice written as elements would use variant names
                    for v in sh.variants:
                        if v["fields"]:
                            r.add(v["w"])
            self.names[t] = r
        return r

    def plain(self, t):
        """is the written form of t one element with child elements?"""
        sh = self.W.schema.shape(t)
        return sh.kind == "struct" and any(f["occ"] == "req" and not f["w"].startswith(("@", "$")) for f in sh.fields) \
            and not any(f["w"].startswith(("@", "$")) for f in sh.fields)

    def atom(self, t, value, tag="content"):
        a = shape.atom("%s of %s %s" % (tag, t, show(value) if value is not None else ""), shape.Content(self.tagnames(t)))
        self.content[a] = (t, value)
        return a

    def rootname(self, t):
        sh = self.W.schema.shape(t)
        return sh.tag or t.rsplit("::", 1)[-1]

    def __call__(self, eng, st, f, p, args, rty):
        if p in SE:
            v = eng.deep(st, args[0])
            t = eng.F.tname(eng.F.strip_refs(f["a"][0])) if f.get("a") else None
            self.wrote.append((t, v))
            if t not in self.W.F.adts or not self.plain(t):
                return None
            n = self.rootname(t)
            return [(st, ok(concat(S("<%s>" % n), self.atom(t, v), S("</%s>" % n))))]
        if p == "quick_xml::se::to_string_with_root":
            v = eng.deep(st, args[1])
            n = eng.deep(st, args[0])
            t = [x for x in (eng.F.tname(eng.F.strip_refs(i)) for i in f.get("a") or []) if x in self.W.F.adts]
            if n.op != "str" or not t or not self.plain(t[-1]):
                return None
            self.wrote.append((t[-1], v))
            return [(st, ok(concat(S("<%s>" % n.a[0]), self.atom(t[-1], v), S("</%s>" % n.a[0]))))]
        if p in DE:
            x = eng.deep(st, args[0])
            t = None
            for i in f.get("a") or []:
                n = eng.F.tname(i)
                if n in self.W.F.adts:
                    t = n
            self.read.append((t, x))
            c = self.only_content(x)
            if c is not None:
                ct, v = self.content[c]
                if v is not None and ct == t:
                    return [(st, ok(v))]
            return None
        return None

    def only_content(self, x):
        """the content atom when the text is exactly one element holding it"""
        if not shape.shaped(x):
            return None
        try:
            ns = shape.solid(shape.markup(x))
        except shape.Malformed:
            return None
        if len(ns) != 1 or ns[0][0] != "el":
            return None
        ch = shape.solid(ns[0][3])
        if len(ch) == 1 and ch[0][0] == "content" and ch[0][1] in self.content:
            return ch[0][1]
        return None


def decoded(t):
    """fld(from_str<T>(text), Ok, 0) -> (type names, text)"""
    if t.op == "fld" and t.a[1] == 0 and t.a[2] == 0 and t.a[0].op == "call" and t.a[0].a[0] in DE:
        return t.a[0].a[1], t.a[0].a[2][0]
    return None


def jobj(t):
    """a JSON object term -> {key: value} or None"""
    if not (t.op == "agg" and t.a[0].endswith("Value") and t.a[1] == 5):
        return None
    m = t.a[2][0]
    out = {}
    while m.op == "mapins":
        k = m.a[1]
        if k.op != "str":
            return None
        out.setdefault(k.a[0], m.a[2])
        m = m.a[0]
    return out if m.op == "agg" and m.a[0] == "map" else None
