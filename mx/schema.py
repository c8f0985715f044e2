"""Wire model: what serde reads and writes for a type, from its declaration and its serde attributes.

A node is the wire shape of a local type:
  struct: ordered fields  {w: wire name, occ: req|opt|vec|optvec, leaf: text|number|bool|node, t: type path}
  enum:   variants        {texts: wire text, n: number of payload fields}
Rust names, boxing and module placement are not part of the shape."""
import re

WRAP = ("std::boxed::Box", "std::sync::Arc", "std::rc::Rc", "std::borrow::Cow")
OPTION, VEC, STRING = "std::option::Option", "std::vec::Vec", "std::string::String"
_ATTR = re.compile(r"#\[serde\((.*)\)\]$", re.S)


def serde_items(attrs):
    """-> list of (name, value or None, nested) of all serde(...) attributes"""
    out = []
    for a in attrs:
        a = a.strip()
        if a.startswith("//") or a.startswith("/*") or a.startswith("#[doc") or "serde" not in a:
            continue
        m = _ATTR.match(re.sub(r"^#\s*\[\s*serde\s*\(", "#[serde(", a))
        if not m:
            out.append(("?", a, None))
            continue
        out += items(m.group(1))
    return out


def items(s):
    """split `a = "x", b(c = "y"), d` at top level"""
    out, depth, cur, i, q = [], 0, "", 0, False
    parts = []
    while i < len(s):
        c = s[i]
        if q:
            cur += c
            if c == "\\":
                cur += s[i + 1]
                i += 1
            elif c == '"':
                q = False
        elif c == '"':
            q = True
            cur += c
        elif c in "([{":
            depth += 1
            cur += c
        elif c in ")]}":
            depth -= 1
            cur += c
        elif c == "," and depth == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += c
        i += 1
    parts.append(cur)
    for p in parts:
        p = p.strip()
        if not p:
            continue
        m = re.match(r"(\w+)\s*\((.*)\)$", p, re.S)
        if m:
            out.append((m.group(1), None, items(m.group(2))))
            continue
        m = re.match(r"(\w+)\s*=\s*(.*)$", p, re.S)
        if m:
            v = m.group(2).strip()
            if v.startswith('"'):
                v = unquote(v)
            out.append((m.group(1), v, None))
        else:
            out.append((p, None, None))
    return out


def unquote(v):
    body = v[1:-1]
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(m.group(1), m.group(1)), body)


def snake_words(n):
    return [w for w in n.split("_") if w]


def camel_words(n):
    return re.findall(r"[A-Z]+(?=[A-Z][a-z])|[A-Z]?[a-z0-9]+|[A-Z]+|\d+", n)


def apply_case(rule, name, variant):
    if variant:
        # serde's variant rules work char by char
        if rule == "PascalCase":
            return name
        if rule == "lowercase":
            return name.lower()
        if rule == "UPPERCASE":
            return name.upper()
        if rule == "camelCase":
            return name[:1].lower() + name[1:]
        sn = "".join(("_" if i and c.isupper() else "") + c.lower() for i, c in enumerate(name))
    else:
        if rule in ("lowercase", "snake_case"):
            return name
        if rule == "UPPERCASE":
            return name.upper()
        pas = "".join(w[:1].upper() + w[1:] for w in name.split("_"))
        if rule == "PascalCase":
            return pas
        if rule == "camelCase":
            return pas[:1].lower() + pas[1:]
        sn = name
    return {"snake_case": sn, "SCREAMING_SNAKE_CASE": sn.upper(), "kebab-case": sn.replace("_", "-"),
            "SCREAMING-KEBAB-CASE": sn.upper().replace("_", "-")}.get(rule, name)


class Shape:
    __slots__ = ("path", "kind", "fields", "variants", "odd", "tag", "file", "line")


class Schema:
    def __init__(self, F):
        self.F = F
        self.memo = {}
        self.none_fns = {}
        self.serde = {}
        for im in F.impls:
            if not im["trait"]:
                continue
            n = im["trait"].split("<")[0]
            if n in ("serde::Serialize", "serde::Deserialize"):
                T = F.types[im["self"]]
                if T["k"] == "adt":
                    self.serde.setdefault(T["d"], {})[n.split("::")[1]] = im["derive"] or "manual"

    # ---------------------------------------------------------------- types
    def unwrap(self, ti):
        """-> (occ, leaf kind, type path or None)"""
        occ = "req"
        while True:
            T = self.F.types[ti]
            if T["k"] == "adt" and T["d"] in WRAP:
                ti = T["a"][0]
            elif T["k"] == "adt" and T["d"] == OPTION:
                if occ != "req":
                    return occ, "odd:" + self.F.tname(ti), None
                occ = "opt"
                ti = T["a"][0]
            elif T["k"] == "adt" and T["d"] == VEC:
                if occ in ("vec", "optvec"):
                    return occ, "odd:" + self.F.tname(ti), None
                occ = "vec" if occ == "req" else "optvec"
                ti = T["a"][0]
            else:
                break
        T = self.F.types[ti]
        if T["k"] == "adt":
            if T["d"] == STRING:
                return occ, "text", None
            if T["d"] in self.F.adts:
                return occ, "node", T["d"]
            return occ, "ext:" + self.F.tname(ti), None
        if T["k"] == "str":
            return occ, "text", None
        if T["k"] == "bool":
            return occ, "bool", None
        if T["k"] == "float":
            return occ, "number:" + T["n"], None
        if T["k"] == "int":
            return occ, "int:" + T["n"], None
        return occ, "odd:" + self.F.tname(ti), None

    def is_none_fn(self, name):
        """does skip_serializing_if = name mean 'skip exactly when the option is None'?"""
        n = name.replace(" ", "")
        return n in ("Option::is_none", "std::option::Option::is_none", "core::option::Option::is_none", "::std::option::Option::is_none")

    def shape(self, path):
        s = self.memo.get(path)
        if s is None:
            s = self._shape(path)
            self.memo[path] = s
        return s

    def _shape(self, path):
        A = self.F.adts[path]
        s = Shape()
        s.path, s.file, s.line = path, A["file"], A["line"]
        s.odd = []          # (where, what): anything that makes reading and writing differ from the plain shape
        s.fields, s.variants, s.tag = [], [], None
        ra_s = ra_d = None
        for n, v, sub in serde_items(A["attrs"]):
            if n == "rename":
                if sub is not None:
                    s.odd.append(("", "rename(...)"))
                else:
                    s.tag = v
            elif n == "rename_all":
                if sub is not None:
                    d = dict((x[0], x[1]) for x in sub)
                    ra_s, ra_d = d.get("serialize"), d.get("deserialize")
                else:
                    ra_s = ra_d = v
            elif n in ("crate", "bound", "expecting"):
                pass
            else:
                s.odd.append(("", n if v is None else "%s = %s" % (n, v)))
        for tr in ("Serialize", "Deserialize"):
            how = self.serde.get(path, {}).get(tr)
            if how != tr:
                s.odd.append(("", "%s implementation is %s" % (tr, how or "missing")))
        if A["kind"] == "Enum":
            s.kind = "enum"
            for v in A["variants"]:
                w = self.names(s, v["name"], v["attrs"], apply_case(ra_s, v["name"], True), apply_case(ra_d, v["name"], True), None)
                tys = [self.unwrap(f["ty"]) for f in v["fields"]]
                s.variants.append({"name": v["name"], "w": w, "ctor": v["ctor"], "fields": tys})
        else:
            s.kind = "struct"
            v = A["variants"][0]
            if v["ctor"] != "None":
                s.kind = "tuple"
            for i, f in enumerate(v["fields"]):
                occ, leaf, t = self.unwrap(f["ty"])
                w = self.names(s, f["name"], f["attrs"], apply_case(ra_s, f["name"], False), apply_case(ra_d, f["name"], False), occ)
                s.fields.append({"i": i, "name": f["name"], "w": w, "occ": occ, "leaf": leaf, "t": t, "pub": f["pub"]})
        return s

    def names(self, s, rust, attrs, w_s, w_d, occ):
        skip = None
        wires_in = []
        for n, v, sub in serde_items(attrs):
            if n == "rename":
                if sub is not None:
                    d = dict((x[0], x[1]) for x in sub)
                    w_s, w_d = d.get("serialize", w_s), d.get("deserialize", w_d)
                else:
                    w_s = w_d = v
            elif n == "skip_serializing_if":
                skip = v
            elif n == "alias":
                s.odd.append((rust, "alias = %s" % v))
            elif n == "default" and v is None and occ in ("opt", "optvec"):
                pass
            else:
                s.odd.append((rust, n if v is None else "%s = %s" % (n, v)))
        if w_s != w_d:
            s.odd.append((rust, "written as %s, read as %s" % (w_s, w_d)))
        if occ in ("opt", "optvec"):
            if skip is None:
                s.odd.append((rust, "absent value is written (no skip_serializing_if)"))
            elif not self.is_none_fn(skip):
                s.odd.append((rust, "skip_serializing_if = %s" % skip))
        elif skip is not None:
            s.odd.append((rust, "skip_serializing_if = %s on a mandatory element" % skip))
        return w_d

    def children(self, path):
        s = self.shape(path)
        for f in s.fields:
            if f["leaf"] == "node":
                yield f["t"]
        for v in s.variants:
            for (o, l, t) in v["fields"]:
                if l == "node":
                    yield t

    def roots(self):
        """message, variant and header types: declared under document/header and used by no other of them"""
        mine = [p for p in self.F.adts if p.startswith(("document::", "header::"))]
        used = set()
        for p in mine:
            used.update(c for c in self.children(p) if c != p)
        return [p for p in mine if p not in used]

    def reach(self, root):
        seen, work = [], [root]
        ss = set()
        while work:
            p = work.pop()
            if p in ss:
                continue
            ss.add(p)
            seen.append(p)
            work += list(self.children(p))
        return seen
