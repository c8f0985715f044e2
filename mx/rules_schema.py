"""C04-C12, C16(types), C26, C27: rules over the type declarations and the validate profiles.

The published definitions (ref/schema.json) and the current types are walked together, element by element, from every
message, variant and header; Rust type and field names, boxing and module layout do not matter, wire names do."""
import rx
from common import Result

MODES = {"req": "", "opt": "o", "vec": "e", "optvec": "oe"}


def pairs(W, res=None):
    """(ref type, current type, path) for everything reachable from the published roots; memo on the pair"""
    if getattr(W, "_pairs", None) is not None:
        return W._pairs
    ref, S = W.ref["nodes"], W.schema
    out, miss = [], []
    seen = set()
    for root in W.ref["roots"]:
        cur = root if root in W.F.adts else find_root(W, root)
        if cur is None:
            miss.append(root)
            continue
        work = [(root, cur, root)]
        while work:
            r, c, p = work.pop()
            if (r, c) in seen:
                continue
            seen.add((r, c))
            out.append((r, c, p))
            rn, sh = ref[r], S.shape(c)
            if "fields" not in rn:
                continue
            byw = {f["w"]: f for f in sh.fields}
            for e in rn["fields"]:
                f = byw.get(e["w"])
                if f is not None and "t" in e and f["t"]:
                    work.append((e["t"], f["t"], p + "/" + e["w"]))
    W._pairs = (out, miss)
    return W._pairs


def find_root(W, root):
    """a root type moved elsewhere but still reachable under its public name"""
    mod, name = root.rsplit("::", 1)
    for r in W.F.reexports:
        if r[0] == mod and r[1] == name and r[2] in W.F.adts:
            return r[2]
    a = W.F.aliases.get(root)
    if a:
        t = W.F.types[a["ty"]]
        if t["k"] == "adt" and t["d"] in W.F.adts:
            return t["d"]
    return None


def short(t):
    return t.replace("document::", "").replace("header::", "")


# which property a serde peculiarity breaks
def odd_prop(kind, what, where):
    if what.startswith(("alias", "other")) or "rename(" in what:
        return "C05" if kind == "enum" else "C04"
    return "C12"


def roots_missing(W, res):
    _, miss = pairs(W)
    for m in miss:
        res.bad("root " + m, "the type of a published message or header is gone: %s" % m)


def c04(W):
    res = Result("C04")
    prs, _ = pairs(W)
    roots_missing(W, res)
    ref = W.ref["nodes"]
    for r, c, p in prs:
        rn, sh = ref[r], W.schema.shape(c)
        res.count("types compared")
        place = W.place(c)
        if "codes" in rn:
            res.ob()
            if sh.kind != "enum":
                res.bad(short(r) + " kind", "%s is no longer a coded element" % short(r), place)
            continue
        if sh.kind != "struct":
            res.bad(short(r) + " kind", "%s is no longer a structured element" % short(r), place)
            continue
        want = [e["w"] for e in rn["fields"]]
        got = [f["w"] for f in sh.fields]
        byw = {}
        for f in sh.fields:
            if f["w"] in byw:
                res.bad("%s dup %s" % (short(r), f["w"]), "%s: two fields are read from and written as %s" % (short(r), f["w"]), place)
            byw[f["w"]] = f
        for e in rn["fields"]:
            res.ob()
            f = byw.get(e["w"])
            if f is None:
                res.bad("%s missing %s" % (short(r), e["w"]), "%s: element %s is missing (at %s)" % (short(r), e["w"], p), place)
                continue
            if f["occ"] != e["occ"]:
                res.bad("%s occ %s" % (short(r), e["w"]), "%s: element %s is %s instead of %s (at %s)" % (short(r), e["w"], OCC[f["occ"]], OCC[e["occ"]], p), place)
            if f["leaf"] != e["leaf"]:
                res.bad("%s kind %s" % (short(r), e["w"]), "%s: element %s is %s instead of %s" % (short(r), e["w"], f["leaf"], e["leaf"]), place)
            elif f["t"] and (W.schema.shape(f["t"]).kind == "enum") != ("codes" in ref[e["t"]]):
                res.bad("%s kind %s" % (short(r), e["w"]), "%s: element %s changed between coded and structured" % (short(r), e["w"]), place)
        for w in got:
            if w not in want:
                res.bad("%s extra %s" % (short(r), w), "%s: %s is no element of the definition" % (short(r), w), place)
        if set(want) == set(got) and want != got:
            i = next(i for i in range(len(want)) if want[i] != got[i])
            res.bad("%s order" % short(r), "%s: element %s is written where %s belongs" % (short(r), got[i], want[i]), place)
        for where, what in sh.odd:
            if odd_prop(sh.kind, what, where) == "C04" or what == "default" or (what.startswith("default")):
                res.bad("%s odd %s" % (short(r), where), "%s.%s: %s" % (short(r), where, what), place)
    return res


OCC = {"req": "mandatory", "opt": "optional", "vec": "mandatory repeated", "optvec": "optional repeated"}


def c05(W):
    res = Result("C05")
    prs, _ = pairs(W)
    roots_missing(W, res)
    ref = W.ref["nodes"]
    for r, c, p in prs:
        rn, sh = ref[r], W.schema.shape(c)
        if "codes" not in rn:
            continue
        res.count("coded elements")
        place = W.place(c)
        if sh.kind != "enum":
            res.bad(short(r) + " kind", "%s accepts any text" % short(r), place)
            continue
        got = {}
        for v in sh.variants:
            res.ob()
            if v["fields"] or not v["ctor"].startswith("Some(Const"):
                res.bad("%s payload %s" % (short(r), v["w"]), "%s: code %s carries content" % (short(r), v["w"]), place)
            if v["w"] in got:
                res.bad("%s same %s" % (short(r), v["w"]), "%s: %s and %s are both written %s" % (short(r), got[v["w"]], v["name"], v["w"]), place)
            got[v["w"]] = v["name"]
        for w, name in got.items():
            # a value that is called by one published code must not stand for another
            n = name[4:] if name.startswith("Code") else name
            other = next((x for x in rn["codes"] if x != w and x.replace("_", "").upper() == n.upper()), None)
            if other is not None:
                res.bad("%s named %s" % (short(r), w), "%s: %s is written and read as %s" % (short(r), name, w), place)
        for w in rn["codes"]:
            if w not in got:
                res.bad("%s code %s" % (short(r), w), "%s: published code %s is not accepted" % (short(r), w), place)
        for w in got:
            if w not in rn["codes"]:
                res.bad("%s code %s" % (short(r), w), "%s: %s is no published code" % (short(r), w), place)
        for where, what in sh.odd:
            res.bad("%s odd %s" % (short(r), where), "%s.%s: %s" % (short(r), where, what), place)
    return res


def checks_of(W, c):
    """current type -> {field index: {(kind, mode): {P: set(args)}}} or None"""
    R = W.profile.get(c)
    if R is None:
        return None, None
    out = {}
    for x in R["checks"]:
        if x["f"] >= 0:
            out.setdefault(x["f"], {}).setdefault((x["kind"], x["mode"]), {}).setdefault(x["P"], set()).add(x["arg"])
    return R, out


def constraint_pairs(W, res):
    prs, _ = pairs(W)
    roots_missing(W, res)
    ref = W.ref["nodes"]
    for r, c, p in prs:
        rn = ref[r]
        if "fields" not in rn:
            continue
        sh = W.schema.shape(c)
        R, ch = checks_of(W, c)
        place = "%s:%s" % (R["file"], R["line"]) if R else W.place(c)
        yield r, c, p, rn, sh, R, ch, place


def problems(W, prop, res):
    """what the profiles report for this property, over every validate implementation of the library"""
    for t, R in sorted(W.profile.items()):
        res.count("validate functions")
        res.count("events read", R["n"])
        if R["undecided"]:
            res.unsure(t, "; ".join(R["undecided"])[:300])
            continue
        for p, what in R["problems"]:
            if p == prop:
                res.bad("%s %s" % (short(t), what.split(":")[0][:80]), "%s: %s" % (short(t), what), "%s:%s" % (R["file"], R["line"]))


def c06(W):
    res = Result("C06")
    problems(W, "C06", res)
    for r, c, p, rn, sh, R, ch, place in constraint_pairs(W, res):
        if R and R["undecided"]:
            continue
        byw = {f["w"]: f for f in sh.fields}
        known = set()
        for e in rn["fields"]:
            f = byw.get(e["w"])
            if f is None:
                if e.get("con"):
                    res.bad("%s gone %s" % (short(r), e["w"]), "%s: %s has no length check, the element is gone" % (short(r), e["w"]), place)
                continue
            known.add(f["i"])
            for kind in ("min", "max"):
                want = (e.get("con") or {}).get(kind)
                if want is not None:
                    res.ob()
                one(res, r, e["w"], f, kind, {want} if want is not None else set(), (ch or {}).get(f["i"], {}), place)
        for i in (ch or {}):
            if i not in known and any(k[0] in ("min", "max") for k in ch[i]) and i < len(sh.fields):
                res.bad("%s extra %s" % (short(r), sh.fields[i]["w"]), "%s: %s has a length limit that is not published" % (short(r), sh.fields[i]["w"]), place)
    return res


def one(res, r, w, f, kind, want, ch, place):
    mode = MODES[f["occ"]]
    name = {"min": "minimum", "max": "maximum"}[kind]
    for (k, m), per in ch.items():
        if k == kind and m != mode:
            res.bad("%s %s %s mode" % (short(r), w, kind), "%s: the %s length of %s is not checked on each occurrence" % (short(r), name, w), place)
    per = ch.get((kind, mode), {})
    for P in (0, 1):
        got = per.get(P, set())
        if got != want:
            res.bad("%s %s %s" % (short(r), w, kind), "%s: %s length of %s is %s instead of %s" % (
                short(r), name, w, ",".join(map(str, sorted(got))) or "not enforced", ",".join(map(str, want)) or "none"), place)
            return


def lang(p):
    return rx.search_core(p)


def c07(W):
    res = Result("C07")
    problems(W, "C07", res)
    memo = {}
    for r, c, p, rn, sh, R, ch, place in constraint_pairs(W, res):
        if R and R["undecided"]:
            continue
        byw = {f["w"]: f for f in sh.fields}
        known = set()
        for e in rn["fields"]:
            want = (e.get("con") or {}).get("pat", [])
            f = byw.get(e["w"])
            if f is None:
                if want:
                    res.bad("%s gone %s" % (short(r), e["w"]), "%s: %s has no pattern check, the element is gone" % (short(r), e["w"]), place)
                continue
            known.add(f["i"])
            res.ob(len(want))
            mode = MODES[f["occ"]]
            mine = (ch or {}).get(f["i"], {})
            for (k, m) in mine:
                if k == "pat" and m != mode:
                    res.bad("%s %s mode" % (short(r), e["w"]), "%s: the pattern of %s is not checked on each occurrence" % (short(r), e["w"]), place)
            for P in (0, 1):
                got = sorted(mine.get(("pat", mode), {}).get(P, set()))
                d = pat_diff(got, want, memo)
                if d is None:
                    continue
                if d[0] is None:
                    res.unsure("%s %s" % (short(r), e["w"]), d[1])
                else:
                    res.bad("%s %s pattern" % (short(r), e["w"]), "%s: %s: %s" % (short(r), e["w"], d[1]), place)
                break
        for i in (ch or {}):
            if i not in known and any(k[0] == "pat" for k in ch[i]) and i < len(sh.fields):
                res.bad("%s extra %s" % (short(r), sh.fields[i]["w"]), "%s: %s has a pattern that is not published" % (short(r), sh.fields[i]["w"]), place)
    res.count("distinct patterns compared", len(memo))
    return res


def pat_diff(got, want, memo):
    if len(got) != len(want):
        return False, "%d patterns are enforced instead of %d" % (len(got), len(want))
    if len(got) == 1:
        k = (got[0], want[0])
        if k not in memo:
            try:
                memo[k] = rx.same(lang(got[0]), rx.full(want[0]), trimmed=True)
            except rx.Invalid as ex:
                memo[k] = (False, "invalid pattern: %s" % ex)
            except rx.Unknown as ex:
                memo[k] = (None, "pattern not decided: %s" % ex)
        okk, w = memo[k]
        if okk:
            return None
        if okk is None:
            return None, w
        return False, "the pattern in force differs from the published one, e.g. on %r (in force: %s, published: %s)" % (w, got[0], want[0])
    # several patterns on one element: as a set
    rest = list(want)
    for g in got:
        for x in rest:
            if pat_diff([g], [x], memo) is None:
                rest.remove(x)
                break
        else:
            return False, "pattern %s is not published" % g
    return None


def deep_checked(W):
    """published types with a constraint on themselves or below"""
    ref = W.ref["nodes"]
    has = {}

    def go(t, st=()):
        if t in has:
            return has[t]
        if t in st:
            return False
        n = ref[t]
        v = any(e.get("con") or ("t" in e and go(e["t"], st + (t,))) for e in n.get("fields", ()))
        has[t] = v
        return v
    for t in ref:
        go(t)
    return has


def c08(W):
    res = Result("C08")
    problems(W, "C08", res)
    deep = deep_checked(W)
    for r, c, p, rn, sh, R, ch, place in constraint_pairs(W, res):
        if R and R["undecided"]:
            continue
        byw = {f["w"]: f for f in sh.fields}
        nested = {}
        for n in (R or {"nested": []})["nested"]:
            nested.setdefault(n["f"], []).append(n)
        if R is None and deep[r]:
            res.bad("%s impl" % short(r), "%s cannot be validated" % short(r), place)
            continue
        for e in rn["fields"]:
            f = byw.get(e["w"])
            if "t" not in e or not deep[e["t"]] or f is None:
                continue
            res.ob()
            ns = nested.get(f["i"], [])
            if not ns:
                res.bad("%s %s" % (short(r), e["w"]), "%s: the content of %s is never validated" % (short(r), e["w"]), place)
                continue
            if not any(n["mode"] == MODES[f["occ"]] for n in ns):
                res.bad("%s %s" % (short(r), e["w"]), "%s: not every occurrence of %s is validated" % (short(r), e["w"]), place)
        for e in rn["fields"]:
            f = byw.get(e["w"])
            if "con" not in e or f is None or f["occ"] not in ("vec", "optvec"):
                continue
            for kind in e["con"]:
                res.ob()
                modes = {m for (k, m) in ((ch or {}).get(f["i"]) or {}) if k == kind}
                if modes and MODES[f["occ"]] not in modes:
                    res.bad("%s %s items" % (short(r), e["w"]), "%s: not every occurrence of %s is checked" % (short(r), e["w"]), place)
    # the text checks inside optional elements are exact conditions (C06, C07): they never depend on the configuration
    return res


def c09(W):
    res = Result("C09")
    problems(W, "C09", res)
    for R in W.profile.values():
        res.ob(len(R["checks"]) + len(R["nested"]))
    return res


def c10(W):
    res = Result("C10")
    problems(W, "C10", res)
    for R in W.profile.values():
        res.ob(len(R["checks"]))
        for x in R["checks"]:
            if x["kind"] == "other":
                res.bad("%s code %s" % (short(R["type"]), x["arg"]), "%s: error %s belongs to no published constraint" % (short(R["type"]), x["arg"]), "%s:%s" % (R["file"], R["line"]))
    # what the collector does with the errors it is given
    import rules_err
    if rules_err.EC in W.F.adts:
        rules_err.collector(W, res)
    else:
        res.bad("missing " + rules_err.EC, "%s is gone" % rules_err.EC)
    return res


def c11(W):
    res = Result("C11")
    problems(W, "C11", res)
    sat = {}
    for t, R in sorted(W.profile.items()):
        if R["undecided"]:
            continue
        per = {}
        for x in R["checks"]:
            if x["f"] >= 0:
                per.setdefault((x["f"], x["mode"]), {}).setdefault(x["kind"], set()).add(x["arg"])
        sh = W.schema.shape(t) if t in W.F.adts else None
        for (f, m), k in per.items():
            res.ob()
            w = sh.fields[f]["w"] if sh and f < len(sh.fields) else str(f)
            lo, hi = max(k.get("min", {0})), min(k.get("max", {None}), key=lambda v: (v is None, v))
            place = "%s:%s" % (R["file"], R["line"])
            if hi is not None and lo > hi:
                res.bad("%s %s range" % (short(t), w), "%s: %s must have at least %d and at most %d characters" % (short(t), w, lo, hi), place)
                continue
            pats = tuple(sorted(k.get("pat", ())))
            key = (pats, lo, hi)
            if key not in sat:
                sat[key] = satisfiable(pats, lo, hi)
            okk, why = sat[key]
            if okk is False:
                res.bad("%s %s sat" % (short(t), w), "%s: no value of %s can be valid: %s" % (short(t), w, why), place)
            elif okk is None:
                res.unsure("%s %s" % (short(t), w), why)
    res.count("distinct constraint combinations", len(sat))
    return res


def satisfiable(pats, lo, hi):
    asts = []
    for p in pats:
        v, why = rx.validity(p)
        if v is False:
            return False, "invalid pattern %s (%s)" % (p, why)
        if v is None:
            return None, why
        try:
            asts.append(rx.search_core(p))
        except rx.Unknown as ex:
            return None, str(ex)
    if not asts:
        return True, ""
    w = rx.witness(asts, lo, hi)
    if w is None:
        return False, "no text of %s to %s characters matches %s" % (lo, hi, " and ".join(pats))
    return True, w


def c12_types(W, res):
    prs, _ = pairs(W)
    roots_missing(W, res)
    seen = set()
    for r, c, p in prs:
        if c in seen:
            continue
        seen.add(c)
        shape_odd(W, c, res)


def shape_odd(W, c, res, skip=()):
    sh = W.schema.shape(c)
    res.count("types")
    res.ob(max(1, len(sh.fields) + len(sh.variants)))
    for where, what in sh.odd:
        if odd_prop(sh.kind, what, where) == "C12":
            res.bad("%s %s %s" % (short(c), where, what.split("=")[0].strip()), "%s.%s: %s" % (short(c), where, what), W.place(c))
    if sh.kind == "struct":
        byw = {}
        for f in sh.fields:
            if f["w"] in byw:
                res.bad("%s %s twice" % (short(c), f["w"]), "%s: two fields share the name %s" % (short(c), f["w"]), W.place(c))
            byw[f["w"]] = 1
            if f["leaf"].startswith(("odd:", "ext:")) and f["leaf"] not in skip:
                res.bad("%s %s type" % (short(c), f["w"]), "%s: %s holds %s, which is not an element type" % (short(c), f["w"], f["leaf"][4:]), W.place(c))
    elif sh.kind == "tuple":
        res.bad("%s kind" % short(c), "%s has no named elements" % short(c), W.place(c))


# ---------------------------------------------------------------- subsumption of one schema by another
def carries(W, big, small, path="", seen=None, out=None):
    """what a value of `small` (type) can hold that `big` cannot carry -> [(path, what)]"""
    seen = set() if seen is None else seen
    out = [] if out is None else out
    if (big, small) in seen:
        return out
    seen.add((big, small))
    B, A = W.schema.shape(big), W.schema.shape(small)
    if A.kind == "enum" and B.kind == "enum":
        bw = {v["w"] for v in B.variants}
        for v in A.variants:
            if v["w"] not in bw:
                out.append((path, "code %s" % v["w"]))
        return out
    if A.kind != B.kind:
        out.append((path, "%s instead of %s" % (B.kind, A.kind)))
        return out
    bw = {f["w"]: f for f in B.fields}
    aw = {f["w"]: f for f in A.fields}
    for f in A.fields:
        q = path + "/" + f["w"]
        g = bw.get(f["w"])
        if g is None:
            out.append((q, "missing"))
            continue
        if f["occ"] in ("vec", "optvec") and g["occ"] in ("req", "opt"):
            out.append((q, "only one occurrence"))
        if f["occ"] in ("opt", "optvec") and g["occ"] in ("req", "vec"):
            out.append((q, "mandatory"))
        if f["t"] and g["t"]:
            carries(W, g["t"], f["t"], q, seen, out)
        elif f["leaf"] != g["leaf"]:
            # text carries any code
            if not (g["leaf"] == "text" and f["t"] and W.schema.shape(f["t"]).kind == "enum"):
                out.append((q, "%s instead of %s" % (kind(W, g), kind(W, f))))
    for g in B.fields:
        if g["w"] not in aw and g["occ"] in ("req", "vec"):
            out.append((path + "/" + g["w"], "mandatory"))
    return out


def kind(W, f):
    if f["t"]:
        return "code" if W.schema.shape(f["t"]).kind == "enum" else "structure"
    return f["leaf"]


def envelope_types(W):
    """-> (header type, {variant name: (element, payload type)}) of the message envelope"""
    F, S = W.F, W.schema
    m = S.shape("mx_envelope::MxMessage")
    hdr = doc = None
    for f in m.fields:
        if f["w"] == "AppHdr":
            hdr = f["t"]
        if f["w"] == "Document":
            doc = f["t"]
    d = S.shape(doc)
    return hdr, {v["name"]: (v["w"], v["fields"][0][2]) for v in d.variants if v["fields"]}, doc


def c26(W):
    res = Result("C26")
    hdr, _, _ = envelope_types(W)
    if hdr is None:
        res.bad("envelope", "the envelope has no AppHdr element")
        return res
    heads = [r for r in W.ref["roots"] if r.startswith("header::")]
    for h in heads:
        cur = h if h in W.F.adts else find_root(W, h)
        res.count("headers")
        if cur is None:
            res.bad("root " + h, "%s is gone" % h)
            continue
        res.ob()
        for q, what in carries(W, hdr, cur):
            res.bad("%s %s %s" % (short(h).split("::")[0], q, what), "envelope header cannot carry %s of %s: %s" % (q, short(h).split("::")[0], what), W.place(hdr))
    return res


VARIANTS = {}


def c27(W):
    res = Result("C27")
    _, docs, _ = envelope_types(W)
    bymod = {t.rsplit("::", 1)[0]: t for (_, t) in docs.values() if t}
    for r in W.ref["roots"]:
        if not r.startswith("document::"):
            continue
        mod = r.rsplit("::", 1)[0]
        if mod.rsplit("_", 1)[-1].isdigit():
            continue
        base = mod.rsplit("_", 1)[0]
        res.count("variants")
        cur = r if r in W.F.adts else find_root(W, r)
        if cur is None:
            res.bad("root " + r, "%s is gone" % r)
            continue
        if base not in bymod:
            res.bad("base " + base, "no envelope payload for %s" % base)
            continue
        res.ob()
        for q, what in carries(W, bymod[base], cur):
            res.bad("%s %s %s" % (short(mod), q, what), "the envelope's payload cannot carry %s of %s: %s" % (q, short(mod), what), W.place(bymod[base]))
    return res
