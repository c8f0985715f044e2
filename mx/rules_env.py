"""C02, C03, C12, C13, C14: what travels between envelope text, JSON text and typed messages."""
from common import Result
from runs import run, table, guard_not, is_err, is_ok, okval, known, place, show_conj
from term import *
import envio, shape
import rules_schema as rs
from rules_reg import types, registry, NS, DECL, at, WSA, errs, gives, same, jo

TO_XML = "mx_envelope::MxMessage::to_xml"
FROM_XML = "mx_envelope::MxMessage::from_xml"
TO_JSON = "mx_envelope::MxMessage::to_json"
FROM_JSON = "mx_envelope::MxMessage::from_json"
VIA = "xml::xml_to_json_via_document"
MX = "mx_envelope::MxMessage"
SER = ("quick_xml::se::to_string", "quick_xml::se::to_string_with_root", "serde_json::to_value", "serde_json::to_string",
       "serde_json::to_string_pretty", "serde_json::from_str", "serde_json::from_value") + envio.DE


def cur(W, t):
    return t if t in W.F.adts else rs.find_root(W, t)


class Env:
    """the envelope as the compiler sees it, lined up with the 25 supported types"""

    def __init__(self, W, res):
        self.W = W
        self.ok = False
        if MX not in W.F.adts:
            res.bad("missing " + MX, "%s is gone" % MX)
            return
        self.hdr, self.docs, self.doc = rs.envelope_types(W)
        if self.hdr is None or self.doc is None:
            res.bad("envelope", "the envelope no longer has AppHdr and Document elements", W.place(MX))
            return
        d = W.schema.shape(self.doc)
        self.index = {v["name"]: i for i, v in enumerate(d.variants)}
        self.of = {}     # short -> (type record, variant index, payload type)
        byp = {t: (v, e) for v, (e, t) in self.docs.items()}
        for t in types(W):
            p = cur(W, t["payload"])
            res.ob()
            if p is None:
                res.bad("payload " + t["short"], "the payload type of %s is gone: %s" % (t["short"], t["payload"]))
            elif p not in byp:
                res.bad("variant " + t["short"], "no Document variant holds the payload type of %s" % t["short"], W.place(self.doc))
            else:
                v, e = byp[p]
                if e != t["element"]:
                    res.bad("rename " + t["short"], "the Document variant of %s is keyed %s instead of %s in JSON" % (t["short"], e, t["element"]), W.place(self.doc))
                self.of[t["short"]] = (t, self.index[v], p)
        m = W.schema.shape(MX)
        self.mf = {f["w"]: i for i, f in enumerate(m.fields)}
        self.ok = all(x in self.mf for x in ("AppHdr", "Document", "@xmlns", "@xmlns:xsi"))
        if not self.ok:
            res.bad("envelope fields", "the envelope's fields are %s" % sorted(self.mf), W.place(MX))

    def message(self, i, hdr, doc, a, b):
        fs = [None] * len(self.mf)
        fs[self.mf["AppHdr"]] = hdr
        fs[self.mf["Document"]] = agg(self.doc, i, (doc,))
        fs[self.mf["@xmlns"]] = a
        fs[self.mf["@xmlns:xsi"]] = b
        return agg(MX, 0, fs)

    def part(self, m, w):
        return fld(m, None, self.mf[w]) if m.op != "agg" else m.a[2][self.mf[w]]


def io_literal(l):
    """a condition on the outcome of reading or writing by the serialization library"""
    t = l[0]
    return t.op == "discr" and t.a[0].op == "call" and t.a[0].a[0] in SER


io_literal_or = io_literal


# ------------------------------------------------------------------ texts
def enveloped(io, el, H, P, open_=None):
    """enveloped texts of a message whose Document holds <el>: (name, text, namespace values or None)"""
    hc, dc = io.atom(H, None, "header content"), io.atom(P, None, "payload content")
    w = lambda i: at("space %d" % i, WSA)
    el = S(el) if isinstance(el, str) else el
    yield "plain", concat(S("<Envelope><AppHdr>"), hc, S("</AppHdr><Document><"), el, S(">"), dc, S("</"), el, S("></Document></Envelope>")), hc, dc
    yield "decorated", concat(
        DECL, w(0), S('<Envelope xmlns="'), at("namespace"), S('" xmlns:xsi="'), at("second namespace"), S('">'), w(1),
        S('<AppHdr xmlns="'), at("header namespace"), S('">'), w(2), hc, w(3), S("</AppHdr>"), w(4),
        S('<Document xmlns="'), at("document namespace"), S('">'), w(5), S("<"), el, S(">"), w(6), dc, w(7), S("</"), el, S(">"), w(8),
        S("</Document>"), w(9), S("</Envelope>"), w(10)), hc, dc
    yield "attributes on the payload", concat(
        S("<Envelope>"), w(1), S("<AppHdr>"), hc, S("</AppHdr><Document><"), el, S(' xmlns="'), at("payload namespace"), S('">'), dc,
        S("</"), el, S("></Document></Envelope>")), hc, dc
    yield "line breaks inside tags", concat(
        S('<Envelope\n  xmlns="'), at("namespace"), S('">\n<AppHdr\n\txmlns="'), at("header namespace"), S('">'), hc, S('</AppHdr>\r\n<Document\r\n  xmlns="'),
        at("document namespace"), S('">\n<'), el, S('\n\txmlns="'), at("payload namespace"), S('">'), dc, S("</"), el, S(">\n</Document></Envelope>")), hc, dc
    yield "other root", concat(S("<BusinessMessage>"), w(0), S("<AppHdr>"), hc, S("</AppHdr>"), w(1), S("<Document><"), el, S(">"), dc,
                               S("</"), el, S("></Document>"), w(2), S("</BusinessMessage>")), hc, dc


def bare(io, el, P):
    dc = io.atom(P, None, "payload content")
    w = lambda i: at("space %d" % i, WSA)
    el = S(el) if isinstance(el, str) else el
    yield "plain", concat(S("<Document><"), el, S(">"), dc, S("</"), el, S("></Document>")), dc
    yield "decorated", concat(DECL, w(0), S('<Document xmlns="'), at("namespace"), S('">'), w(1), S("<"), el, S(">"), w(2), dc, w(3), S("</"), el, S(">"),
                              w(4), S("</Document>"), w(5)), dc
    yield "line breaks inside tags", concat(S('<Document\n\txmlns="'), at("namespace"), S('">\n<'), el, S('\n xmlns="'), at("payload namespace"), S('">'), dc,
                                            S("</"), el, S(">\n</Document>")), dc
    yield "attributes", concat(w(0), S('<Document xmlns="'), at("namespace"), S('" xmlns:xsi="'), at("second namespace"), S('">'), w(1), S("<"), el,
                               S(' xmlns="'), at("payload namespace"), S('">'), dc, S("</"), el, S(">"), S("</Document>")), dc


def holds(text, content, io):
    """is the text one element holding exactly that content?  True / False / None"""
    if not shape.textual(text):
        return None
    try:
        ns = shape.solid(shape.markup(text))
    except shape.Malformed:
        return False
    ns = [n for n in ns if n[0] != "decl"]
    if len(ns) != 1 or ns[0][0] != "el":
        return False
    ch = shape.solid(ns[0][3])
    return len(ch) == 1 and ch[0] == ("content", content)


def altered(t):
    """operations on message text that may change content"""
    return [x for x in subterms(t) if x.op in ("replace", "replacen", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase",
                                               "unescape", "jtext") or (x.op == "call" and ("escape" in x.a[0] or "replace" in x.a[0]))]


def short_fn(k):
    return k.rsplit("::", 1)[-1]


# ------------------------------------------------------------------ C02
def decode_ok(E, i, P, io, hc, dc, whole=True):
    """from_xml's success value must be the decoded header and the decoded payload, nothing else"""
    def want(r, c):
        if is_err(r):
            # only because reading failed
            return True if any(io_literal(l) and l[2] == 1 for l in c) else False if not c else None
        if not is_ok(r):
            return None
        m = okval(r)
        d, h = E.part(m, "Document"), E.part(m, "AppHdr")
        if d.op != "agg":
            return None
        if d.a[1] != i:
            return False
        x, y = envio.decoded(d.a[2][0]), envio.decoded(h)
        if x is None or y is None:
            return False if known(d) and known(h) else None
        if P not in x[0] or E.hdr not in y[0]:
            return False
        a, b = holds(x[1], dc, io), holds(y[1], hc, io)
        if a is None or b is None:
            return None
        return a and b
    want.two = True
    return want


def c02(W):
    res = Result("C02")
    E = Env(W, res)
    if not E.ok:
        return res
    io = envio.IO(W)
    ts = types(W)
    from_rows(W, res, E, ts, "route")
    # an element that is not registered is never decoded
    a = at("element name", shape.Lacks(shape.NAMELACKS, solid=True, avoid=("Document", "AppHdr", "Envelope")))
    g = guard_not(a, [x for t in ts for x in (t["element"], t["rust"])])
    for n, x, _, _ in enveloped(io, a, E.hdr, E.of[ts[0]["short"]][2]):
        table(W, res, FROM_XML, "unregistered element, " + n, run(W, FROM_XML, {0: x}, io=envio.IO(W), g=g), errs, io_literal)
    for t in ts:
        if t["short"] not in E.of:
            continue
        _, i, P = E.of[t["short"]]
        # writing
        io = envio.IO(W)
        v, h = mk("sym", "payload"), mk("sym", "header")
        r = run(W, TO_XML, {0: E.message(i, h, v, NONE, NONE)}, io=io)
        table(W, res, TO_XML, t["short"], r, writes(t["element"], P, v, io), io_literal)
        # namespace
        dv = agg(E.doc, i, (mk("sym", "payload"),))
        table(W, res, "mx_envelope::Document::namespace", t["short"], run(W, "mx_envelope::Document::namespace", {0: dv}), same(S(NS + t["full"])))
        res.count("types")
    json_plain(W, res)
    return res


def from_rows(W, res, E, ts, what):
    for t in ts:
        if t["short"] not in E.of:
            continue
        _, i, P = E.of[t["short"]]
        io = envio.IO(W)
        for n, x, hc, dc in enveloped(io, t["element"], E.hdr, P):
            res.count("texts")
            r = run(W, FROM_XML, {0: x}, io=io)
            okay = table(W, res, FROM_XML, "%s %s" % (t["short"], n), r, decode_ok(E, i, P, io, hc, dc), io_literal)
            if r is not None and not any(is_ok(y) for _, y, _ in r):
                res.bad("%s %s never" % (t["short"], n), "from_xml never accepts a %s message (%s text)" % (t["short"], n), place(W, FROM_XML))


def writes(el, P, v, io):
    def want(r, c):
        if is_err(r):
            return True if any(io_literal(l) and l[2] == 1 for l in c) else False if not c else None
        if not is_ok(r):
            return None
        try:
            ns = shape.markup(okval(r))
        except shape.Malformed as ex:
            return None
        d = [x for x in find_all(ns, "Document")]
        if len(d) != 1:
            return False
        ch = shape.solid(d[0][3])
        if len(ch) != 1 or ch[0][0] != "el" or ch[0][1] != el:
            return False
        in_ = shape.solid(ch[0][3])
        if len(in_) != 1 or in_[0][0] != "content":
            return False
        return io.content.get(in_[0][1]) == (P, v)
    want.two = True
    return want


def find_all(ns, name):
    for x in ns:
        if x[0] == "el":
            if x[1] == name:
                yield x
            else:
                yield from find_all(x[3], name)


def json_plain(W, res):
    """the JSON form of the envelope is the derived one, of the whole message"""
    a = mk("sym", "message")
    r = run(W, TO_JSON, {0: a})

    def tj(x, c):
        if is_err(x):
            return True if any(io_literal(l) and l[2] == 1 for l in c) else False if not c else None
        v = okval(x)
        if v is None:
            return None
        if v.op == "fld" and v.a[1:] == (0, 0) and v.a[0].op == "call" and v.a[0].a[0] in ("serde_json::to_string", "serde_json::to_string_pretty"):
            return v.a[0].a[2][0] is a
        # through the JSON value of the whole message
        cs = [y for y in subterms(v) if y.op == "call" and y.a[0].startswith("serde_json::")]
        if v.op == "jtext" and v.a[0].op == "fld" and v.a[0].a[0].op == "call" and v.a[0].a[0].a[0] == "serde_json::to_value":
            return v.a[0].a[0].a[2][0] is a
        if cs and any(y.op in ("mapins", "mapdel", "replace", "call") and y not in cs for y in subterms(v)):
            return False
        return None
    tj.two = True
    table(W, res, TO_JSON, "whole message", r, tj, io_literal)
    tx = mk("sym", "text")
    r = run(W, FROM_JSON, {0: tx})

    def fj(x, c):
        if is_err(x):
            return True if any(io_literal(l) and l[2] == 1 for l in c) else False if not c else None
        v = okval(x)
        if v is None:
            return None
        if v.op == "fld" and v.a[1:] == (0, 0) and v.a[0].op == "call" and v.a[0].a[0] in ("serde_json::from_str", "serde_json::from_value", "serde_json::from_slice"):
            y = v.a[0]
            if MX not in y.a[1]:
                return None
            src = y.a[2][0]
            if src.op == "bytes":
                src = src.a[0]
            if src is tx:
                return True
            if src.op == "fld" and src.a[0].op == "call" and src.a[0].a[0] == "serde_json::from_str" and src.a[0].a[2][0] is tx:
                return True
            return False if altered(src) else None
        return None
    fj.two = True
    table(W, res, FROM_JSON, "whole message", r, fj, io_literal)


# ------------------------------------------------------------------ C03
def via_ok(el, P, dc, io):
    def want(r, c):
        if is_err(r):
            return True if any(io_literal(l) and l[2] == 1 for l in c) else False if not c else None
        if not is_ok(r):
            return None
        o = envio.jobj(okval(r))
        if o is None:
            return None
        if set(o) != {"Document"}:
            return False
        o = envio.jobj(o["Document"])
        if o is None:
            return None
        if set(o) != {el}:
            return False
        v = o[el]
        if not (v.op == "fld" and v.a[1:] == (0, 0) and v.a[0].op == "call" and v.a[0].a[0] == "serde_json::to_value"):
            return False if known(v) else None
        if v.a[0].a[1] and P not in [x.lstrip("&") for x in v.a[0].a[1]]:
            return False
        x = envio.decoded(v.a[0].a[2][0])
        if x is None:
            return False if known(v.a[0].a[2][0]) else None
        if P not in x[0]:
            return False
        return holds(x[1], dc, io)
    want.two = True
    return want


def c03(W):
    res = Result("C03")
    E = Env(W, res)
    if not E.ok:
        return res
    ts = types(W)
    for t in ts:
        if t["short"] not in E.of:
            continue
        _, i, P = E.of[t["short"]]
        io = envio.IO(W)
        for n, x, dc in bare(io, t["element"], P):
            res.count("texts")
            r = run(W, VIA, {0: x, 1: S(t["short"])}, io=io)
            table(W, res, VIA, "%s %s" % (t["short"], n), r, via_ok(t["element"], P, dc, io), io_literal)
            if r is not None and not any(is_ok(y) for _, y, _ in r):
                res.bad("%s %s never" % (t["short"], n), "a bare Document of %s is never accepted (%s text)" % (t["short"], n), place(W, VIA))
        # the full identifier: refused, or read in the same way
        for n, x, dc in bare(io, t["element"], P):
            r = run(W, VIA, {0: x, 1: S(t["full"])}, io=io)
            table(W, res, VIA, "%s %s" % (t["full"], n), r, or_err(via_ok(t["element"], P, dc, io)), io_literal)
        res.count("types")
    a = mk("sym", "identifier")
    g = guard_not(a, [x for t in ts for x in (t["short"], t["full"])])
    io = envio.IO(W)
    for n, x, dc in bare(io, ts[0]["element"], E.of[ts[0]["short"]][2]):
        table(W, res, VIA, "unsupported identifier, " + n, run(W, VIA, {0: x, 1: a}, io=io, g=g), errs, io_literal)
    for s in ("pacs.999", "", "camt.027", "PACS.008", "pacs.008 ", "camt.026", "Unknown"):
        for n, x, dc in bare(io, ts[0]["element"], E.of[ts[0]["short"]][2]):
            table(W, res, VIA, "%r %s" % (s, n), run(W, VIA, {0: x, 1: S(s)}, io=io), errs, io_literal)
    return res


def or_err(w):
    def want(r, c):
        return True if is_err(r) else w(r, c)
    want.two = True
    return want


# ------------------------------------------------------------------ C12
def c12(W):
    res = Result("C12")
    rs.c12_types(W, res)
    E = Env(W, res)
    if not E.ok:
        return res
    for c in (MX, E.doc):
        rs.shape_odd(W, c, res)
    sh = W.schema.shape(MX)
    for f in sh.fields:
        res.ob()
        want = {"AppHdr": "req", "Document": "req", "@xmlns": "opt", "@xmlns:xsi": "opt"}.get(f["w"])
        if want is None:
            res.bad("envelope " + f["w"], "the envelope has an unexpected field %s" % f["w"], W.place(MX))
        elif f["occ"] != want:
            res.bad("envelope occ " + f["w"], "the envelope's %s is %s instead of %s" % (f["w"], f["occ"], want), W.place(MX))
    json_plain(W, res)
    # what is handed to the writer is the message's own header and payload; what is returned is what was read
    for t in types(W):
        if t["short"] not in E.of:
            continue
        _, i, P = E.of[t["short"]]
        io = envio.IO(W)
        v, h = mk("sym", "payload"), mk("sym", "header")
        r = run(W, TO_XML, {0: E.message(i, h, v, NONE, NONE)}, io=io)
        res.count("writers")
        for ty, x in io.wrote:
            res.ob()
            if x is not v and x is not h:
                res.bad("written " + t["short"], "to_xml writes %s instead of the message's own %s" % (show(x)[:200], "header" if ty == E.hdr else "payload"), place(W, TO_XML))
        for n, x, hc, dc in enveloped(io, t["element"], E.hdr, P):
            r = run(W, FROM_XML, {0: x}, io=io)
            table(W, res, FROM_XML, "%s %s" % (t["short"], n), r, as_read(E), io_literal)
        for n, x, dc in bare(io, t["element"], P):
            r = run(W, VIA, {0: x, 1: S(t["short"])}, io=io)
            table(W, res, VIA, "%s %s" % (t["short"], n), r, as_json(), io_literal)
    messages(W, res, E, types(W), False)
    return res


def as_read(E):
    def want(r):
        if not is_ok(r):
            return True
        m = okval(r)
        d, h = E.part(m, "Document"), E.part(m, "AppHdr")
        if d.op != "agg" or not d.a[2]:
            return None
        for x in (d.a[2][0], h):
            if envio.decoded(x) is None:
                return False if x.op in ("upd", "agg") else None
        return True
    return want


def as_json():
    def want(r):
        if not is_ok(r):
            return True
        o = envio.jobj(okval(r))
        o = envio.jobj(o["Document"]) if o and "Document" in o else None
        if not o or len(o) != 1:
            return None
        v = list(o.values())[0]
        if v.op == "fld" and v.a[0].op == "call" and v.a[0].a[0] == "serde_json::to_value":
            return envio.decoded(v.a[0].a[2][0]) is not None or (False if v.a[0].a[2][0].op in ("upd", "agg") else None)
        return False if v.op in ("mapins", "mapdel", "upd") else None
    return want


# ------------------------------------------------------------------ C13
def c13(W):
    res = Result("C13")
    E = Env(W, res)
    if not E.ok:
        return res
    for t in types(W):
        if t["short"] not in E.of:
            continue
        _, i, P = E.of[t["short"]]
        for x in (P, E.hdr):
            io = envio.IO(W)
            if not io.plain(x):
                res.unsure("%s form" % rs.short(x), "the written form of %s is not one element with child elements only" % rs.short(x))
        io = envio.IO(W)
        v, h = mk("sym", "payload"), mk("sym", "header")
        r = run(W, TO_XML, {0: E.message(i, h, v, some(at("namespace value", ANYTEXT)), NONE)}, io=io)
        res.count("writers")
        table(W, res, TO_XML, t["short"], r, intact(io, {(P, v), (E.hdr, h)}), io_literal)
        io = envio.IO(W)
        for n, x, hc, dc in enveloped(io, t["element"], E.hdr, P):
            io.read.clear()
            run(W, FROM_XML, {0: x}, io=io)
            reads(W, res, FROM_XML, "%s %s" % (t["short"], n), io, (hc, dc))
        for n, x, dc in bare(io, t["element"], P):
            io.read.clear()
            run(W, VIA, {0: x, 1: S(t["short"])}, io=io)
            reads(W, res, VIA, "%s %s" % (t["short"], n), io, (dc,))
    import rules_plugin as rp
    rp.text_kept(W, res, ("Parse", "Validate"))
    rp.published(W, res)
    return res


ANYTEXT = shape.Lacks("", nonempty=False)


def intact(io, want):
    """the written text is constants plus the serialized parts, each whole and once"""
    def f(r):
        if not is_ok(r):
            return True
        t = okval(r)
        al = [x for x in altered(t) if any(y.op == "atom" and y in io.content for y in subterms(x)) ]
        if al:
            return False
        if not shape.shaped(t):
            return None
        its = [x for x in shape.items(t)[0] if not isinstance(x, str) and x in io.content]
        got = [io.content[x] for x in its]
        return len(got) == len(want) and set(got) == want
    return f


def reads(W, res, fn, what, io, contents):
    for ty, x in io.read:
        res.ob()
        res.count("reads")
        al = altered(x)
        if al:
            res.bad("%s %s" % (short_fn(fn), what), "%s decodes a text in which content may have been changed: %s" % (fn, show(al[0])[:200]), place(W, fn))
            continue
        if not shape.textual(x):
            res.unsure("%s %s" % (short_fn(fn), what), "the decoded text is not of known shape: %s" % show(x)[:200])
            continue
        if not any(holds(x, c, io) for c in contents):
            res.bad("%s %s" % (short_fn(fn), what), "%s decodes %s, which is not the received element with its whole content" % (fn, show(x)[:200]), place(W, fn))


# ------------------------------------------------------------------ C14
def c14(W):
    res = Result("C14")
    E = Env(W, res)
    if not E.ok:
        return res
    messages(W, res, E, types(W), True)
    return res


def messages(W, res, E, ts, form):
    """write a message with every combination of declarations, then read the written text back"""
    X, Y = at("xmlns value", ANYTEXT), at("xsi value", shape.Lacks(""  , nonempty=False))
    for t in ts:
        if t["short"] not in E.of:
            continue
        _, i, P = E.of[t["short"]]
        v, h = mk("sym", "payload"), mk("sym", "header")
        for a in (NONE, some(X)):
            for b in (NONE, some(Y)):
                io = envio.IO(W)
                m = E.message(i, h, v, a, b)
                r = run(W, TO_XML, {0: m}, io=io)
                case = "%s%s%s" % (t["short"], " xmlns" if a is not NONE else "", " xsi" if b is not NONE else "")
                res.count("messages")
                okk = True
                if form:
                    okk = table(W, res, TO_XML, case, r, envelope(io, E, t["element"], (P, v), (E.hdr, h), a, b), io_literal)
                if r is None:
                    return
                for _, x, _ in r:
                    if is_ok(x) and okk:
                        r2 = run(W, FROM_XML, {0: okval(x)}, io=io)
                        table(W, res, FROM_XML, "back " + case, r2, gives_message(m), io_literal)


def gives_message(m):
    def f(r):
        if is_ok(r):
            x = okval(r)
            if x is m:
                return True
            return False if known(x) else None
        return False if is_err(r) else None
    return f


def envelope(io, E, el, pay, hdr, a, b):
    def want(r):
        if is_err(r):
            return True
        if not is_ok(r):
            return None
        t = okval(r)
        if not shape.textual(t):
            return False if raw_attr(t) else None
        try:
            ns = shape.solid(shape.markup(t))
        except shape.Malformed as ex:
            return False
        if len(ns) != 2 or ns[0][0] != "decl" or not ns[0][1].startswith("<?xml ") or ns[1][0] != "el" or ns[1][1] != "Envelope":
            return False
        want_at = {}
        if a is not NONE:
            want_at["xmlns"] = a.a[2][0]
        if b is not NONE:
            want_at["xmlns:xsi"] = b.a[2][0]
        at_ = dict(ns[1][2])
        if set(at_) != set(want_at):
            return False
        for k, x in at_.items():
            if not (x.op == "call" and x.a[0].startswith("quick_xml::escape::") and x.a[2][0] is want_at[k]):
                return False if shape.shaped(x) else None
        ch = shape.solid(ns[1][3])
        if [c[1] if c[0] == "el" else c[0] for c in ch] != ["AppHdr", "Document"]:
            return False
        h = shape.solid(ch[0][3])
        if len(h) != 1 or h[0][0] != "content" or io.content.get(h[0][1]) != hdr:
            return False
        d = shape.solid(ch[1][3])
        if len(d) != 1 or d[0][0] != "el" or d[0][1] != el:
            return False
        d = shape.solid(d[0][3])
        return len(d) == 1 and d[0][0] == "content" and io.content.get(d[0][1]) == pay
    return want


def raw_attr(t):
    return False
