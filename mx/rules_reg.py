"""C01 (registry and lookups), C25 (type detection)."""
import json, os
from common import Result
from runs import run, table, guard_not, is_err, is_ok, okval, known, place
from term import *
import shape

NS = "urn:iso:std:iso:20022:tech:xsd:"


def registry(W):
    r = getattr(W, "_registry", None)
    if r is None:
        with open(os.path.join(W.refdir, "registry.json")) as f:
            r = W._registry = json.load(f)
    return r


def types(W):
    return registry(W)["types"]


def lookups():
    """function -> (kind of name accepted, value for a type's entry, value for an unknown name)"""
    norm = ("id", lambda t: S(t["short"]), lambda a: a)
    ns = ("id", lambda t: S(NS + t["full"]), lambda a: concat(S(NS), a))
    none = lambda a: NONE
    return {
        "message_registry::normalize_message_type": norm,
        "mx_envelope::normalize_message_type": norm,
        "message_registry::get_namespace": ns,
        "mx_envelope::get_namespace_for_message_type": ns,
        "message_registry::element_to_message_type": ("el", lambda t: some(S(t["short"])), none),
        "message_registry::message_type_to_element": ("id", lambda t: some(S(t["element"])), none),
        "message_registry::message_type_to_rust_type": ("id", lambda t: some(S(t["rust"])), none),
        "message_registry::get_full_form": ("id", lambda t: some(S(t["full"])), none),
    }


def spellings(t, kind):
    return (t["short"], t["full"]) if kind == "id" else (t["element"], t["rust"])


def strange_names(ts, kind):
    """names that are close to an accepted one but are not accepted"""
    out = ["", " ", ".", "x", "pacs", "pacs.", "pacs.999", "pacs.999.001.01", "xyzw.001.001.01", "Unknown", "Document", "AppHdr"]
    for t in ts:
        s, f, e, r = t["short"], t["full"], t["element"], t["rust"]
        if kind == "id":
            out += [s.upper(), s + " ", " " + s, s[:-1], s + ".", s + ".001", f[:-3], f + ".1", f[:-1], f.upper(), f + " ", " " + f,
                    s + ".001.99", s + ".002." + f[-2:], s.replace(".", ""), "x" + s, NS + f, e, r, f.replace(".", "_")]
        else:
            out += [e.lower(), e + " ", " " + e, e[:-1], e + "X", "x" + e, "ns:" + e, r[:-3], r.lower(), r + " ", r[:-1], e.upper(), s, f]
    ok_ = {x for t in ts for x in spellings(t, kind)}
    return [x for x in dict.fromkeys(out) if x not in ok_]


def c01(W):
    res = Result("C01")
    ts = types(W)
    # the published table itself
    c = W.F.consts.get("message_registry::MESSAGE_REGISTRY")
    rows = read_table(c["v"]) if c else None
    if rows is not None:
        want = {(t["short"], t["full"], t["rust"], t["element"]) for t in ts}
        for x in rows:
            res.ob()
            if x not in want:
                res.bad("entry " + x[0] + " " + x[3], "the registry has an entry %s that is not one of the 25 supported types" % (x,), "src/message_registry.rs")
        for x in want - set(rows):
            res.bad("no entry " + x[0], "the registry has no entry %s" % (x,), "src/message_registry.rs")
        for i, n in enumerate(("short identifier", "full identifier", "type name", "element name")):
            seen = set()
            for x in rows:
                res.ob()
                if x[i] in seen:
                    res.bad("twice %s" % x[i], "two entries share the %s %s" % (n, x[i]), "src/message_registry.rs")
                seen.add(x[i])
    res.count("registry entries", len(rows or ()))
    for fn, (kind, val, other) in lookups().items():
        res.count("lookups")
        if fn not in W.F.bodies:
            res.bad("missing " + fn, "%s is gone" % fn)
            continue
        for t in ts:
            for a in spellings(t, kind):
                r = run(W, fn, {0: S(a)})
                table(W, res, fn, a, r, same(val(t)), why=" instead of " + show(val(t)))
        a = mk("sym", "name")
        r = run(W, fn, {0: a}, g=guard_not(a, [x for t in ts for x in spellings(t, kind)]))
        want = same(other(a))
        res.ob()
        res.count("decision tables")
        if r.notes or r.panics or not r.rows or any(want(x) is not True for _, x, _ in r):
            # not settled for all names at once: look for a name that is treated as something else
            n = 0
            for x in strange_names(ts, kind):
                rr = run(W, fn, {0: S(x)})
                if not table(W, res, fn, repr(x), rr, same(other(S(x))), why=" instead of " + show(other(S(x)))):
                    n += 1
            if n == 0:
                res.unsure("%s other" % fn, "the value for names outside the table was not derived")
    return res


def same(want):
    def f(r):
        if r is want:
            return True
        return False if known(r) else None
    return f


def read_table(v):
    """the constant slice of four-text records -> list of tuples"""
    try:
        out = []
        for x in v["ref"]["arr"]:
            y = x["adt"][1]
            out.append(tuple(z["s"] for z in y))
            if len(y) != 4:
                return None
        return out
    except (KeyError, TypeError, IndexError):
        return None


# ---------------------------------------------------------------- C25
LEGACY = {"FinInstnCdtTrf": "pacs.009", "Rct": "camt.025", "ClmNonRct": "camt.027", "ClaimNonReceiptV07": "camt.027"}
JV = "serde_json::Value"


def js(x):
    return agg(JV, 3, (x,))


def jo(d):
    m = agg("map", 0, ())
    for k, v in d.items():
        m = mk("mapins", m, S(k), v)
    return agg(JV, 5, (m,))


JNULL = agg(JV, 0, ())
JNUM = agg(JV, 2, (mk("sym", "number"),))
JBOOL = agg(JV, 1, (mk("sym", "flag"),))
JARR = agg(JV, 4, (mk("sym", "items"),))


class JsonText:
    """serde_json::from_str of one particular text gives one particular value (or fails)"""

    def __init__(self, text, value):
        self.text, self.value = text, value

    def __call__(self, eng, st, f, p, args, rty):
        if p == "serde_json::from_str" and eng.deep(st, args[0]) is self.text:
            return [(st, ok(self.value) if self.value is not None else err(mk("sym", "jsonerror")))]
        return None


def errs(r):
    return True if is_err(r) else False if is_ok(r) else None


def gives(x):
    def f(r):
        if is_ok(r):
            return True if okval(r) is x else False if known(r) else None
        return False if is_err(r) else None
    return f


ATT = shape.Lacks("<>&\"'")
WSA = shape.Lacks("", ws=True)
WSA0 = shape.Lacks("", ws=True, nonempty=False)


def at(name, sp=ATT):
    return shape.atom(name, sp)


DECL = S('<?xml version="1.0" encoding="UTF-8"?>')


def c25(W):
    res = Result("C25")
    ts = types(W)
    peek_xml(W, res, ts)
    peek_json(W, res, ts)
    from_element(W, res, ts)
    from_json_data(W, res, ts)
    from_xml_data(W, res, ts)
    return res


def header_texts(ident):
    """enveloped texts whose header holds the identifier (None: holds none)"""
    before = at("header elements before", shape.Content({"Fr", "To", "BizMsgIdr", "FIId", "FinInstnId", "BICFI", "OrgId", "Id"}))
    after = at("header elements after", shape.Content({"BizSvc", "CreDt", "MktPrctc", "Regy"}))
    doc = at("document content", shape.Content({"GrpHdr", "MsgId", "CdtTrfTxInf", "Amt"}))
    mid = [S("<MsgDefIdr>"), ident, S("</MsgDefIdr>")] if ident is not None else []
    yield "plain", concat(S("<Envelope><AppHdr>"), before, *mid, after, S("</AppHdr><Document><X>"), doc, S("</X></Document></Envelope>"))
    w = lambda i: at("space %d" % i, WSA)
    yield "decorated", concat(DECL, w(0), S('<Envelope xmlns="'), at("namespace"), S('">'), w(1), S('<AppHdr xmlns="'), at("header namespace"), S('">'),
                              w(2), before, w(3), *mid, w(4), after, w(5), S("</AppHdr>"), w(6), S('<Document xmlns="'), at("document namespace"),
                              S('">'), w(7), S("<X>"), doc, S("</X>"), w(8), S("</Document>"), w(9), S("</Envelope>"), w(10))
    yield "first", concat(S("<AppHdr>"), *mid, after, S("</AppHdr><Document><X>"), doc, S("</X></Document>"))
    if ident is not None:
        # the header of a related message comes after the header's own identifier
        yield "with a related header", concat(
            S("<AppHdr>"), before, *mid, w(3), S("<Rltd>"), before, S("<MsgDefIdr>"), at("related identifier", shape.Lacks("<>&", solid=True)),
            S("</MsgDefIdr>"), after, S("</Rltd></AppHdr><Document><X>"), doc, S("</X></Document>"))


def peek_xml(W, res, ts):
    fn = "mx_envelope::peek_message_type_from_xml"
    for t in ts:
        for ident in (t["short"], t["full"]):
            for n, x in header_texts(S(ident)):
                res.count("texts")
                table(W, res, fn, "%s %s" % (ident, n), run(W, fn, {0: x}), gives(S(t["short"])))
    a = at("identifier", shape.Lacks("<>&"))
    g = guard_not(a, [x for t in ts for x in spellings(t, "id")])
    for n, x in header_texts(a):
        table(W, res, fn, "other %s" % n, run(W, fn, {0: x}, g=g), gives(a))
    for n, x in header_texts(None):
        table(W, res, fn, "none %s" % n, run(W, fn, {0: x}), errs)


def peek_json(W, res, ts):
    fn = "mx_envelope::peek_message_type_from_json"
    tx = mk("sym", "text")
    a = mk("sym", "identifier")

    def go(what, v, want, g=GTRUE):
        res.count("documents")
        table(W, res, fn, what, run(W, fn, {0: tx}, io=JsonText(tx, v), g=g), want)
    extra = {"Other": mk("sym", "other")}
    other = guard_not(a, [x for t in ts for x in spellings(t, "id")])
    for t in ts:
        for ident in (t["short"], t["full"]):
            h = jo({"Fr": mk("sym", "fr"), "MsgDefIdr": js(S(ident))})
            go(ident, jo(dict(extra, AppHdr=h)), gives(S(t["short"])))
            go(ident + " in Envelope", jo(dict(extra, Envelope=jo({"AppHdr": h, "Document": mk("sym", "d")}))), gives(S(t["short"])))
            for n, v in (("an empty Envelope", jo({})), ("an Envelope of other things", jo({"Document": mk("sym", "d"), "Header": jo({})})), ("a text as Envelope", js(S("x"))),
                         ("null as Envelope", JNULL)):
                go("%s beside %s" % (ident, n), jo(dict(extra, AppHdr=h, Envelope=v)), gives(S(t["short"])))
            go(ident + " in Envelope, deeper", jo({"Envelope": jo({"Envelope": jo({}), "AppHdr": h})}), gives(S(t["short"])))
    h = jo({"MsgDefIdr": js(a)})
    go("other", jo(dict(extra, AppHdr=h)), gives(a), other)
    go("other in Envelope", jo(dict(extra, Envelope=jo({"AppHdr": h}))), gives(a), other)
    go("invalid JSON", None, errs)
    go("no header", jo(extra), errs)
    go("empty", jo({}), errs)
    go("empty header", jo({"AppHdr": jo({})}), errs)
    go("empty Envelope", jo({"Envelope": jo({})}), errs)
    go("Envelope with an empty header", jo({"Envelope": jo({"AppHdr": jo({})})}), errs)
    for n, v in (("null", JNULL), ("number", JNUM), ("flag", JBOOL), ("array", JARR), ("object", jo({}))):
        go("identifier is a " + n, jo({"AppHdr": jo({"MsgDefIdr": v})}), errs)
        if n != "object":
            go("header is a " + n, jo({"AppHdr": v}), errs)
            go("Envelope is a " + n, jo({"Envelope": v}), errs)
            go("root is a " + n, v, errs)
    i = js(a)
    o = mk("sym", "other")
    for n, v in (("the root", {"MsgDefIdr": i}), ("the root, beside an Envelope", {"MsgDefIdr": i, "Envelope": jo({})}), ("the Envelope", {"Envelope": jo({"MsgDefIdr": i})}),
                 ("the Envelope, beside an empty header", {"Envelope": jo({"MsgDefIdr": i, "AppHdr": jo({})})}),
                 ("the root, beside an empty header", {"MsgDefIdr": i, "AppHdr": jo({})}), ("the Document", {"Document": jo({"MsgDefIdr": i})}),
                 ("the Document of an Envelope", {"Envelope": jo({"Document": jo({"MsgDefIdr": i})})}), ("a header in the Document", {"Document": jo({"AppHdr": jo({"MsgDefIdr": i})})}),
                 ("a header in the header", {"AppHdr": jo({"AppHdr": jo({"MsgDefIdr": i})})}), ("the sender", {"AppHdr": jo({"Fr": jo({"MsgDefIdr": i})})}),
                 ("another member of the header", {"AppHdr": jo({"BizMsgIdr": i, "BizSvc": i})}), ("a lower-case member", {"AppHdr": jo({"msgdefidr": i, "msgDefIdr": i})}),
                 ("a lower-case header", {"apphdr": jo({"MsgDefIdr": i}), "appHdr": jo({"MsgDefIdr": i})}), ("another header", {"Header": jo({"MsgDefIdr": i})}),
                 ("the message type", {"message_type": i, "type": i})):
        for b in ({}, {"Other": o}):
            go("identifier only in " + n, jo(dict(v, **b)), errs)
    go("header is a text", jo({"AppHdr": js(a)}), errs)
    go("root is a text", js(a), errs)


def element_names(ts):
    for t in ts:
        yield t["element"], t["short"]
        yield t["rust"], t["short"]
    for e, s in LEGACY.items():
        yield e, s


def from_element(W, res, ts):
    fn = "plugin::common::map_document_element_to_message_type"
    for e, s in element_names(ts):
        res.count("element names")
        table(W, res, fn, e, run(W, fn, {0: S(e)}), gives(S(s)))
    a = mk("sym", "name")
    table(W, res, fn, "other", run(W, fn, {0: a}, g=guard_not(a, [e for e, _ in element_names(ts)] + sorted(LEGACY))), errs)
    for x in strange_names(ts, "el"):
        if x not in LEGACY:
            table(W, res, fn, repr(x), run(W, fn, {0: S(x)}), errs)


def from_json_data(W, res, ts):
    fn = "plugin::common::extract_message_type"
    a = mk("sym", "name")

    def go(what, v, want, g=GTRUE):
        res.count("documents")
        table(W, res, fn, what, run(W, fn, {0: v}, g=g), want)
    body = mk("sym", "body")
    for e, s in element_names(ts):
        go(e, jo({"AppHdr": mk("sym", "hdr"), "Document": jo({e: body})}), gives(S(s)))
    for t in ts[:3]:
        go("message_type " + t["short"], jo({"message_type": js(S(t["short"]))}), gives(S(t["short"])))
    for x in ("pacs.999", "", "Foo", "document", "fICdtTrf", "camt.027"):
        go("element %r" % x, jo({"Document": jo({x: body})}), errs)
    for n, v in (("null", JNULL), ("number", JNUM), ("flag", JBOOL), ("text", js(a)), ("empty", jo({}))):
        go("Document is a " + n, jo({"Document": v}), errs)
        go("root is a " + n, v, errs)
    go("nothing", jo({"AppHdr": body}), errs)


def doc_texts(name):
    doc = at("payload content", shape.Content({"GrpHdr", "MsgId", "CdtTrfTxInf", "Amt"}))
    w = lambda i: at("space %d" % i, WSA)
    yield "plain", concat(S("<Document><"), name, S(">"), doc, S("</"), name, S("></Document>"))
    yield "decorated", concat(DECL, w(0), S('<Document xmlns="'), at("namespace"), S('">'), w(1), S("<"), name, S('>'), w(2), doc, w(3), S("</"),
                              name, S(">"), w(4), S("</Document>"), w(5))
    yield "attributes", concat(w(0), S('<Document xmlns="'), at("namespace"), S('" xmlns:xsi="'), at("second namespace"), S('">'), w(1), S("<"), name,
                               S(' xmlns="'), at("third namespace"), S('">'), doc, S("</"), name, S("></Document>"))
    for n, c in (("line break", "\n"), ("tab", "\t"), ("line break and carriage return", "\r\n")):
        yield n + " after the names", concat(w(0), S('<Document' + c + 'xmlns="'), at("namespace"), S('">'), w(1), S("<"), name, S(c + 'xmlns="urn:iso:std:iso:20022:tech:xsd:pacs.008.001.08">'),
                                             doc, S("</"), name, S("></Document>"))
    yield "empty element", concat(S('<Document xmlns="'), at("namespace"), S('">'), w(1), S("<"), name, S("/></Document>"))
    yield "prefixed", concat(S("<Document><doc:"), name, S(">"), doc, S("</doc:"), name, S("></Document>"))
    yield "prefixed with attributes", concat(S('<Document xmlns:d="'), at("namespace"), S('"><d:'), name, S(' a="'), at("value"), S('">'), doc, S("</d:"), name, S("></Document>"))


def from_xml_data(W, res, ts):
    fn = "plugin::common::extract_message_type_from_xml"
    for e, s in element_names(ts):
        for n, x in doc_texts(S(e)):
            res.count("texts")
            table(W, res, fn, "%s %s" % (e, n), run(W, fn, {0: x}), gives(S(s)))
    for e in ("Foo", "fICdtTrf", "AppHdr", "FICdtTrfX", "FICdtTr", "camt.027"):
        for n, x in doc_texts(S(e)):
            table(W, res, fn, "%s %s" % (e, n), run(W, fn, {0: x}), errs)
    a = at("element name", shape.Lacks(shape.NAMELACKS + ":", solid=True))
    for n, x in doc_texts(a):
        if "prefixed" not in n:
            table(W, res, fn, "other %s" % n, run(W, fn, {0: x}, g=guard_not(a, [e for e, _ in element_names(ts)] + sorted(LEGACY))), errs)
    ns = at("namespace")
    table(W, res, fn, "no Document", run(W, fn, {0: concat(S('<FICdtTrf xmlns="'), ns, S('"></FICdtTrf>'))}), errs)
    table(W, res, fn, "empty Document", run(W, fn, {0: concat(S('<Document xmlns="'), ns, S('"></Document>'))}), errs)
    table(W, res, fn, "unfinished Document", run(W, fn, {0: concat(S('<Document xmlns="'), at("solid text", shape.Lacks("<>&\"'", solid=True)))}), errs)
    table(W, res, fn, "blank", run(W, fn, {0: at("space", WSA)}), errs)
    table(W, res, fn, "nothing", run(W, fn, {0: S("")}), errs)
