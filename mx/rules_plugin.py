"""C17-C22: the workflow steps, run abstractly on described configurations and workflow messages."""
from common import Result, each
from engine import Engine
from runs import Rows, is_err, is_ok, okval, known, place, show_conj, takes2
from term import *
import models, roots, envio, shape
from rules_reg import types, js, jo, JV, JNULL, JNUM, JBOOL, JARR

CFG = "dataflow_rs::FunctionConfig"
CELL = ("R", "msg")
NAMES = {"parse_mx": "Parse", "publish_mx": "Publish", "validate_mx": "Validate", "generate_mx": "Generate"}


def handler(F, step):
    return roots.handler_body(F, "<plugin::%s::%s as dataflow_rs::AsyncFunctionHandler>::execute" % (step.lower(), step))


def custom(v):
    return agg(CFG, 2, (mk("sym", "function name"), v))


def message(data, meta=None, payload=None):
    m = upd(models.MSG, None, "data", data)
    m = upd(m, None, "metadata", meta if meta is not None else mk("sym", "metadata"))
    if payload is not None:
        m = upd(m, None, 1, payload)
    return m


def step(W, name, config=None, msg=None, g=GTRUE, io=None, opaque=roots.LIBRARY):
    F = W.F
    key = handler(F, name)
    if key is None:
        return None
    e = Engine(F)
    e.opaque_fns = opaque
    e.io = io
    e.maxstates = 1500
    _, rs = roots.run_handler(F, key, e, config, msg, g)
    out = []
    for s, r in rs:
        r = e.deep(s, r)
        for c in s.g:
            out.append((c, r, s))
    R = Rows(e, out)
    R.key = key
    return R


def final(R, s):
    return R.eng.deep(s, s.cells[CELL])


def dmap(name, **kw):
    """a JSON object of unknown entries, plus the given ones"""
    m = mk("sym", name)
    for k, v in kw.items():
        m = mk("mapins", m, S(k), v)
    return agg(JV, 5, (m,))


def lacking(k):
    """a JSON object of any entries but the one called k"""
    return agg(JV, 5, (mk("maprem", mk("sym", "fields"), S(k)),))


# ------------------------------------------------------------------ described situations
def situations(W, name):
    """(description, configuration, workflow message, initial data map or None, target name)"""
    src = {} if name == "Generate" else {"source": js(S("in"))}
    cfg = lambda s, t: custom(jo(dict({} if name == "Generate" else {"source": js(S(s))}, target=js(S(t)))))
    any_ = mk("sym", "value of in")
    yield "any fields", cfg("in", "out"), message(dmap("fields"), dmap("entries")), "out"
    yield "target present", cfg("in", "out"), message(dmap("fields", **{"in": any_, "out": mk("sym", "old value")}), dmap("entries")), "out"
    yield "target holds null", cfg("in", "out"), message(dmap("fields", **{"in": any_, "out": JNULL}), dmap("entries")), "out"
    yield "target holds text", cfg("in", "out"), message(dmap("fields", **{"in": any_, "out": js(mk("sym", "old text"))}), dmap("entries")), "out"
    yield "no fields", cfg("in", "out"), message(jo({}), jo({})), "out"
    yield "only the source", cfg("in", "out"), message(jo({"in": any_}), jo({})), "out"
    yield "source is target", cfg("in", "in"), message(dmap("fields", **{"in": any_}), dmap("entries")), "in"
    yield "metadata entries present", cfg("in", "out"), message(dmap("fields", **{"in": any_}), dmap("entries", **{
        "out": mk("sym", "old entry"), "validation": mk("sym", "old validation")})), "out"
    yield "source is payload", cfg("payload", "out"), message(dmap("fields"), dmap("entries"), js(mk("sym", "payload text"))), "out"
    yield "target is payload", cfg("in", "payload"), message(dmap("fields", **{"in": any_}), dmap("entries")), "payload"
    yield "target is validation", cfg("in", "validation"), message(dmap("fields", **{"in": any_}), dmap("entries")), "validation"
    for n, v in (("a number", JNUM), ("null", JNULL), ("a list", JARR), ("text", js(mk("sym", "data text")))):
        yield "data is " + n, cfg("in", "out"), message(v, dmap("entries"), js(mk("sym", "payload text"))), "out"
        yield "data is %s, source is payload" % n, cfg("payload", "out"), message(v, dmap("entries"), js(mk("sym", "payload text"))), "out"
    for n, v in (("a number", JNUM), ("null", JNULL), ("a list", JARR)):
        yield "metadata is " + n, cfg("in", "out"), message(dmap("fields", **{"in": any_}), v), "out"
    yield "anything", None, None, None


def runs_of(W, res, name):
    n = 0
    for what, cfg, msg, tgt in situations(W, name):
        R = cached(W, name, what, cfg, msg)
        if R is None:
            res.bad("missing " + name, "the %s step is gone" % name)
            return
        if not R.rows:
            res.unsure("%s %s" % (name, what), "no outcome was derived")
            continue
        res.count("situations")
        yield what, R, models.MSG if msg is None else msg, tgt


def cached(W, name, what, cfg, msg):
    c = W.__dict__.setdefault("_steps", {})
    k = (name, what)
    if k not in c:
        c[k] = step(W, name, cfg, msg)
    return c[k]


def nocache(m):
    """the message without its cache mark"""
    ch = []
    while m.op == "upd":
        if m.a[2] != "cache":
            ch.append(m.a[1:])
        m = m.a[0]
    for v, i, x in reversed(ch):
        m = mk("upd", m, v, i, x)
    return m


def parts(m):
    """-> ({field: value}, base)"""
    out = {}
    while m.op == "upd":
        out.setdefault(m.a[2], m.a[3])
        m = m.a[0]
    return out, m


def part(m, f):
    return fld(m, None, f)


def same_json(a, b, c):
    """do two JSON terms denote the same value under condition c?  (a map with its own entry put back is the map)"""
    if a is b:
        return True
    return settle(a, c) is settle(b, c)


def settle(t, c):
    def go(x):
        if not isinstance(x, T):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if x.op in ("int", "str", "sym", "atom", "arg"):
            return x
        y = rebuild(x.op, tuple(go(z) for z in x.a))
        if y.op == "mapins":
            old = mk("mapget", y.a[0], y.a[1])
            if y.a[2] is fld(old, 1, 0):
                return y.a[0]
        if y.op == "mapdel" and y.a[0].op == "mapins" and y.a[0].a[1] is y.a[1]:
            return go(mk("mapdel", y.a[0].a[0], y.a[1]))
        if y.op == "mapdel" and (discr(mk("mapget", y.a[0], y.a[1])), "=", 0) in c:
            return y.a[0]
        # an object is its own map
        if y.op == "agg" and y.a[0] == JV and y.a[1] == 5 and y.a[2][0].op == "fld" and y.a[2][0].a[1:] == (5, 0):
            if (discr(y.a[2][0].a[0]), "=", 5) in c:
                return y.a[2][0].a[0]
        return y
    return go(t)


def foreign(s):
    """changes of the message by operations that are not modelled"""
    return [ev for ev, _ in s.eff if ev[0] == "mutcall" and ev[1] == CELL]


# operations on a whole map that touch entries nobody named
WHOLESALE = ("::retain", "::clear", "::append", "::sort_keys", "::sort_all_objects", "::drain", "::extend", "::iter_mut", "::values_mut")


def wholesale(s):
    """-> (part of the message, operation) for a write to all entries of data or metadata"""
    for ev in foreign(s):
        n = str(ev[3]) if len(ev) > 3 else ""
        if "Map::" in n and n.endswith(WHOLESALE):
            return ev[2], n
    return None


# ------------------------------------------------------------------ C17
def c17(W):
    res = Result("C17")
    for name in roots.STEPS:
        for what, R, m0, tgt in runs_of(W, res, name):
            for c, r, s in R:
                if is_ok(r):
                    continue
                res.ob()
                key = "%s %s" % (name, what)
                if foreign(s):
                    res.unsure(key, "the message is handed to %s" % (foreign(s)[0][2:4],))
                    continue
                m1 = nocache(final(R, s))
                if m1 is m0 or same_json(m1, m0, c):
                    continue
                if not is_err(r):
                    res.unsure(key, "result %s" % show(r)[:200])
                    continue
                res.bad("%s %s" % (name, what_changed(m1, m0, c)), "the %s step fails with %s (%s) after changing the message: %s" % (
                    name, show(r.a[2][0])[:160], what, show_diff(m1, m0)[:300]), place(W, R.key))
    return res


def fieldname(f):
    return {1: "payload", 2: "context"}.get(f, str(f))


def what_changed(m1, m0, c):
    a, b = parts(m1)[0], parts(m0)[0]
    return ",".join(fieldname(f) for f in sorted(set(a) | set(b), key=str) if not same_json(part(m1, f), part(m0, f), c)) or "message"


def show_diff(m1, m0):
    a, b = parts(m1)[0], parts(m0)[0]
    return "; ".join("%s = %s" % (fieldname(f), show(part(m1, f))) for f in sorted(set(a) | set(b), key=str) if part(m1, f) is not part(m0, f))


# ------------------------------------------------------------------ C18
META = {"Parse": ("target", {"message_type", "format"}), "Validate": ("validation", {"validated", "timestamp"})}


def entry(t, key, c):
    """-> (the object's entry at key or None, the object without it) or None when not known"""
    if not (t.op == "agg" and t.a[0] == JV and t.a[1] == 5):
        return None
    return mapentry(t.a[2][0], key)


def mapentry(m, key):
    outer = []
    while m.op == "mapins":
        if m.a[1] is key:
            b = m.a[0]
            for k, v in reversed(outer):
                b = mk("mapins", b, k, v)
            return m.a[2], b
        if not (m.a[1].op == "str" and key.op == "str"):
            return None
        outer.append(m.a[1:])
        m = m.a[0]
    return None, None


def without(m, key):
    """the map with every entry of that name dropped"""
    if m.op == "mapins":
        b = without(m.a[0], key)
        return b if m.a[1] is key else mk("mapins", b, m.a[1], m.a[2])
    return m


def others_same(t1, t0, key, c):
    """do two JSON objects agree on every entry but `key`?  None when not known"""
    if same_json(t1, t0, c):
        return True
    m0, m1 = omap(t0, c), omap(t1, c)
    if m0 is None or m1 is None:
        return None
    a, b = settle(without(m1, key), c), settle(without(m0, key), c)
    if a is b:
        return True
    ea, ra = pairs_of(a)
    eb, rb = pairs_of(b)
    if ra is rb:
        return ea == eb
    return False if ra.op in ("sym", "agg", "fld") else None


def pairs_of(m):
    e = {}
    while m.op == "mapins":
        e.setdefault(m.a[1], m.a[2])
        m = m.a[0]
    return e, m


def omap(t, c):
    """the map of a JSON object term"""
    if t.op == "agg" and t.a[0] == JV:
        return t.a[2][0] if t.a[1] == 5 else None
    if t.op == "upd" and t.a[1] == 5 and t.a[2] == 0:
        return t.a[3]
    if (discr(t), "=", 5) in c:
        return fld(t, 5, 0)
    return None


def get(t, key, c):
    """entry of an object -> term, None (absent) or the string 'unknown'"""
    m = omap(t, c)
    if m is None:
        return "unknown"
    while m.op == "mapins":
        if m.a[1] is key:
            return m.a[2]
        if not (m.a[1].op == "str" and key.op == "str"):
            return "unknown"
        m = m.a[0]
    if m.op == "agg":
        return None
    g = mk("mapget", m, key)
    if (discr(g), "=", 0) in c:
        return None
    if (discr(g), "=", 1) in c:
        return fld(g, 1, 0)
    return "unknown"


def untouched(t, key, c):
    """an object whose entry was never written since the described start"""
    m = omap(t, c)
    while m is not None and m.op == "mapins" and m.a[1].op == "str" and m.a[1].a[0] != key:
        m = m.a[0]
    return m is not None and m.op == "sym"


def target(R, s, tgt):
    if tgt is not None:
        return S(tgt)
    inp = fld(mk("sym", "config"), 2, 1)
    g = mk("mapget", fld(inp, 5, 0), S("target"))
    return fld(fld(g, 1, 0), 3, 0)


def c18(W):
    res = Result("C18")
    for name in roots.STEPS:
        for what, R, m0, tgt in runs_of(W, res, name):
            for c, r, s in R:
                if is_err(r):
                    continue
                res.ob()
                key = "%s %s" % (name, what)
                if not is_ok(r):
                    res.unsure(key, "result %s" % show(r)[:200])
                    continue
                if wholesale(s):
                    res.bad("%s whole map" % name, "the %s step (%s) applies %s to the message" % (name, what, wholesale(s)[1]), place(W, R.key))
                    continue
                if foreign(s):
                    res.unsure(key, "the message is handed to %s" % (foreign(s)[0][2:4],))
                    continue
                m1 = final(R, s)
                k = target(R, s, tgt)
                loc = place(W, R.key)
                # data
                d1, d0 = part(m1, "data"), part(m0, "data")
                v = get(d1, k, c)
                if v == "unknown":
                    # not stored at all?
                    if same_json(d1, d0, c):
                        v = None
                if v is None or (same_json(d1, d0, c) and not stored_same(r, d0, k, c)):
                    res.bad("%s target" % name, "the %s step succeeds (%s) without storing anything at its target" % (name, what), loc)
                elif v == "unknown":
                    res.unsure(key, "data becomes %s" % show(d1)[:300])
                o = others_same(d1, d0, k, c)
                if o is False:
                    res.bad("%s data" % name, "the %s step (%s) changes other data than its target: data becomes %s" % (name, what, show(d1)[:300]), loc)
                elif o is None:
                    res.unsure(key, "data becomes %s" % show(d1)[:300])
                # metadata
                e1, e0 = part(m1, "metadata"), part(m0, "metadata")
                doc = META.get(name)
                if doc is None:
                    if not same_json(e1, e0, c):
                        res.bad("%s metadata" % name, "the %s step (%s) changes the metadata" % (name, what), loc)
                else:
                    mkey = k if doc[0] == "target" else S(doc[0])
                    o = others_same(e1, e0, mkey, c)
                    if o is False:
                        res.bad("%s metadata" % name, "the %s step (%s) changes other metadata than %s: %s" % (name, what, show(mkey), show(e1)[:300]), loc)
                    elif o is None:
                        res.unsure(key, "metadata becomes %s" % show(e1)[:300])
                    ent = get(e1, mkey, c)
                    if ent is None or (same_json(e1, e0, c) and omap(e0, c) is not None):
                        res.bad("%s entry" % name, "the %s step (%s) leaves no entry %s in the metadata" % (name, what, show(mkey)), loc)
                    elif ent != "unknown":
                        o = envio.jobj(ent)
                        if o is None:
                            if known(ent):
                                res.bad("%s entry" % name, "the metadata entry of the %s step is %s" % (name, show(ent)[:200]), loc)
                        elif set(o) != doc[1]:
                            res.bad("%s entry" % name, "the metadata entry of the %s step has the members %s" % (name, sorted(o)), loc)
                        else:
                            for k2, good in (("format", js(S("json"))), ("validated", agg(JV, 1, (I(1),)))):
                                if k2 in o and o[k2] is not good and known(o[k2]):
                                    res.bad("%s entry %s" % (name, k2), "the metadata entry of the %s step says %s is %s" % (name, k2, show(o[k2])[:100]), loc)
                            mt = o.get("message_type")
                            if mt is not None and known(mt):
                                res.bad("%s entry message_type" % name, "the metadata entry of the %s step names the message type %s" % (name, show(mt)[:100]), loc)
                # the rest of the message
                for f in set(parts(m1)[0]) - {"data", "metadata", "cache"}:
                    if not same_json(part(m1, f), part(m0, f), c):
                        res.bad("%s %s" % (name, fieldname(f)), "the %s step (%s) changes the message's %s to %s" % (
                            name, what, fieldname(f), show(part(m1, f))[:200]), loc)
                # the cache
                w = [ev[2][0][2] if ev[2] else None for ev, _ in s.eff if ev[0] == "write" and ev[1] == CELL]
                ch = [i for i, x in enumerate(w) if x != "cache"]
                iv = [i for i, x in enumerate(w) if x == "cache"]
                if ch and (not iv or iv[-1] < ch[-1]):
                    res.bad("%s cache" % name, "the %s step (%s) changes the message after (or without) invalidating its context cache" % (name, what), loc)
    return res


def stored_same(r, d0, k, c):
    """was the value stored the one that was there (the change records say so)?"""
    x = change(r)
    v = get(d0, k, c)
    return x is not None and v not in (None, "unknown") and v is x[2]


def change(r):
    """Ok((status, [Change(path, old, new)])) -> (path, old, new)"""
    v = okval(r)
    if v is None or v.op != "agg" or len(v.a[2]) != 2:
        return None
    l = v.a[2][1]
    if l.op != "agg" or l.a[0] != "array" or len(l.a[2]) != 1:
        return None
    x = l.a[2][0]
    return x.a[2] if x.op == "agg" and len(x.a[2]) == 3 else None


# ------------------------------------------------------------------ C19
def c19(W):
    res = Result("C19")
    for name in roots.STEPS:
        for what, R, m0, tgt in runs_of(W, res, name):
            for c, r, s in R:
                if is_err(r):
                    continue
                res.ob()
                key = "%s %s" % (name, what)
                loc = place(W, R.key)
                if not is_ok(r) or okval(r).op != "agg" or len(okval(r).a[2]) != 2:
                    res.unsure(key, "result %s" % show(r)[:200])
                    continue
                st_, l = okval(r).a[2]
                if st_ is not I(200):
                    if st_.op == "int":
                        res.bad("%s status" % name, "the %s step succeeds with status %s" % (name, show(st_)), loc)
                    else:
                        res.unsure(key, "status %s" % show(st_)[:200])
                if l.op != "agg" or l.a[0] != "array":
                    res.unsure(key, "changes %s" % show(l)[:200])
                    continue
                if len(l.a[2]) != 1:
                    res.bad("%s records" % name, "the %s step (%s) returns %d change records" % (name, what, len(l.a[2])), loc)
                    continue
                x = change(r)
                if x is None:
                    res.unsure(key, "change %s" % show(l)[:200])
                    continue
                k = target(R, s, tgt)
                path, old, new = x
                if path is not concat(S("data."), k):
                    if known(path) or tgt is None:
                        res.bad("%s path" % name, "the %s step (%s) reports path %s" % (name, what, show(path)[:200]), loc)
                    else:
                        res.unsure(key, "path %s" % show(path)[:200])
                if foreign(s):
                    res.unsure(key, "the message is handed to %s" % (foreign(s)[0][2:4],))
                    continue
                now = get(part(final(R, s), "data"), k, c)
                if now == "unknown":
                    res.unsure(key, "stored value unknown")
                elif now is None or (settle(now, c) is not settle(new, c)):
                    res.bad("%s new" % name, "the %s step (%s) reports the new value %s but stores %s" % (
                        name, what, show(new)[:160], "nothing" if now is None else show(now)[:160]), loc)
                was = get(part(m0, "data"), k, c)
                if was == "unknown":
                    # without knowing whether the target was there, only the lookup itself can answer
                    m = omap(part(m0, "data"), c)
                    if m is None:
                        res.unsure(key, "old value %s" % show(old)[:200])
                        continue
                    g = mk("mapget", m, k)
                    if not (old.op == "fld" and old.a[0] is g):
                        res.bad("%s old" % name, "the %s step (%s) reports the old value %s whether or not the target was there" % (name, what, show(old)[:160]), loc)
                    continue
                want = JNULL if was is None else was
                if settle(old, c) is not settle(want, c):
                    res.bad("%s old" % name, "the %s step (%s) reports the old value %s but the target was %s" % (
                        name, what, show(old)[:160], show(want)[:160]), loc)
    return res


# ------------------------------------------------------------------ C20
REG = "plugin::register_mx_functions"
LIBTEXT = {  # library operation -> positions of its message arguments
    "mx_envelope::MxMessage::from_xml": (0,), "xml::from_mx_xml_envelope_str": (0, 1), "xml::xml_to_json_via_document": (0, 1),
    "plugin::common::extract_message_type_from_xml": (0,), "mx_envelope::peek_message_type_from_xml": (0,), "xml::from_mx_xml_to_json": (0,),
    "mx_envelope::MxMessage::from_json": (0,), "datafake_rs::DataGenerator::from_value": (0,),
}


def c20(W):
    res = Result("C20")
    from runs import run
    R = run(W, REG)
    if R is None:
        res.bad("missing " + REG, "%s is gone" % REG)
    else:
        for c, r, s in R:
            res.ob()
            if r.op != "agg" or r.a[0] != "array" or not all(x.op == "agg" and x.a[0] == "tuple" for x in r.a[2]):
                res.unsure("table", "the step table is %s" % show(r)[:300])
                continue
            got = []
            for x in r.a[2]:
                n, h = x.a[2]
                got.append((n.a[0] if n.op == "str" else show(n), h.a[0].rsplit("::", 1)[-1] if h.op == "agg" else show(h)))
            for n, h in sorted(NAMES.items()):
                hs = [b for a, b in got if a == n]
                res.count("steps")
                if hs != [h]:
                    res.bad("step " + n, "%s is registered for %s" % (n, hs or "nothing"), place(W, REG))
            for n, h in got:
                if n not in NAMES:
                    res.bad("step " + n, "an undocumented step %s is registered" % n, place(W, REG))
    for name in roots.STEPS:
        if handler(W.F, name) is None:
            res.bad("missing " + name, "the %s step is gone" % name)
            continue
        params(W, res, name)
        origin(W, res, name)
    return res


def params(W, res, name):
    loc = place(W, handler(W.F, name))
    base = {"target": js(S("out"))}
    if name != "Generate":
        base["source"] = js(S("in"))
    M = lambda: message(dmap("fields", **{"in": mk("sym", "value of in"), "out": mk("sym", "old value"), "source": mk("sym", "value of source"),
                                         "target": mk("sym", "value of target"), "": mk("sym", "nameless")}), dmap("entries"),
                        js(mk("sym", "payload text")))

    def never(what, cfg, g=GTRUE):
        R = step(W, name, cfg, M(), g)
        res.ob()
        res.count("configurations")
        for c, r, s in R:
            if is_ok(r):
                res.bad("%s %s" % (name, what), "the %s step accepts a configuration with %s" % (name, what), loc)
            elif not is_err(r):
                res.unsure("%s %s" % (name, what), "result %s" % show(r)[:200])

    R = step(W, name, custom(jo(base)), M())
    res.ob()
    if not any(is_ok(r) for _, r, _ in R):
        (res.bad if not R.notes and all(is_err(r) for _, r, _ in R) else res.unsure)(
            "%s never" % name, "the %s step never succeeds, whatever its input" % name)
    # further parameters change nothing, in whatever order
    R2 = step(W, name, custom(jo(dict([("other", mk("sym", "other"))] + list(reversed(list(base.items())))))), M())
    if not any(is_ok(r) for _, r, _ in R2):
        res.unsure("%s other" % name, "the step never succeeds with a further parameter")
    for p in base:
        rest = {k: v for k, v in base.items() if k != p}
        never("no '%s'" % p, custom(jo(rest)))
        for n, v in (("null", JNULL), ("a number", JNUM), ("a flag", JBOOL), ("a list", JARR), ("an object", jo({"name": js(S("in"))}))):
            never("'%s' being %s" % (p, n), custom(jo(dict(rest, **{p: v}))))
    for n, v in (("null", JNULL), ("a text", js(S("in"))), ("a number", JNUM), ("a list", JARR), ("a flag", JBOOL)):
        never("an input that is %s" % n, custom(v))
    g = g_and(GTRUE, (discr(mk("sym", "config")), "!", 2))
    never("another kind", mk("sym", "config"), g)


def leaves(t):
    return {x for x in subterms(t) if x.op in ("sym", "atom", "arg")}


def libcalls(t):
    for x in subterms(t):
        if x.op == "call" and x.a[0] in LIBTEXT:
            yield x
        elif x.op == "call" and x.a[0].startswith(("quick_xml::de::", "serde_json::from_", "serde_json::to_string", "serde_json::to_value")):
            yield x


def origin(W, res, name):
    """the input of the step comes from the named field (or payload) alone, the output goes to the named target"""
    loc = place(W, handler(W.F, name))
    T_ = mk("sym", "source text")
    V_ = mk("sym", "source value")
    O = {k: mk("sym", "value of " + k) for k in ("other", "source", "target", "payload", "mx_message", "message", "data", "xml", "input")}
    cfg = lambda s: custom(jo({"source": js(S(s)), "target": js(S("out"))}))
    pay = js(mk("sym", "payload text"))
    if name in ("Parse", "Validate"):
        cases = [("text field", cfg("in"), message(dmap("fields", **dict(O, **{"in": js(T_)})), dmap("entries"), pay), T_),
                 ("mx_message member", cfg("in"), message(dmap("fields", **dict(O, **{"in": jo({
                     "other": mk("sym", "other member"), "message": mk("sym", "another member"), "mx_message": js(T_)})})), dmap("entries"), pay), T_),
                 ("payload", cfg("payload"), message(dmap("fields", **dict(O, **{"in": mk("sym", "value of in")})), dmap("entries"), js(T_)), T_)]
        empty = [("no such field", cfg("in"), message(jo({k: v for k, v in O.items()}), dmap("entries"), pay)),
                 ("no such field among any others", cfg("in"), message(lacking("in"), dmap("entries"), pay)),
                 ("any object without mx_message", cfg("in"), message(dmap("fields", **dict(O, **{"in": lacking("mx_message")})), dmap("entries"), pay))]
        for n, v in (("null", JNULL), ("a number", JNUM), ("a list", JARR), ("a flag", JBOOL), ("an object without mx_message", jo({"other": js(mk("sym", "x"))})),
                     ("an object with a number as mx_message", jo({"mx_message": JNUM}))):
            empty.append(("the field being " + n, cfg("in"), message(jo(dict(O, **{"in": v})), dmap("entries"), pay)))
    elif name == "Publish":
        cases = [("field", cfg("in"), message(dmap("fields", **dict(O, **{"in": V_})), dmap("entries"), pay), V_),
                 ("field named payload", cfg("payload"), message(dmap("fields", **dict(O, **{"in": mk("sym", "value of in"), "payload": V_})), dmap("entries"), pay), V_)]
        empty = [("no such field", cfg("in"), message(jo({k: v for k, v in O.items()}), dmap("entries"), pay)),
                 ("no such field among any others", cfg("in"), message(lacking("in"), dmap("entries"), pay))]
    else:
        cases = [("payload", custom(jo({"target": js(S("out"))})), message(dmap("fields", **dict(O, **{"in": mk("sym", "value of in")})), dmap("entries"), V_), V_)]
        empty = []
    cases = [x + ("out",) for x in cases]
    # names are taken as they are, whatever they look like
    for odd in (" in ", "IN", "in.other", "/in", "in[0]", "data", "mx_message"):
        v = V_ if name in ("Publish", "Generate") else js(T_)
        w = V_ if name in ("Publish", "Generate") else T_
        D = dmap("fields", **{k: x for k, x in dict(O, **{"in": mk("sym", "value of in"), odd: v, "out": mk("sym", "old value")}).items() if name != "Generate" or k != odd})
        c_ = {"target": js(S("to" + odd))}
        if name != "Generate":
            c_["source"] = js(S(odd))
        cases.append(("names like '%s'" % odd, custom(jo(c_)), message(D, dmap("entries"), v if name == "Generate" else pay), w, "to" + odd))
    for odd in (" out ", "\tout", "Out", "out.x", "/out"):
        v = V_ if name in ("Publish", "Generate") else js(T_)
        w = V_ if name in ("Publish", "Generate") else T_
        c_ = {"target": js(S(odd))}
        if name != "Generate":
            c_["source"] = js(S("in"))
        D = dmap("fields", **dict(O, **{"in": mk("sym", "value of in") if name == "Generate" else v, "out": mk("sym", "old value")}))
        cases.append(("target '%s'" % odd, custom(jo(c_)), message(D, dmap("entries"), v if name == "Generate" else pay), w, odd))
    for what, c_, m0, want, to in cases:
        R = step(W, name, c_, m0)
        res.count("configurations")
        for c, r, s in R:
            res.ob()
            if not is_ok(r):
                if not is_err(r):
                    res.unsure("%s %s" % (name, what), "result %s" % show(r)[:200])
                continue
            if foreign(s):
                res.unsure("%s %s" % (name, what), "the message is handed to %s" % (foreign(s)[0][2:4],))
                continue
            now = get(part(final(R, s), "data"), S(to), c)
            if now is None or now == "unknown" and untouched(part(final(R, s), "data"), to, c):
                res.bad("%s output" % name, "the %s step (source: %s) stores nothing at its target" % (name, what), loc)
                continue
            if now == "unknown":
                res.unsure("%s %s" % (name, what), "stored value unknown")
                continue
            calls = {x for l in c for x in libcalls(l[0])} | set(libcalls(now))
            if not calls:
                res.unsure("%s %s" % (name, what), "no library operation takes part")
            for x in calls:
                for i in LIBTEXT.get(x.a[0], (0,)):
                    ls = leaves(x.a[2][i])
                    strange = ls - {want}
                    if strange:
                        res.bad("%s source %s" % (name, what), "the %s step (source: %s) reads %s, from %s" % (
                            name, what, show(x.a[2][i])[:160], ", ".join(sorted(show(y) for y in strange))), loc)
                    elif not ls and known(x.a[2][i]):
                        res.bad("%s source %s" % (name, what), "the %s step (source: %s) reads the constant %s" % (name, what, show(x.a[2][i])[:160]), loc)
        if not any(is_ok(r) for _, r, _ in R):
            (res.bad if not R.notes and all(is_err(r) for _, r, _ in R) else res.unsure)(
                "%s source %s never" % (name, what), "the %s step never succeeds when its input is %s" % (name, what))
    for what, c_, m0 in empty:
        R = step(W, name, c_, m0)
        res.count("configurations")
        for c, r, s in R:
            res.ob()
            if is_ok(r):
                res.bad("%s source %s" % (name, what), "the %s step succeeds with %s" % (name, what), loc)
            elif not is_err(r):
                res.unsure("%s %s" % (name, what), "result %s" % show(r)[:200])


# ------------------------------------------------------------------ C21
FALLIBLE = ("quick_xml::", "serde_json::", "datafake_rs::", "mx_envelope::MxMessage::", "xml::", "plugin::common::", "mx_envelope::peek_", "chrono::")
INNER = ("quick_xml::", "serde_json::")


def failing(c, only=FALLIBLE):
    """conditions saying that an operation failed"""
    return [l for l in c if l[1:] in (("=", 1), ("!", 0)) and l[0].op == "discr" and l[0].a[0].op == "call" and l[0].a[0].a[0].startswith(only)
            and fallible(l[0].a[0])]


def fallible(x):
    """does the operation return a Result (1 is its failure)?"""
    n = x.a[0]
    return not n.startswith(("serde_json::Value::", "serde_json::Map", "message_registry::")) and n not in OPTIONAL


OPTIONAL = {"message_registry::element_to_message_type", "message_registry::message_type_to_element", "message_registry::message_type_to_rust_type",
            "message_registry::get_full_form"}


def c21(W):
    res = Result("C21")
    for name in roots.STEPS:
        for what, R, m0, tgt in runs_of(W, res, name):
            loc = place(W, R.key)
            for c, r, s in R:
                res.ob()
                bad = failing(c)
                key = "%s %s" % (name, what)
                if is_err(r):
                    continue
                if not is_ok(r):
                    res.unsure(key, "result %s" % show(r)[:200])
                    continue
                if name != "Validate":
                    for l in bad:
                        res.bad("%s swallows %s" % (name, l[0].a[0].a[0].rsplit("::", 1)[-1]), "the %s step succeeds although %s failed" % (
                            name, show(l[0].a[0])[:200]), loc)
                    continue
                x = change(r)
                o = envio.jobj(x[2]) if x is not None else None
                if o is None:
                    res.unsure(key, "verdict %s" % show(okval(r))[:200])
                    continue
                verdict(res, key, o, bad, c, loc)
    library(W, res)
    return res


def verdict(res, key, o, bad, c, loc):
    v, es = o.get("valid"), o.get("errors")
    if v is None or es is None:
        res.bad("Validate members", "the validation result has the members %s" % sorted(o), loc)
        return
    if not (v.op == "agg" and v.a[1] == 1 and v.a[2][0].op == "int") or not (es.op == "agg" and es.a[1] == 4 and es.a[2][0].op == "agg"):
        if v.op == "agg" and v.a[1] != 1:
            res.bad("Validate valid", "the verdict is %s" % show(v)[:100], loc)
        elif es.op == "agg" and es.a[1] != 4:
            res.bad("Validate errors", "the error list is %s" % show(es)[:100], loc)
        else:
            res.unsure(key, "verdict %s, errors %s" % (show(v)[:100], show(es)[:100]))
        return
    valid, n = v.a[2][0].a[0] == 1, len(es.a[2][0].a[2])
    if valid != (n == 0):
        res.bad("Validate verdict", "the verdict is %s with %d errors listed" % ("valid" if valid else "not valid", n), loc)
    if bad and n == 0:
        res.bad("Validate swallows %s" % bad[0][0].a[0].a[0].rsplit("::", 1)[-1], "no error is listed although %s failed" % show(bad[0][0].a[0])[:200], loc)
    good = [l for l in c if l[1] == "=" and l[2] == 0 and l[0].op == "discr" and l[0].a[0].op == "call" and l[0].a[0].a[0] in DECODE]
    if n and not bad:
        if good:
            res.bad("Validate spurious", "an error is listed although the message was decoded: %s" % show(es)[:200], loc)
        else:
            res.unsure(key, "errors %s under %s" % (show(es)[:100], show_conj(c)[:200]))
    if not n and not bad and not good:
        known_ = all(l[0].op in ("found", "discr", "lt", "isempty", "eq") for l in c)
        (res.bad if known_ else res.unsure)("Validate unread", "no error is listed although nothing was decoded: when %s" % show_conj(c)[:300])


DECODE = ("mx_envelope::MxMessage::from_xml", "xml::from_mx_xml_envelope_str", "xml::xml_to_json_via_document") + envio.DE


def library(W, res):
    """inside the library: a failure of a decoder or encoder comes out as an error"""
    from runs import run
    import rules_env as re_
    from rules_reg import header_texts, JsonText
    E = re_.Env(W, Result("x"))
    if not E.ok:
        res.unsure("envelope", "the envelope is not as described")
        return

    jobs = []

    def judge(fn, what, args, io=None):
        jobs.append((fn, what, args, io, None))

    def decide(job, res):
        fn, what, args, io, unknown = job
        R = run(W, fn, args, io=io, g=unknown or GTRUE)
        if R is None:
            res.bad("missing " + fn, "%s is gone" % fn)
            return
        for c, r, s in R:
            res.ob()
            bad = failing(c, INNER)
            if unknown and is_ok(r):
                res.bad("%s accepts an unknown element" % fn.rsplit("::", 1)[-1], "%s succeeds for an unknown document element (%s) when %s" % (
                    fn, what, show_conj(c)[:300]), place(W, fn))
            if bad and is_ok(r):
                res.bad("%s swallows %s" % (fn.rsplit("::", 1)[-1], bad[0][0].a[0].a[0].rsplit("::", 1)[-1]),
                        "%s succeeds (%s) although %s failed" % (fn, what, show(bad[0][0].a[0])[:200]), place(W, fn))
            elif not is_ok(r) and not is_err(r) and bad:
                res.unsure("%s %s" % (fn, what), "result %s" % show(r)[:200])
        if R.panics:
            pass

    anytext = mk("sym", "text")
    for fn in (re_.FROM_XML, re_.FROM_JSON, "mx_envelope::peek_message_type_from_xml", "mx_envelope::peek_message_type_from_json", "xml::from_mx_xml_to_json"):
        judge(fn, "any text", {0: anytext})
    judge(re_.TO_JSON, "any message", {0: mk("sym", "message")})
    judge(re_.TO_XML, "any message", {0: mk("sym", "message")})
    ENV = "xml::from_mx_xml_envelope_str"
    judge(ENV, "any text", {0: anytext, 1: mk("sym", "type")})
    judge(re_.VIA, "any text", {0: anytext, 1: mk("sym", "type")})
    # an element that is not a known one is reported, whatever the header or the caller says
    ts = types(W)
    a = re_.at("element name", shape.Lacks(shape.NAMELACKS, solid=True, avoid=("Document", "AppHdr", "Envelope")))
    g = re_.guard_not(a, [x for t in ts for x in (t["element"], t["rust"])])
    io = envio.IO(W)
    P0 = next(iter(E.of.values()))[2]
    for n, x, _, _ in re_.enveloped(io, a, E.hdr, P0):
        for fn, args in ((re_.FROM_XML, {0: x}), (ENV, {0: x, 1: mk("sym", "type")})):
            res.count("texts with an unknown element")
            jobs.append((fn, n, args, envio.IO(W), g))
    for t in ts:
        if t["short"] not in E.of:
            continue
        _, i, P = E.of[t["short"]]
        res.count("types")
        io = envio.IO(W)
        for n, x, hc, dc in re_.enveloped(io, t["element"], E.hdr, P):
            judge(re_.FROM_XML, t["short"], {0: x}, io=io)
        for n, x, dc in re_.bare(io, t["element"], P):
            judge(re_.VIA, t["short"], {0: x, 1: S(t["short"])}, io=io)
            judge(ENV, t["short"], {0: x, 1: S(t["short"])}, io=io)
        m = E.message(i, mk("sym", "header"), mk("sym", "payload"), NONE, NONE)
        judge(re_.TO_XML, t["short"], {0: m}, envio.IO(W))
        judge(re_.TO_JSON, t["short"], {0: m})
    each(res, jobs, decide)


# ------------------------------------------------------------------ C22
ENVSTR = "xml::from_mx_xml_envelope_str"
XTYPE = "plugin::common::extract_message_type_from_xml"


def c22(W):
    res = Result("C22")
    for name in ("Parse", "Validate"):
        if handler(W.F, name) is None:
            res.bad("missing " + name, "the %s step is gone" % name)
            return res
    if ENVSTR not in W.F.bodies:
        res.bad("missing " + ENVSTR, "%s is gone" % ENVSTR)
        return res
    same_tests(W, res)
    shape.EXCLUDED.append("\\")     # whether texts with backslashes are altered was decided by same_tests
    try:
        same_reads(W, res)
    finally:
        shape.EXCLUDED.clear()
    return res


T0 = mk("sym", "text")


def sources():
    cfg = lambda s: custom(jo({"source": js(S(s)), "target": js(S("out"))}))
    yield "a text field", cfg("in"), message(dmap("fields", **{"in": js(T0)}), dmap("entries"))
    yield "an mx_message member", cfg("in"), message(dmap("fields", **{"in": jo({"mx_message": js(T0)})}), dmap("entries"))
    yield "the payload", cfg("payload"), message(dmap("fields"), dmap("entries"), js(T0))


def text_kept(W, res, names):
    """the text that reaches a decoder is the source text itself"""
    for where, cfg, m0 in sources():
        for name in names:
            if handler(W.F, name) is None:
                continue
            R = step(W, name, cfg, m0)
            res.ob()
            ch = set()
            for c, r, s in R:
                for t in [l[0] for l in c] + [r]:
                    for x in libcalls(t):
                        ch.update(text_changes(x.a[2][0]))
            for x in ch:
                res.bad("%s alters %s" % (name, op_name(x)), "the %s step decodes a text changed by %s, not the text itself" % (name, show(x)[:100]), place(W, R.key))


def published(W, res):
    """what the publish step stores is the written text, and what it writes is the value it was given"""
    if handler(W.F, "Publish") is None:
        return
    V_ = mk("sym", "value")
    cfg = custom(jo({"source": js(S("in")), "target": js(S("out"))}))
    R = step(W, "Publish", cfg, message(dmap("fields", **{"in": V_}), dmap("entries")))
    for c, r, s in R:
        if not is_ok(r) or foreign(s):
            continue
        res.ob()
        v = get(part(final(R, s), "data"), S("out"), c)
        if v is None or v == "unknown":
            continue
        from rules_env import altered
        for x in altered(v):
            res.bad("Publish alters %s" % op_name(x), "the publish step changes the text on its way: %s" % show(x)[:160], place(W, R.key))
        if v.op == "agg" and v.a[1] == 3:
            t = v.a[2][0]
            if not (t.op == "fld" and t.a[1:] == (0, 0) and t.a[0].op == "call" and t.a[0].a[0] == "mx_envelope::MxMessage::to_xml"):
                if t.op == "concat" or known(t):
                    res.bad("Publish text", "the publish step stores %s" % show(t)[:200], place(W, R.key))
                else:
                    res.unsure("Publish text", "the publish step stores %s" % show(t)[:200])


def text_changes(t):
    """operations that may change the text on its way to the decoder"""
    from rules_env import altered
    return [x for x in altered(t) if T0 in leaves(x)]


def plain(t):
    """the term over the unchanged text"""
    m = {}
    for x in subterms(t):
        if x.op in ("replace", "replacen") and T0 in leaves(x):
            m[x] = T0
    return subst(t, m) if m else t


def outcome(R, name, c, r):
    """accepted / refused / not known"""
    if name != "Validate":
        return True if is_ok(r) else False if is_err(r) else None
    if is_err(r):
        return False
    x = change(r) if is_ok(r) else None
    o = envio.jobj(x[2]) if x is not None else None
    v = o.get("valid") if o else None
    if v is None or v.op != "agg" or v.a[2][0].op != "int":
        return None
    return v.a[2][0].a[0] == 1


OPS = ("mx_envelope::MxMessage::from_xml", "xml::xml_to_json_via_document", ENVSTR, XTYPE)
SURE = ("mx_envelope::MxMessage::to_json", "serde_json::from_str", "serde_json::to_value", "plugin::common::extract_message_type")


def relevant(c):
    """the conditions on the text, or None if some are of unknown kind"""
    out = set()
    for l in c:
        t = plain(l[0])
        if t.op == "discr" and t.a[0].op == "call" and t.a[0].a[0] in OPS:
            x = t.a[0]
            if x.a[0] == "xml::xml_to_json_via_document":
                x = mk("call", ENVSTR, (), *x.a[2:])
                x = mk("call", ENVSTR, (), t.a[0].a[2])
            elif x.a[0] == ENVSTR:
                x = mk("call", ENVSTR, (), x.a[2])
            v = l[2] if l[1] == "=" else 1 - l[2]
            out.add((discr(x), "=", v))
        elif t.op == "discr" and t.a[0].op == "call" and t.a[0].a[0] in SURE:
            # reading back what was just written, and the type of what was decoded, cannot fail
            continue
        elif T0 not in leaves(t):
            continue
        elif t.op in ("found", "starts", "ends") and t.a[0] is T0:
            out.add((t,) + tuple(l[1:]))
        elif t.op == "isempty" and t.a[0] is T0:
            continue     # nothing is decoded from the empty text
        elif t.op == "lt" and any(x.op == "int" and x.a[0] >= 4096 for x in t.a) and any(x.op in ("len", "nchars") and x.a[0] is T0 for x in t.a):
            # comments and spaces make a text of the same content longer
            out.add((t,) + tuple(l[1:]))
        elif strip_sure(t):
            continue
        else:
            return None
    return frozenset(out)


def strip_sure(t):
    """does the condition look only at a decoded value?"""
    seen = False
    for x in subterms(t):
        if x.op == "call" and x.a[0] in SURE + OPS:
            seen = True
    if not seen:
        return False
    m = {x: mk("sym", "decoded") for x in subterms(t) if x.op == "call" and x.a[0] in SURE + OPS}
    return T0 not in leaves(subst(t, m))


def acceptance(W, res, name, R):
    """set of condition sets under which a text is accepted, or None"""
    g = GFALSE
    for c, r, s in R:
        o = outcome(R, name, c, r)
        if o is None:
            return None
        if o is False:
            continue
        k = relevant(c)
        if k is None:
            return None
        g = g_or(g, frozenset([k]))
    return g


def same_tests(W, res):
    """both steps and the stand-alone validation classify and decode a text under the same conditions"""
    from runs import run
    got = {}
    text_kept(W, res, ("Parse", "Validate"))
    for where, cfg, m0 in sources():
        for name in ("Parse", "Validate"):
            R = step(W, name, cfg, m0)
            res.count("classifications")
            g = acceptance(W, res, name, R)
            if name in got and got[name] != g and got[name] is not None and g is not None:
                res.bad("%s %s" % (name, where), "the %s step accepts other texts from %s: when %s" % (name, where, show_guard(g)[:300]), place(W, R.key))
            got.setdefault(name, g)
    R = run(W, ENVSTR, {0: T0, 1: mk("sym", "type")}, opaque=roots.LIBRARY - {ENVSTR})
    got["stand-alone"] = acceptance(W, res, "stand-alone", R)
    for n, g in got.items():
        if g is None:
            res.unsure("classification " + n, "the conditions of %s are of unknown kind" % n)
    a, b = got["Parse"], got["Validate"]
    if a is not None and b is not None:
        res.ob()
        if a != b and g_simplify(a) != g_simplify(b):
            res.bad("classification", "the parse step accepts when %s; the validation step when %s" % (show_guard(a)[:300], show_guard(b)[:300]),
                    place(W, handler(W.F, "Validate")))
    e = got["stand-alone"]
    if a is not None and e is not None:
        res.ob()
        # the parse step with the type given: forget how the type was found, and read `stand-alone` as its own conditions
        ty = mk("sym", "type")
        x = frozenset(frozenset((subst_type(l[0], ty),) + tuple(l[1:]) for l in k if not about_type(l)) for k in a)
        y = frozenset(frozenset((subst_type(l[0], ty),) + tuple(l[1:]) for l in k) for k in e)
        if x != y and g_simplify(x) != g_simplify(y):
            res.bad("stand-alone", "the parse step accepts when %s; stand-alone validation when %s" % (show_guard(x)[:300], show_guard(y)[:300]), place(W, ENVSTR))


def op_name(x):
    import json
    return "%s %s" % (x.op, " ".join(json.dumps(y.a[0]) for y in x.a[1:] if isinstance(y, T) and y.op == "str")) if x.op != "call" else x.a[0]


def about_type(l):
    return l[0].op == "discr" and l[0].a[0].op == "call" and l[0].a[0].a[0] == XTYPE


def subst_type(t, ty):
    m = {x: ty for x in subterms(t) if x.op == "fld" and x.a[0].op == "call" and x.a[0].a[0] == XTYPE}
    return subst(t, m) if m else t


def textop(t):
    """is a text operation on message text involved (outside of what library operations return)?"""
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x.op == "call":
            continue
        if x.op in TEXTOPS and any(y.op == "atom" for y in subterms(x)):
            return True
        todo += [y for a in x.a for y in (a if isinstance(a, tuple) else (a,))]
    return False


TEXTOPS = ("found", "starts", "ends", "substr", "trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "replace", "replacen",
           "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase")


def signature(W, res, name, what, R, io, P=None):
    """what has to be read, with which types, for the text to be accepted: a set of sets"""
    out = set()
    for c, r, s in R:
        o = outcome(R, name, c, r)
        if o is None:
            res.unsure("%s %s" % (name, what), "outcome %s" % show(r)[:200])
            return None
        if not o:
            continue
        k = set()
        for l in c:
            t = l[0]
            if t.op == "discr" and t.a[0].op == "call" and t.a[0].a[0] in envio.DE:
                if not shape.textual(t.a[0].a[2][0]):
                    res.unsure("%s %s" % (name, what), "which text is read is not decided: %s" % show(t.a[0].a[2][0])[:150])
                    return None
            elif textop(t):
                res.unsure("%s %s" % (name, what), "acceptance depends on %s" % show(t)[:150])
                return None
            if t.op == "discr" and t.a[0].op == "call" and t.a[0].a[0] in envio.DE and l[1:] in (("=", 0), ("!", 1)):
                k.add((t.a[0].a[1], t.a[0].a[2][0]))
        out.add(frozenset(k))
    # what a weaker set accepts, the stronger adds nothing to
    return frozenset(k for k in out if not any(q < k for q in out))


def same_reads(W, res):
    """on texts of known shape, all three decode the same elements with the same types"""
    import rules_env as re_
    from runs import run
    E = re_.Env(W, Result("x"))
    if not E.ok:
        res.unsure("envelope", "the envelope is not as described")
        return
    cfg = custom(jo({"source": js(S("in")), "target": js(S("out"))}))
    opaque = frozenset(["plugin::common::extract_message_type", "mx_envelope::MxMessage::to_json"])

    def three(case, res):
        what, x, short = case
        g = GTRUE
        res.count("texts")
        sig = {}
        for name in ("Parse", "Validate"):
            io = mkio()
            R = step(W, name, cfg, message(dmap("fields", **{"in": js(x)}), dmap("entries")), g, io, opaque)
            sig[name] = signature(W, res, name, what, R, io)
        # the stand-alone validation is told the type, so it is compared where the text has that type
        ty = run(W, XTYPE, {0: x}, g=g)
        if (ty is not None and all(is_ok(r) and okval(r) is S(short) for _, r, _ in ty)) or "<AppHdr" in show(x) or "<Envelope" in show(x):
            R = run(W, ENVSTR, {0: x, 1: S(short)}, io=mkio(), g=g)
            sig["stand-alone"] = signature(W, res, "stand-alone", what, R, None)
        res.ob()
        for n in ("Validate", "stand-alone"):
            a, b = sig["Parse"], sig.get(n)
            if a is None or b is None or a == b:
                continue
            res.bad("%s %s" % (n, what), "a text (%s): the parse step decodes %s, %s %s" % (what, show_sig(a), "the validation step" if n == "Validate" else ENVSTR,
                    show_sig(b)), place(W, handler(W.F, "Validate") if n == "Validate" else ENVSTR))
        return sig

    io = envio.IO(W)
    mkio = lambda: io
    cases = []
    for t in types(W):
        if t["short"] not in E.of:
            continue
        _, i, P = E.of[t["short"]]
        for n, x, hc, dc in re_.enveloped(io, t["element"], E.hdr, P):
            cases.append(("%s enveloped %s" % (t["short"], n), x, t["short"]))
            if n == "plain":
                for m, pre in ODDSTART:
                    cases.append(("%s enveloped %s" % (t["short"], m), concat(S(pre), x), t["short"]))
        for n, x, dc in re_.bare(io, t["element"], P):
            cases.append(("%s bare %s" % (t["short"], n), x, t["short"]))
            if n == "plain":
                for m, pre in ODDSTART:
                    cases.append(("%s bare %s" % (t["short"], m), concat(S(pre), x), t["short"]))
    t = types(W)[0]
    for n, x in odd_texts(t["element"]):
        cases.append((n, x, t["short"]))
        for m, pre in ODDSTART + [("after a declaration", '<?xml version="1.0" encoding="UTF-8"?>'), ("after a line break", "\r\n"), ("after blanks", "   ")]:
            cases.append(("%s %s" % (n, m), S(pre + x.a[0]), t["short"]))
    each(res, cases, three)


ODDSTART = [("after a byte order mark", "\ufeff"), ("after a form feed", "\x0c"), ("after a no-break space", "\xa0"), ("after a comment", "<!-- c -->"),
            ("after a doctype", "<!DOCTYPE x>"), ("after text", "x ")]


def odd_texts(el):
    """texts that are neither well-formed envelopes nor documents, and some with prefixes"""
    yield "empty", S("")
    yield "plain text", S("hello")
    yield "only a declaration", S('<?xml version="1.0" encoding="UTF-8"?>')
    yield "envelope without header", S("<Envelope><Document><%s></%s></Document></Envelope>" % (el, el))
    yield "header without document", S("<AppHdr></AppHdr>")
    yield "empty envelope", S("<Envelope></Envelope>")
    yield "empty document", S("<Document></Document>")
    yield "self-closing document", S("<Document/>")
    yield "unregistered element", S("<Document><Unknown></Unknown></Document>")
    yield "enveloped unregistered element", S("<Envelope><AppHdr></AppHdr><Document><Unknown></Unknown></Document></Envelope>")
    yield "unclosed document", S("<Document><%s>" % el)
    yield "prefixed element", S("<Document><ns:%s></ns:%s></Document>" % (el, el))
    yield "prefixed document", S("<ns:Document><%s></%s></ns:Document>" % (el, el))
    yield "document with attributes", S('<Document xmlns="urn:x"><%s></%s></Document>' % (el, el))
    yield "header in small letters", S("<apphdr></apphdr><Document><%s></%s></Document>" % (el, el))
    d = "<%s></%s>" % (el, el)
    yield "prefixed envelope", S("<ns:Envelope><ns:AppHdr></ns:AppHdr><Document>%s</Document></ns:Envelope>" % d)
    yield "prefixed envelope without header", S("<ns:Envelope><Document>%s</Document></ns:Envelope>" % d)
    yield "envelope with attributes", S('<Envelope xmlns="urn:x"><AppHdr xmlns="urn:y"></AppHdr><Document>%s</Document></Envelope>' % d)
    yield "envelope in small letters", S("<envelope><Document>%s</Document></envelope>" % d)
    yield "another envelope", S("<RequestPayload><AppHdr></AppHdr><Document>%s</Document></RequestPayload>" % d)
    yield "an element starting like an envelope", S("<EnvelopeData><Document>%s</Document></EnvelopeData>" % d)
    yield "an element starting like a header", S("<Wrap><AppHdrs></AppHdrs><Document>%s</Document></Wrap>" % d)
    yield "header in a comment", S("<!-- <AppHdr> --><Document>%s</Document>" % d)
    yield "envelope in a comment", S("<!-- <Envelope> --><Document>%s</Document>" % d)
    yield "header after a comment in the document", S("<Document>%s<!-- <AppHdr> --></Document>" % d)
    yield "two documents", S("<Document>%s</Document><Document>%s</Document>" % (d, d))
    yield "document end missing", S("<Envelope><AppHdr></AppHdr><Document>%s</Envelope>" % d)
    yield "header after document", S("<Document><%s></%s></Document><AppHdr></AppHdr>" % (el, el))


def show_sig(s):
    return "nothing" if not s else " or ".join(sorted(" and ".join(sorted("%s as %s" % (show(x)[:60], "/".join(short_type(y) for y in ty)) for ty, x in k))
                                                      or "without reading" for k in s))[:300]


def short_type(y):
    return str(y).rsplit("::", 1)[-1]
