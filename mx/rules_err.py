"""C24: error values, parse results and the error collector."""
from common import Result
from runs import run, table, known, place, show_conj, is_ok, is_err, okval
from term import *

VE, ME, PR, EC = "error::ValidationError", "error::MxError", "parse_result::ParseResult", "parse_result::ErrorCollector"
PARTS = ("code", "message", "field", "path")


def struct(W, ty, vals, variant=None):
    """a value of the type with the given named fields, or None when the type has other fields"""
    A = W.F.adts.get(ty)
    if A is None:
        return None
    i = 0
    if variant is not None:
        i = next((k for k, v in enumerate(A["variants"]) if v["name"] == variant), None)
        if i is None:
            return None
    names = [f["name"] for f in A["variants"][i]["fields"]]
    if set(names) != set(vals):
        return None
    return agg(ty, i, tuple(vals[n] for n in names))


def fields(W, ty, t, variant=None):
    """the named fields of a value, or None"""
    A = W.F.adts[ty]
    i = 0
    if variant is not None:
        i = next((k for k, v in enumerate(A["variants"]) if v["name"] == variant), None)
        if i is None or t.op != "agg" or t.a[1] != i:
            return None
    return {f["name"]: fld(t, i if variant is not None else None, k) for k, f in enumerate(A["variants"][i]["fields"])}


def is_(want):
    def f(r):
        if r is want:
            return True
        return False if known(r) else None
    return f


LONG = "ec" + 1100 * "e"


def c24(W):
    res = Result("C24")
    for ty in (VE, ME, PR, EC):
        if ty not in W.F.adts:
            res.bad("missing " + ty, "%s is gone" % ty)
            return res
    errors(W, res)
    results(W, res)
    collector(W, res)
    return res


def errors(W, res):
    p = {n: mk("sym", n) for n in PARTS}
    E0 = S("")
    for case, fv, pv in (("given", some(p["field"]), some(p["path"])), ("absent", NONE, NONE), ("field only", some(p["field"]), NONE),
                         ("path only", NONE, some(p["path"])), ("empty texts", some(E0), some(E0)), ("empty field", some(E0), some(p["path"])),
                         ("the same text twice", some(S("Document.A")), some(S("Document.A")))):
        v = dict(p, field=fv, path=pv)
        if case == "empty texts":
            v["message"] = E0
        e = struct(W, VE, v)
        if e is None:
            res.bad("ValidationError fields", "a validation error no longer has exactly code, message, field and path", W.place(VE))
            return
        want = struct(W, ME, v, "Validation")
        if want is None:
            res.bad("MxError::Validation fields", "the library's validation error no longer has exactly code, message, field and path", W.place(ME))
            return
        k = "<error::MxError as std::convert::From<error::ValidationError>>::from"
        table(W, res, k, "parts " + case, run(W, k, {0: e}), is_(want))
        for fn, part_ in (("with_field", "field"), ("with_path", "path")):
            k = VE + "::" + fn
            new = mk("sym", "new " + part_)
            table(W, res, k, "parts " + case, run(W, k, {0: e, 1: new}), is_(struct(W, VE, dict(v, **{part_: some(new)}))))
            for txt in ("", "a.b", " x "):
                table(W, res, k, "%r %s" % (txt, case), run(W, k, {0: e, 1: S(txt)}), is_(struct(W, VE, dict(v, **{part_: some(S(txt))}))))
        k = "<error::ValidationError as std::clone::Clone>::clone"
        if k in W.F.bodies:
            table(W, res, k, "parts " + case, run(W, k, {0: e}), is_(e))
    k = VE + "::new"
    want = struct(W, VE, {"code": p["code"], "message": p["message"], "field": NONE, "path": NONE})
    table(W, res, k, "parts", run(W, k, {0: p["code"], 1: p["message"]}), is_(want))
    for n in (0, 1, 1001, 9999, 2 ** 32 - 1):
        table(W, res, k, "code %d" % n, run(W, k, {0: I(n), 1: S("m")}), is_(struct(W, VE, {"code": I(n), "message": S("m"), "field": NONE, "path": NONE})))
    res.count("error types", 2)
    # no other conversion drops parts
    for k in sorted(W.F.bodies):
        if "as std::convert::From<error::ValidationError>>::from" in k and not k.startswith("<error::MxError "):
            res.count("further conversions")
            e = struct(W, VE, {"code": p["code"], "message": p["message"], "field": some(p["field"]), "path": some(p["path"])})
            for c, r, s in run(W, k, {0: e}):
                res.ob()
                lost = [n for n in PARTS if p[n] not in set(subterms(r))]
                if lost and known(r):
                    res.bad("conversion " + k, "%s loses %s" % (k, ", ".join(lost)), place(W, k))


def vec(n):
    return agg("array", 0, tuple(mk("sym", "error %d" % i) for i in range(n)))


def results(W, res):
    val = mk("sym", "value")
    A = W.F.adts[PR]
    names = [v["name"] for v in A["variants"]]
    if names != ["Success", "PartialSuccess", "Failure"] and set(names) != {"Success", "PartialSuccess", "Failure"}:
        res.bad("ParseResult variants", "a parse result is one of %s" % ", ".join(names), W.place(PR))
        return
    ix = {n: i for i, n in enumerate(names)}
    fns = {}
    for k in W.F.bodies:
        if k.startswith(PR + "::<") and "{" not in k:
            fns[k.rsplit("::", 1)[-1]] = k
    for f in ("is_success", "is_failure", "value", "errors", "to_result"):
        if f not in fns:
            res.bad("missing ParseResult::" + f, "ParseResult::%s is gone" % f)
    lists = [vec(n) for n in range(4)] + [mk("sym", "errors")]
    cases = [("Success", None, agg(PR, ix["Success"], (val,)))]
    for l in lists:
        cases.append(("PartialSuccess", l, agg(PR, ix["PartialSuccess"], (val, l))))
        cases.append(("Failure", l, agg(PR, ix["Failure"], (l,))))
    for n, l, t in cases:
        what = "%s %s" % (n, "" if l is None else "any errors" if l.op == "sym" else "%d errors" % len(l.a[2]))
        es = agg("array", 0, ()) if l is None else l
        want = {"is_success": I(1 if n == "Success" else 0), "is_failure": I(1 if n == "Failure" else 0),
                "value": NONE if n == "Failure" else some(val), "errors": es, "to_result": err(es) if n == "Failure" else ok(val)}
        for f, w in want.items():
            if f in fns:
                res.count("cases")
                table(W, res, fns[f], what, run(W, fns[f], {0: t}), is_list(w), anyerr)


def anyerr(l):
    return False


def is_list(want):
    def f(r):
        if r is want:
            return True
        if known(r):
            return False
        # a list of unknown length handed on in parts
        return None
    return f


def collector(W, res):
    names = [f["name"] for f in W.F.adts[EC]["variants"][0]["fields"]]
    F = {n: "%s::%s" % (EC, n) for n in ("new", "add_error", "add_critical_error", "has_errors", "has_critical_errors", "errors", "error_count")}
    for n, k in F.items():
        if k not in W.F.bodies:
            res.bad("missing " + k, "%s is gone" % k)
    if any(k not in W.F.bodies for k in F.values()):
        return
    start = []
    for k in (F["new"], "<parse_result::ErrorCollector as std::default::Default>::default"):
        if k not in W.F.bodies:
            continue
        for c, r, s in run(W, k):
            res.ob()
            start.append((k, r))
    import itertools
    def plain(n):
        return struct(W, VE, {"code": I(1000 + n), "message": S("m%d" % n), "field": some(S("f")), "path": some(S("p%d" % n))})
    kinds = [("", lambda i: mk("sym", "error %d" % i))]
    if plain(0) is not None:
        kinds += [(", one error repeated", lambda i: plain(0)), (", known errors", plain), (", two errors in turn", lambda i: plain(i % 2))]
    for (k, c0), (sort, make) in itertools.product(start, kinds):
        for seq in [q for n in range(4) for q in itertools.product("ec", repeat=n)] + ([LONG] if sort else []):
            t, exp = c0, []
            sure = True
            for i, x in enumerate(seq):
                e = make(i)
                exp.append(e)
                fn = F["add_error" if x == "e" else "add_critical_error"]
                R = run(W, fn, {1: e}, cells={("R", 0): t})
                if R is None or len(R.rows) != 1:
                    res.unsure("%s %s" % (fn, "".join(seq)), "several outcomes")
                    sure = False
                    break
                c, r, s = R.rows[0]
                t = R.eng.deep(s, s.cells[("R", 0)])
            if not sure:
                continue
            res.count("sequences")
            what = "after %s%s" % ("many" if seq is LONG else "".join(seq) or "nothing", sort)
            for f, w in (("errors", agg("array", 0, tuple(exp))), ("error_count", I(len(exp))), ("has_errors", I(1 if exp else 0)),
                         ("has_critical_errors", I(1 if "c" in seq else 0))):
                table(W, res, F[f], what, run(W, F[f], {0: t}), is_(w))
