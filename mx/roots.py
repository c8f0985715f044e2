"""Entry points of the analysis: symbolic arguments for ordinary functions and for the workflow handlers."""
from engine import Engine, St
from term import *
import models

# library operations the handlers are built from (pure functions of their arguments, decided by their own rules)
LIBRARY = frozenset([
    "mx_envelope::MxMessage::from_xml", "mx_envelope::MxMessage::to_xml", "mx_envelope::MxMessage::from_json",
    "mx_envelope::MxMessage::to_json", "mx_envelope::MxMessage::message_type", "mx_envelope::MxMessage::namespace",
    "mx_envelope::normalize_message_type", "mx_envelope::get_namespace_for_message_type",
    "mx_envelope::peek_message_type_from_xml", "mx_envelope::peek_message_type_from_json",
    "message_registry::normalize_message_type", "message_registry::get_namespace",
    "message_registry::element_to_message_type", "message_registry::message_type_to_element",
    "message_registry::message_type_to_rust_type", "message_registry::get_full_form",
    "xml::xml_to_json_via_document", "xml::from_mx_xml_envelope_str", "xml::from_mx_xml_to_json",
    "xml::get_document_element_name",
    "plugin::common::extract_message_type", "plugin::common::extract_message_type_from_xml",
    "plugin::common::map_document_element_to_message_type",
])

STEPS = ("Parse", "Publish", "Validate", "Generate")


def sym_args(eng, b):
    args, cells = [], {}
    for i in range(b.argc):
        T = eng.F.types[b.locals[i + 1]]
        if T["k"] == "ref" and T["m"]:
            c = ("R", i)
            cells[c] = mk("arg", i)
            args.append(mk("ptr", c, ()))
        else:
            args.append(mk("arg", i))
    return args, cells


def run_fn(F, key, args=None, eng=None, g=GTRUE, cells=None):
    eng = eng or Engine(F)
    b = eng.body(key)
    a, c = sym_args(eng, b)
    if args:
        for i, x in args.items():
            a[i] = x
    c.update(cells or {})
    return eng, eng.run(key, a, St(c, g))


def handler_body(F, key_prefix):
    """the coroutine body that does the work of an async fn: the nested body with most non-macro calls"""
    best = None
    for k, b in F.bodies.items():
        if k.startswith(key_prefix) and k != key_prefix:
            n = sum(1 for bl in b["blocks"] if bl and bl["t"][0] == "call" and not bl["t"][6])
            if best is None or n > best[0]:
                best = (n, k)
    return best[1] if best else None


def upvars(F, body):
    """upvar types of the closure/coroutine body (through its first argument)"""
    t = F.types[body.locals[1]]
    while t["k"] in ("ref", "ptr") or (t["k"] == "adt" and t["d"].startswith("std::pin::Pin")):
        t = F.types[t["t"] if t["k"] in ("ref", "ptr") else t["a"][0]]
    return t.get("up"), t


def run_handler(F, key, eng=None, config=None, msg=None, g=GTRUE):
    """-> (engine, [(state, result)]); the workflow message is root ("R","msg")"""
    if eng is None:
        eng = Engine(F)
        eng.opaque_fns = LIBRARY
    b = eng.body(key)
    up, t = upvars(F, b)
    fields = []
    for i, u in enumerate(up or []):
        T = F.types[u]
        if T["k"] == "ref" and T["m"] and F.tname(T["t"]).endswith("dataflow_rs::Message"):
            fields.append(mk("ptr", ("R", "msg"), ()))
        else:
            base = F.tname(F.strip_refs(u))
            if base == "dataflow_rs::FunctionConfig" and config is not None:
                fields.append(config)
            else:
                fields.append(mk("sym", {"dataflow_rs::FunctionConfig": "config"}.get(base, "up%d:%s" % (i, base))))
    env = agg("%s:%s" % (t["k"], t.get("d")), 0, fields)
    cells = {("R", "msg"): models.MSG if msg is None else msg}
    args = [env] + [mk("sym", "arg%d" % i) for i in range(1, b.argc)]
    return eng, eng.run(key, args, St(cells, g))
