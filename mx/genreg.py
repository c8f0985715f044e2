"""Generate ref/registry.json (the 25 supported types) from the audited tree: genreg.py FACTS > ref/registry.json"""
import json, sys
sys.setrecursionlimit(20000)
from facts import Facts
from common import World
import rules_schema as rs

if __name__ == "__main__":
    F = Facts(sys.argv[1])
    W = World(F, sys.argv[2])
    hdr, docs, doc = rs.envelope_types(W)
    out = []
    pay = {e: (v, t) for v, (e, t) in docs.items()}
    for x in F.consts["message_registry::MESSAGE_REGISTRY"]["v"]["ref"]["arr"]:
        s, f, r, e = [y["s"] for y in x["adt"][1]]
        v, t = pay[e]
        out.append({"short": s, "full": f, "rust": r, "element": e, "payload": t, "variant": v})
    json.dump({"header": hdr, "types": out}, sys.stdout, indent=1)
    print()
