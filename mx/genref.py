"""Write ref/schema.json from a reviewed tree: the published definitions (elements, occurrence, codes, length limits, patterns).

Run by hand only:  python3 mx/genref.py FACTS OUT"""
import json, sys
from facts import Facts
from schema import Schema
import profile as pf
import rx


def strip(p):
    if p.startswith("^(?:") and p.endswith(")$"):
        return p[4:-2]
    return p


def main(facts, out):
    sys.setrecursionlimit(20000)
    F = Facts(facts)
    S = Schema(F)
    R = pf.profile(F)
    assert not any(r["problems"] or r["undecided"] for r in R.values())
    nodes = {}
    roots = S.roots()
    for root in roots:
        for t in S.reach(root):
            if t in nodes:
                continue
            sh = S.shape(t)
            assert not sh.odd, (t, sh.odd)
            if sh.kind == "enum":
                assert all(v["ctor"].startswith("Some(Const") and not v["fields"] for v in sh.variants), t
                nodes[t] = {"codes": [v["w"] for v in sh.variants]}
                continue
            fs = []
            for f in sh.fields:
                con = {}
                for c in R[t]["checks"]:
                    if c["f"] == f["i"] and c["P"] == 0:
                        if c["kind"] == "pat":
                            con.setdefault("pat", []).append(strip(c["arg"]))
                        else:
                            assert c["kind"] not in con
                            con[c["kind"]] = c["arg"]
                e = {"w": f["w"], "occ": f["occ"], "leaf": f["leaf"]}
                if f["t"]:
                    e["t"] = f["t"]
                if con:
                    e["con"] = con
                fs.append(e)
            nodes[t] = {"fields": fs}
    with open(out, "w") as f:
        json.dump({"roots": roots, "nodes": nodes}, f, indent=None, separators=(",", ":"), sort_keys=True)
        f.write("\n")
    print(len(roots), "roots", len(nodes), "nodes")


if __name__ == "__main__":
    main(*sys.argv[1:3])
