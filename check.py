#!/usr/bin/env python3
"""check.py <property>: decide one property from /repo's current source.

Exit 0: no violation beyond the listed known findings.  Exit 1: a VIOLATION line per run.  Exit 2: the source could
not be analysed at all (it does not compile, or the tool itself failed)."""
import fcntl, hashlib, json, os, subprocess, sys, time, traceback

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "mx"))
sys.setrecursionlimit(20000)
REPO = os.environ.get("MX_REPO", "/repo")
BUILD = os.environ.get("MX_BUILD", os.path.join(V, "build"))


def tree_hash():
    h = hashlib.sha256()
    paths = []
    for base in (os.path.join(REPO, "src"), os.path.join(V, "driver", "src")):
        for dp, dn, fn in os.walk(base):
            dn.sort()
            paths += [os.path.join(dp, f) for f in sorted(fn)]
    paths += [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock"), os.path.join(REPO, "build.rs"),
              os.path.join(V, "extract.sh")]
    for p in paths:
        if os.path.isfile(p):
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def facts_path():
    """the facts of the current tree (extracted again whenever a source file differs)"""
    os.makedirs(os.path.join(BUILD, "facts"), exist_ok=True)
    out = os.path.join(BUILD, "facts", tree_hash() + ".json")
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            d = os.path.dirname(out)
            for f in os.listdir(d):
                if f.endswith(".json"):
                    os.unlink(os.path.join(d, f))
            tmp = out + ".tmp"
            r = subprocess.run(["bash", os.path.join(V, "extract.sh"), tmp], capture_output=True, text=True)
            if r.returncode:
                sys.stderr.write(r.stdout[-2000:] + r.stderr[-4000:])
                raise SystemExit("error: the source could not be analysed (it does not compile?)")
            os.rename(tmp, out)
    return out


def known():
    """{property: {key: what}} of listed findings"""
    out = {}
    with open(os.path.join(V, "known-findings.txt")) as f:
        for line in f:
            line = line.rstrip("\n")
            if line.startswith("known: property="):
                prop, rest = line[len("known: property="):].split(" ", 1)
                key, _, what = rest.partition(" || ")
                out.setdefault(prop, {})[key.strip()] = what.strip()
    return out


def main(prop):
    import rules
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    fp = facts_path()
    from facts import Facts
    import common
    from common import World
    F = Facts(fp)
    W = World(F, os.path.join(V, "ref"))
    R = rules.RULES[prop]
    common.limit(float(os.environ.get("MX_LIMIT", "560")))
    try:
        res = R.fn(W)
    except (Exception, common.TimeUp) as e:
        # what was found up to here counts, the rest is undecided
        traceback.print_exc()
        res = next((r for r in common.Result.made if r.prop == prop), None) or common.Result(prop)
        res.unsure("unfinished", common.trouble(e))
    common.limit(10 ** 6)
    kn = known().get(prop, {})
    new = {k: v for k, v in res.viol.items() if k not in kn}
    for k in sorted(res.viol):
        if k in kn:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, kn[k] or res.viol[k][0]))
    for k in sorted(kn):
        if k not in res.viol:
            print("note: the listed finding %r of %s no longer occurs" % (k, prop))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    rep = os.path.join(V, "evidence", prop + ".violations.txt")
    if os.path.exists(rep):
        os.unlink(rep)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": R.explain,
            "rule": R.rule,
            "obligations": res.obligations,
            "analysed": res.analysed,
            "undecided": [{"what": k, "why": w} for k, w in sorted(res.undecided.items())],
            "violations": [{"what": k, "message": m, "place": p} for k, (m, p) in sorted(new.items())],
            "known_findings": sorted(k for k in res.viol if k in kn),
            "facts": {"bodies": len(F.bodies), "types": len(F.adts), "functions": len(F.fns), "impls": len(F.impls),
                      "files": len(F.files)},
            "notes": res.notes[:50],
        },
        "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, w in sorted(res.undecided.items())[:20]:
        print("undecided: %s: %s" % (k, w))
    print("%s: %d obligations, %s, %d undecided, %d known, %d violations" % (
        prop, res.obligations, json.dumps(res.analysed), len(res.undecided), len(res.viol) - len(new), len(new)))
    if new:
        with open(rep, "w") as f:
            for k, (m, p) in sorted(new.items()):
                f.write("%s\n    %s\n    %s\n" % (k, m, p))
        for k, (m, p) in sorted(new.items())[:12]:
            print("  %s: %s [%s]" % (k, m, p))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    return 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--facts":
            print(facts_path())
            rc = 0
        else:
            rc = main(sys.argv[1])
    except SystemExit as e:
        if isinstance(e.code, str):
            print(e.code)
            rc = 2
        else:
            rc = e.code or 0
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
