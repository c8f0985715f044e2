"""Load the facts dumped by the driver; helpers over types and constants."""
import json, os, re


class Facts:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.types = d["types"]
        self.adts = d["adts"]
        self.impls = d["impls"]
        self.fns = d["fns"]
        self.statics = d["statics"]
        self.consts = d["consts"]
        self.traits = d["traits"]
        self.aliases = d["aliases"]
        self.reexports = d["reexports"]
        self.unsafe = d["unsafe"]
        self.files = d["files"]
        self.bodies = d["bodies"]
        self._tn = {}
        self.by_path = {}
        for k, b in self.bodies.items():
            self.by_path.setdefault(b["path"], []).append(k)

    # ---- types
    def t(self, i):
        return self.types[i]

    def tname(self, i):
        if i in self._tn:
            return self._tn[i]
        self._tn[i] = "?"
        t = self.types[i]
        k = t["k"]
        if k in ("bool", "char", "str", "never", "fnptr"):
            r = k
        elif k in ("int", "float"):
            r = t["n"]
        elif k == "adt":
            a = [x for x in (self.tname(x) for x in t["a"]) if x != "std::alloc::Global"]
            r = t["d"] + ("<" + ", ".join(a) + ">" if a else "")
        elif k == "ref":
            r = "&" + ("mut " if t["m"] else "") + self.tname(t["t"])
        elif k == "ptr":
            r = "*" + self.tname(t["t"])
        elif k == "slice":
            r = "[" + self.tname(t["t"]) + "]"
        elif k == "array":
            r = "[%s; %s]" % (self.tname(t["t"]), t["n"])
        elif k == "tuple":
            r = "(" + ", ".join(self.tname(x) for x in t["a"]) + ")"
        elif k == "fndef":
            r = "fn " + t["d"]
        elif k in ("closure", "coroutine"):
            r = k + " " + t["d"]
        elif k == "dyn":
            r = "dyn " + str(t["d"])
        elif k == "param":
            r = t["n"]
        else:
            r = t.get("n", k)
        self._tn[i] = r
        return r

    def inner_types(self, ti, seen=None):
        """the types a type is made of"""
        seen = set() if seen is None else seen
        if ti in seen:
            return set()
        seen.add(ti)
        t = self.types[ti]
        out = set()
        if t["k"] == "adt":
            out.add(t["d"])
            for x in t["a"]:
                out |= self.inner_types(x, seen)
            if t["d"] in self.adts:
                for v in self.adts[t["d"]]["variants"]:
                    for f in v["fields"]:
                        out |= self.inner_types(f["ty"], seen)
        elif t["k"] in ("ref", "ptr", "slice", "array"):
            out |= self.inner_types(t["t"], seen)
        elif t["k"] == "tuple":
            for x in t["a"]:
                out |= self.inner_types(x, seen)
        return out

    CELLS = ("std::cell::Cell", "std::cell::RefCell", "std::cell::UnsafeCell", "std::sync::Mutex", "std::sync::RwLock", "std::sync::atomic", "std::sync::Atomic")

    def changing(self):
        """statics (and thread-local ones) whose value can change between calls"""
        if self._changing is None:
            out = {}
            for s in self.statics:
                if not s.get("mac") and any(x.startswith(self.CELLS) for x in self.inner_types(s["ty"])):
                    out[s["path"]] = s
            for n, c in (self.consts.items() if isinstance(self.consts, dict) else self.consts):
                ts = self.inner_types(c["ty"])
                if "std::thread::LocalKey" in ts and any(x.startswith(self.CELLS) for x in ts):
                    out[n] = c
            self._changing = out
        return self._changing

    _changing = None

    def strip_refs(self, i):
        t = self.types[i]
        while t["k"] in ("ref", "ptr"):
            i = t["t"]
            t = self.types[i]
        return i


def norm_path(p):
    """drop generic argument groups `::<...>` from a def path"""
    out = []
    depth = 0
    i = 0
    while i < len(p):
        if depth == 0 and p.startswith("::<", i) and not p.startswith("::<impl", i):
            j = i + 3
            d = 1
            while j < len(p) and d:
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                j += 1
            i = j
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


# ---------------------------------------------------------------- pretty printing (debugging aid)
def pplace(p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e[0] == "*":
            s = "(*%s)" % s
        elif e[0] == "f":
            s += ".%d" % e[1]
        elif e[0] == "v":
            s += " as v%d" % e[1]
        else:
            s += str(e)
    return s


def pconst(c):
    if "f" in c:
        return "fn " + c["f"]["p"]
    if "s" in c:
        return json.dumps(c["s"])
    for k in ("i", "ref", "adt", "tup", "arr", "z", "o", "fl", "static"):
        if k in c:
            return "%s:%s" % (k, str(c[k])[:100])
    return str(c)[:80]


def pop(o):
    if o[0] in ("c", "m"):
        return o[0] + " " + pplace(o[1])
    if o[0] == "k":
        return pconst(o[1])
    return str(o)


def pbody(F, k):
    b = F.bodies[k]
    print("fn", k, "argc", b["argc"], b["file"], b["line"], "names", [(n[0], pplace(n[1])) for n in b["names"]])
    for i, l in enumerate(b["locals"]):
        print("  let _%d: %s" % (i, F.tname(l)[:120]))
    for i, bl in enumerate(b["blocks"]):
        if not bl:
            continue
        print(" bb%d:" % i)
        for s in bl["s"]:
            if s[0] == "=":
                rv = s[2]
                r = rv[0] + " " + " ".join(
                    (pop(x) if isinstance(x, list) and x and x[0] in ("c", "m", "k") else
                     pplace(x) if isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) else str(x)[:200]) for x in rv[1:])
                if rv[0] == "agg":
                    r = "agg %s (%s)" % (rv[1], ", ".join(pop(o) for o in rv[2]))
                print("    %s = %s" % (pplace(s[1]), r))
            else:
                print("   ", s)
        t = bl["t"]
        if t[0] == "call":
            f = t[1]
            fn = f[1]["f"]["p"] + (" [k]" if "k" in f[1]["f"] else "") if f[0] == "k" and "f" in f[1] else pop(f)
            print("    %s = call %s(%s) -> %s  @%s %s" % (pplace(t[3]), fn, ", ".join(pop(a) for a in t[2]), t[4], t[5], t[6] or ""))
        elif t[0] == "switch":
            print("    switch %s %s else %s" % (pop(t[1]), t[3], t[4]))
        else:
            print("   ", t)


if __name__ == "__main__":
    import sys
    F = Facts(sys.argv[1])
    for k in F.bodies:
        if re.search(sys.argv[2], k):
            pbody(F, k)
