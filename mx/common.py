"""Results of a rule: what was looked at, what is broken, what could not be decided."""
import gc, os, pickle, signal, sys, time, traceback


class TimeUp(BaseException):
    """the time for a check is over: what is not decided by now stays undecided"""


DEADLINE = [None]


def limit(seconds):
    DEADLINE[0] = time.time() + seconds
    rearm(0)


def rearm(early):
    def up(*a):
        raise TimeUp()
    if DEADLINE[0] is not None:
        signal.signal(signal.SIGALRM, up)
        signal.setitimer(signal.ITIMER_REAL, max(0.5, DEADLINE[0] - early - time.time()))


class Result:
    made = []

    def __init__(self, prop):
        Result.made.append(self)
        self.prop = prop
        self.viol = {}         # key -> (message, place)
        self.undecided = {}    # key -> why
        self.obligations = 0   # rule instances decided
        self.analysed = {}     # kind -> count
        self.notes = []

    def bad(self, key, msg, place=""):
        self.viol.setdefault(key, (msg, place))

    def unsure(self, key, why):
        self.undecided.setdefault(key, why)

    def ob(self, n=1):
        self.obligations += n

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n


def trouble(e):
    return "the time was over" if isinstance(e, TimeUp) else "the analysis failed: %s" % traceback.format_exception_only(type(e), e)[-1].strip()[:200]


def each(res, items, fn):
    """fn(item, res) for every item, on all cores; what the workers found is put together in the order of the items"""
    items = list(items)
    n = min(os.cpu_count() or 1, 8, len(items))
    if n <= 1 or os.environ.get("MX_SERIAL"):
        for x in items:
            fn(x, res)
        return
    gc.collect()
    gc.freeze()
    sys.stdout.flush()
    sys.stderr.flush()
    kids = []
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            out = []
            try:
                os.close(r)
                rearm(15)
                for i in range(w, len(items), n):
                    p = Result(res.prop)
                    out.append((i, p))
                    try:
                        fn(items[i], p)
                    except Exception as e:
                        p.unsure("item %d" % i, trouble(e))
            except BaseException as e:
                out[-1][1].unsure("item %d and further" % out[-1][0], trouble(e))
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                with os.fdopen(wr, "wb") as f:
                    pickle.dump([(i, p.viol, p.undecided, p.obligations, p.analysed, p.notes) for i, p in out], f)
            finally:
                os._exit(0)
        os.close(wr)
        kids.append((pid, r))
    got = {}
    for k, (pid, r) in enumerate(kids):
        with os.fdopen(r, "rb") as f:
            b = f.read()
        os.waitpid(pid, 0)
        if not b:
            res.unsure("part %d" % k, "the analysis ended early")
            continue
        for i, *v in pickle.loads(b):
            got[i] = v
    for i in sorted(got):
        viol, undecided, ob, analysed, notes = got[i]
        for k, v in viol.items():
            res.bad(k, *v)
        for k, v in undecided.items():
            res.unsure(k, v)
        res.ob(ob)
        for k, v in analysed.items():
            res.count(k, v)
        res.notes += notes


class World:
    """facts plus lazily computed products shared by the rules"""

    def __init__(self, F, refdir):
        import json
        self.F = F
        self.refdir = refdir
        self._schema = self._profile = self._ref = None
        self.json = json
        self.os = os

    @property
    def schema(self):
        if self._schema is None:
            from schema import Schema
            self._schema = Schema(self.F)
        return self._schema

    @property
    def profile(self):
        if self._profile is None:
            import profile as pf
            self._profile = pf.profile(self.F)
        return self._profile

    @property
    def ref(self):
        if self._ref is None:
            with open(self.os.path.join(self.refdir, "schema.json")) as f:
                self._ref = self.json.load(f)
        return self._ref

    def place(self, tpath):
        A = self.F.adts.get(tpath)
        return "%s:%s" % (A["file"], A["line"]) if A else ""
