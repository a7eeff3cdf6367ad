"""Histories of calls on the real code, for spec/Sessions.tla.

Every session runs in a process of its own, forked before anything was called.
The histories come from TLC (spec/MC_Service.tla, spec/MC_Odometer.tla): every
history of bounded length; sessions with threads and longer ones are added.
"""
import hashlib
import json
import os
import random
import subprocess
import sys
import threading

import gen
import turns
from gen import G, SETTINGS, DEFAULT
from port import escaped, flags

TABLES = [("rafsi", ["RAFSI_LIST"]), ("tarmi", ["SETTINGS", "SONORANT_CONSONANTS"]),
          ("data", ["VALID", "MZ_VALID", "INITIAL", "ZIhEVLA_INITIAL", "BANNED_TRIPLES", "START_VOWEL_CLUSTERS", "FOLLOW_VOWEL_CLUSTERS", "HYPHENS"])]


def digest(a):
    mods = dict(rafsi=a.RAFSI_MOD, tarmi=a.TARMI, data=a.DATA)
    h = hashlib.sha256()
    for m, names in TABLES:
        for n in names:
            v = getattr(mods[m], n, None)
            h.update(("%s=%r;" % (n, list(v.items()) if isinstance(v, dict) else sorted(v) if isinstance(v, (set, frozenset)) else v)).encode())
    return h.hexdigest()


# ------------------------------------------------------------------ one call
def raw(a, c, arg):
    """(exception class, the object the function returned)"""
    f, _, cm, s = c
    pos, named = a.form(arg, s, cm if f in ("lujvo", "build") else None)
    if f == "analyse":
        return a.call(a.L.analyse_brivla, arg, *pos, **named)
    if f == "veljvo":
        return a.call(a.L.get_veljvo, arg, *pos, **named)
    if f == "score":
        return a.call(a.L.score_lujvo, arg, *pos, **named)
    if f == "isbrivla":
        return a.call(a.L.is_brivla, arg, *pos, **named)
    if f == "gol":
        return a.call(a.TOOLS.is_gismu_or_lujvo, arg, s[0], s[4])
    if f == "lujvo":
        return a.call(a.L.get_lujvo, arg, *pos, **named)
    if f == "build":
        return a.call(a.L.get_lujvo_with_analytics, arg, *pos, **named)
    if f == "indices":
        return a.call(a.L.get_rafsi_indices, arg)
    if f == "normalise":
        return a.call(a.TOOLS.normalise, arg)
    # functions behind those: asked by name, and left out where there is no such function any more
    y, x, cons, gl, mz = s
    mod, name, args = {
        "jvokaha": ("katna", "jvokaha", (arg, y, cons, gl, mz)),
        "jvokaha_2": ("katna", "jvokaha_2", (arg, y, mz)),
        "selrafsi": ("katna", "search_selrafsi_from_rafsi", (arg,)),
        "meanings": ("katna", "selrafsi_list_from_rafsi_list", (arg, y, mz)),
        "slinkuhi": ("tools", "is_slinkuhi", (arg, y, mz)),
        "zihevla": ("tools", "check_zihevla_or_rafsi", (arg, cm, y, x, mz)),
        "gismu": ("tarmi", "is_gismu", (arg, mz)),
        "validrafsi": ("tarmi", "is_valid_rafsi", (arg, mz)),
        "tarmi": ("tarmi", "rafsi_tarmi", (arg,)),
        "split": ("tarmi", "split_vowel_cluster", (arg,)),
        "forms": ("jvozba", "get_rafsi_list_list", (arg, y, x, cons, gl, mz)),
        "best": ("jvozba", "get_lujvo_from_list", (arg, cm, y, x, cons, gl, mz)),
        "process": ("jvozba", "process_tanru", (arg,)),
    }[f]
    fn = getattr(sys.modules.get("latkerlo_jvotci." + mod), name, None)
    return a.call(fn, *args) if callable(fn) else ("", None)


INNER = ["jvokaha", "jvokaha_2", "slinkuhi", "zihevla", "slinkuhi", "zihevla"]


def key(c):
    return json.dumps(c)


def perform(a, c, arg=None, r=None):
    """One call: the event, and the object returned."""
    if arg is None:
        arg = list(c[1]) if isinstance(c[1], list) else c[1]
        if isinstance(arg, list) and c[0] in ("lujvo", "build") and r is not None and r.random() < .3 and joinable(arg):
            arg = r.choice([" ", "  ", " \t"]).join(arg)
    a0 = repr(arg)
    e, v = raw(a, c, arg)
    return dict(op="call", key=key(c), res=e or "= " + repr(v), a0=a0, a1=repr(arg)), v


def joinable(ws):
    return bool(ws) and all(w and not any(ch.isspace() for ch in w) for w in ws)


def spoil(v, r):
    """The caller writes into what it was given."""
    if isinstance(v, tuple):
        for x in v:
            spoil(x, r)
    elif isinstance(v, list):
        for x in v:
            spoil(x, r)
        k = r.random()
        if k < .4:
            v.clear()
        elif k < .7:
            v.append("spoilt")
        else:
            v.reverse()
            v.insert(0, "spoilt")


# ------------------------------------------------------------- running apart
def apart(fn):
    """fn() in a forked process; its result as data."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            data = json.dumps(fn()).encode()
            with os.fdopen(wr, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("a session ended without a result")
    return json.loads(data)


# ------------------------------------------------------------------- calls
def bad_call(g):
    s = g.settings()
    k = g.r.random()
    if k < .15:     # a character that is not of the language
        t = [g.comp(exp=0), g.mutate(g.gismu())]
        w = t[1]
        i = g.r.randrange(len(w))
        t[1] = w[:i] + g.r.choice("qw17;") + w[i + g.r.randrange(2):]
        return ["lujvo", t[::g.r.choice([1, -1])], False, s]
    if k < .4:
        return ["analyse", g.soup(), False, s]
    if k < .8:
        return ["build", [g.comp(exp=0), g.badcomp()], False, s]
    return ["veljvo", g.gismu(), False, s]


def group(g):
    """About five calls that have something in common."""
    k = g.r.random()
    cm = g.r.random() < .2
    if k < .25:
        f = g.r.choice(["analyse", "veljvo", "score", "isbrivla"])
        w = [g.extended, g.zihevla, g.lujvo_like, g.word][g.r.randrange(4)]()
        return [[f, w, False, s] for s in g.r.sample(SETTINGS, 4) + [DEFAULT]]
    if k < .5:
        t = g.tanru(exp=.15)
        f = g.r.choice(["lujvo", "build"])
        return [[f, t, cm, s] for s in g.r.sample(SETTINGS, 3) + [DEFAULT]] + [[f, t, not cm, DEFAULT]]
    if k < .65:
        w, s = g.word(), g.settings()
        return [[f, w, False, s] for f in ("analyse", "veljvo", "score", "isbrivla", "gol")]
    if k < .8:
        # like words: one letter apart, respelt, a prefix
        w, s = g.word(), g.settings()
        f = g.r.choice(["analyse", "veljvo"])
        return [[f, x, False, s] for x in (w, g.mutate(w), g.respell(w), w[:-1], g.cmavo() + w)]
    if k < .93:
        t, s = g.tanru(exp=.1), g.settings()
        u = list(t)
        u[g.r.randrange(len(u))] = g.comp()
        return [["build", x, cm, s] for x in (t, u, t[::-1], t[:-1], [g.respell(x) for x in t])]
    if k < .96:
        w, s = g.r.choice([g.rafsi, g.vowels, g.cluster, g.word])(), g.settings()
        ws = [w, g.mutate(w), g.rafsi(), g.rafsi(), g.mzify(w)]
        f = g.r.choice(["selrafsi", "gismu", "validrafsi", "tarmi", "split"])
        return [[f, x, False, s] for x in ws]
    if k < .98:
        p, s = [g.rafsi(), "y", g.rafsi(), "'y", g.zihevla()], g.settings()
        return [["meanings", x, False, s] for x in (p, p[::-1], p[:3], p[2:], p[1:])]
    ps = [[g.r.choice(["bla", "y", "r", "'y", "gerku", "n", "mlatu"]) for _ in range(g.r.randint(1, 5))] for _ in range(3)]
    return [["indices", p, False, DEFAULT] for p in ps] + [["normalise", g.respell(g.word()), False, DEFAULT] for _ in range(2)]


# ------------------------------------------------------------------ C17
class Service:
    FUNCTIONS = ["analyse", "veljvo", "score", "isbrivla", "gol", "lujvo", "build", "forms", "best"] + INNER

    def __init__(self, a, g, scale, n, put):
        self.a, self.g, self.put = a, g, put
        self.scale, self.n = scale, n

    def clean(self, calls):
        """each call alone in a process of its own"""
        return [apart(lambda c=c: perform(self.a, c)[0]) for c in calls]

    def settings_that_matter(self, g):
        """Calls that have something in common; often some whose answers differ with one setting only."""
        calls = group(g)
        if g.r.random() < .35:
            return calls
        which = g.r.randrange(5)     # the setting
        best = None
        for _ in range(12):
            f = g.r.choice(self.FUNCTIONS)
            if f in ("lujvo", "build", "forms", "best"):
                arg = g.tanru(exp=.3 if which in (1, 2, 3) else .05)
                if which == 4 and g.r.random() < .5:
                    arg = [g.mzify(x) for x in arg]
                elif which == 4:     # rafsi that meet in mz
                    arg = ["-" + g.r.choice(gen.ENDS_M) + "-", "-" + g.r.choice(gen.STARTS_Z) + "-"]
                    arg = ["-" + g.rafsi() + "-"] * (g.r.random() < .4) + arg + ["-" + g.rafsi() + "-"] * (g.r.random() < .6)
            elif f == "gismu" or (which == 4 and g.r.random() < .2):
                arg = g.mzify(g.gismu())
            else:
                arg = (g.extended if which in (1, 2, 3) else g.r.choice([g.word, g.lujvo_like, g.beheaded, g.extended, g.zihevla]))()
                if which == 4:
                    arg = g.mzify(arg)
            if f in INNER and which == 4 and g.r.random() < .5:
                arg = g.mzify(g.beheaded())
            cm = g.r.random() < .15 and f in ("lujvo", "build", "best", "zihevla")
            res = {}
            for v in sorted({x[which] for x in SETTINGS}):     # what is remembered must not hide the difference
                mine = [x for x in SETTINGS if x[which] == v]
                res.update(zip(map(tuple, mine), self.answers([[f, arg, cm, x] for x in mine])))
            pairs = [[list(x), list(y)] for x in res for y in res
                     if x[which] != y[which] and x[:which] == y[:which] and x[which + 1:] == y[which + 1:] and res[x] != res[y]]
            if pairs:
                s, t = g.r.choice(pairs)
                best = [[f, arg, cm, s], [f, arg, cm, t]] + [[f, arg, cm, x] for x in g.r.sample(SETTINGS, 2)]
                u, v = g.r.choice(pairs)
                return best + [[f, arg, cm, u]]
        return calls

    def answers(self, calls):
        """What they return, one after another in a process where nothing was called before"""
        return apart(lambda: [perform(self.a, c)[0]["res"] for c in calls])

    def session(self, calls, hists, bad, seed):
        a, r = self.a, random.Random(seed)
        evs = [dict(op="start", tables=digest(a))]
        for h in hists:
            ks = r.sample(range(len(calls)), min(3, len(calls)))
            v, held = None, {}
            for st in h:
                if st["op"] == "spoil":
                    spoil(v, r)
                    evs.append(dict(op="spoil", id=0))
                    continue
                c = bad if st["k"] == 0 else calls[ks[(st["k"] - 1) % len(ks)]]
                if st["op"] == "again" and isinstance(c[1], list):
                    # the same list object as before, with what this call needs in it
                    lst = held.setdefault("l", [])
                    lst[:] = c[1]
                    e, v = perform(a, c, lst)
                else:
                    e, v = perform(a, c, None, r)
                evs.append(e)
        evs.append(dict(op="tables", tables=digest(a)))
        return evs

    def threads(self, calls, bad, seed, k=4, rounds=3):
        a, r = self.a, random.Random(seed)
        evs = [dict(op="start", tables=digest(a))]
        sys.setswitchinterval(1e-5)
        lock = threading.Lock()
        gate = threading.Barrier(k)

        def work(rr):
            order = (calls + [bad]) * rounds
            rr.shuffle(order)
            gate.wait()
            for c in order:
                e, v = perform(a, c, None, rr)
                with lock:
                    evs.append(e)
                spoil(v, rr)
        a.LIMIT = 0      # no alarms outside the main thread
        ts = [threading.Thread(target=work, args=(random.Random(r.random()),)) for _ in range(k)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        evs.append(dict(op="tables", tables=digest(a)))
        return evs

    def turns(self, calls, schedules, seed):
        """Calls stopped between their lines while others go on, as the model's schedules say."""
        a, r = self.a, random.Random(seed)
        evs = [dict(op="start", tables=digest(a))]
        root = os.path.join(a.REPO, "py", "latkerlo_jvotci")
        a.LIMIT = 0      # no alarms outside the main thread
        seen = []
        for c in calls:
            ls, (e, _) = turns.lines(lambda: perform(a, c), root)
            seen.append(ls)
            evs.append(e)
        # every line of a call is a place to stop at: the first time, and some of the others
        places = [(i, k) for i, ls in enumerate(seen[:2]) for k in {l: k for k, l in reversed(list(enumerate(ls)))}.values()]
        places += [(i, r.randrange(len(seen[i]))) for i in (0, 1) for _ in range(15) if seen[i]]
        r.shuffle(places)
        lost = 0
        for i, k in places[:60]:
            sch = r.choice(schedules)
            who = [i] + [j for j in range(len(calls)) if j != i]      # the model's callers 1, 2, 3
            cuts = max(sch.count(1), 1) - 1
            if cuts == 1 and r.random() < .5:
                sch = [1, 2, 2, 1]
            n = max(sch)
            mine = [calls[j] for j in who[:n]]
            at = [sorted(r.sample(range(len(seen[j])), min(cuts, len(seen[j])))) for j in who[:n]]
            at[0] = sorted({k} | set(at[0][1:]))
            res, followed = turns.Turns([lambda c=c: perform(a, c)[0] for c in mine], at, root).run([x - 1 for x in sch])
            evs += [e for e in res if e]
            lost += not followed
            if lost > 2:
                break
        evs.append(dict(op="tables", tables=digest(a)))
        return evs

    def run(self, models):
        g = self.g
        hists = models[0]
        schedules = [h for hs in models[1:] for h in hs]
        groups = max(1, int(640 * self.scale / self.n))
        per = 24
        elsewhere = []
        plan = []
        for i in range(groups):
            calls = self.settings_that_matter(g)
            bad = bad_call(g)
            plan.append((calls, bad))
            elsewhere += calls + [bad]
        other = self.elsewhere(elsewhere)
        for i, (calls, bad) in enumerate(plan):
            base = self.clean(calls + [bad])
            hs = [hists[(i * per + j * 7919) % len(hists)] for j in range(per)]
            if i % 4 == 3:
                evs = apart(lambda: self.threads(calls, bad, g.r.random()))
            else:
                evs = apart(lambda: self.session(calls, hs, bad, g.r.random()))
            if i % 4 == 1:
                evs += apart(lambda: self.turns(calls[:3], schedules, g.r.random()))[1:]
            self.put(evs[0])
            for e in base + other[i * 6:i * 6 + 6]:
                self.put({**e, "apart": True})
            for e in evs[1:]:
                self.put(e)
        # one long life: all the calls, twice, in one process
        def long():
            a, r = self.a, random.Random(1)
            order = elsewhere[:600] * 2
            r.shuffle(order)
            evs = [dict(op="start", tables=digest(a))]
            for c in order:
                e, v = perform(a, c, None, r)
                evs.append(e)
                if r.random() < .5:
                    spoil(v, r)
                    evs.append(dict(op="spoil", id=0))
            return evs + [dict(op="tables", tables=digest(a))]
        for e in apart(long):
            self.put(e)

    def elsewhere(self, calls):
        """The same calls in a process started anew, with other hash seeds."""
        env = dict(os.environ, PYTHONHASHSEED=str(1 + self.g.r.randrange(1000)))
        p = subprocess.run([sys.executable, "-B", os.path.abspath(__file__)], input=json.dumps(calls), capture_output=True, text=True, env=env, timeout=600)
        return json.loads(p.stdout)


# ------------------------------------------------------------------ C32
class Ported(Service):
    """The same histories with the other versions.  A history is made by the runner in one go."""
    FUNCTIONS = ["analyse", "analyse", "veljvo", "score", "isbrivla", "gol", "gismu", "lujvo", "build", "build", "build"]
    NAMES = dict(analyse="analyse", veljvo="veljvo", score="score", isbrivla="isbrivla", gol="gismuorlujvo", lujvo="lujvo", build="build",
                 indices="indices", normalise="normalise", gismu="isgismu", meanings="meanings")

    def mine(self, c):
        """The call as the runner knows it, or None"""
        f, arg, cm, s = c
        text = "".join(arg) if isinstance(arg, list) else arg
        if f not in self.NAMES or not text.isascii() or (f == "meanings" and self.a.kind == "rs"):
            return None
        if self.a.kind == "rs" and f in ("lujvo", "build") and not joinable(arg):
            return None
        return [self.NAMES[f], arg, s, cm]

    def answers(self, calls):
        mine = [self.mine(c) for c in calls]
        if None in mine:
            return [""] * len(calls)
        if self.a.kind == "js":
            return [e["res"] for e in self.events("alone", [mine])] or [""]
        self.fresh()
        return [self.rust(c)["res"] for c in mine]

    def some(self):
        while True:
            calls = [c for c in map(self.mine, self.settings_that_matter(self.g)) if c]
            bad = self.mine(bad_call(self.g))
            if len(calls) > 1 and bad:
                return calls, bad

    def steps(self, calls, hists, bad):
        r, res = self.g.r, []
        for h in hists:
            ks = r.sample(range(len(calls)), min(3, len(calls)))
            for st in h:
                if st["op"] == "spoil":
                    res.append(dict(op="spoil", how=r.randrange(3)))
                    continue
                c = bad if st["k"] == 0 else calls[ks[(st["k"] - 1) % len(ks)]]
                op = st["op"]
                if op == "call" and c[0] in ("lujvo", "build") and joinable(c[1]) and r.random() < .3:
                    op = "string"
                res.append(dict(op=op, c=c))
        return res

    def fresh(self):
        """No call was made in it."""
        self.a.stop()

    def tables(self):
        return self.a.do("tables", None)[1] or "" if self.a.kind == "js" else ""

    def told(self, c, ans, how="call"):
        return dict(op="call", key=key(c), res=json.dumps(ans), a0="", a1="", how=how)

    def rust(self, c):
        return self.told(c, self.a.ask("\t".join(escaped(x) for x in self.rust_fields(c))))

    def rust_fields(self, c):
        f, arg, s, cm = c
        return [f, flags(s, cm)] + (arg if f == "indices" else [" ".join(arg) if isinstance(arg, list) else arg])

    def alone(self, calls):
        if self.a.kind == "js":
            return self.events("alone", [[c] for c in calls])
        res = []
        for c in calls:
            self.fresh()
            res.append(self.rust(c))
        return res

    def session(self, steps):
        if self.a.kind == "js":
            return self.events("service", steps)
        return [self.rust(st["c"]) for st in steps if st["op"] != "spoil"]

    def events(self, f, x):
        e, v = self.a.do(f, x)
        return v if not e and isinstance(v, list) else [dict(op="call", key="[]", res=e, a0="", a1=e or "BadResult", how="call")]

    def threads(self, calls):
        e, v = self.a.do("threads", ["\x1f".join(self.rust_fields(c)) for c in calls])
        if e or not isinstance(v, list):
            return [dict(op="call", key="[]", res=e, a0="", a1=e or "BadResult", how="thread")]
        return [self.told(calls[i], ans, "thread") for i, ans in v]

    def history(self, calls, make, port):
        """Calls alone, then what make() records in a process where nothing was called before"""
        self.fresh()
        self.put(dict(op="start", tables=self.tables(), port=port))
        for e in self.alone(calls):
            self.put({**e, "apart": True})
        self.fresh()
        for e in make():
            self.put(e)
        self.put(dict(op="tables", tables=self.tables()))

    def run(self, models):
        g, hists, per, many, port = self.g, models[0], 24, [], self.port
        for i in range(max(1, int((1600 if self.a.kind == "rs" else 600) * self.scale / self.n))):
            calls, bad = self.some()
            many += calls + [bad]
            if self.a.kind == "rs" and i % 2:
                self.history(calls + [bad], lambda: self.threads(calls + [bad]), port)
            else:
                hs = [hists[(i * per + j * 7919) % len(hists)] for j in range(per)]
                self.history(calls + [bad], lambda: self.session(self.steps(calls, hs, bad)), port)
        # one long life: all the calls, twice, in one process
        order = many[:600] * 2
        g.r.shuffle(order)
        steps = []
        for c in order:
            steps.append(dict(op="call", c=c))
            if g.r.random() < .5:
                steps.append(dict(op="spoil", how=g.r.randrange(3)))
        self.history(many[:600], lambda: self.session(steps), port)


def again(i, evs):
    """The history of a failure of C32, made again"""
    import port
    res = []
    p = Ported(port.opened(i), None, 1, 1, res.append)
    calls = [json.loads(e["key"]) for e in evs if e.get("apart")]
    rest = [e for e in evs[1:] if not e.get("apart") and e["op"] != "tables"]
    steps = [dict(op="spoil", how=e["how"]) if e["op"] == "spoil" else dict(op=e["how"], c=json.loads(e["key"])) for e in rest]
    threads = any(e.get("how") == "thread" for e in rest)
    p.history(calls, lambda: p.threads(calls) if threads else p.session(steps), i)
    return res


# ------------------------------------------------------------------ C19
def enc(v):
    return v if isinstance(v, str) else json.dumps(v)


def port_history(p, h):
    """The history in another version (the runner makes it in one go)."""
    e, v = p.do("odometer", h)
    return [dict(op="start", tables="")] + (v if not e else [dict(op="new", id=1, opts=[], err=e)])


def odometer(a, g, hists, scale, n, put):
    ported = hasattr(a, "do")
    It = None if ported else getattr(a.TARMI, "SettingsIterator")

    def options(shape, r):
        """the model's shape with other values in it; the trace has their names"""
        vals = r.sample(["x", "yy", "0", "left", "right", "q1", "q2", "q3", "q4", "q5", "STANDARD", "z"], 12)
        res = []
        for w in shape:
            res.append([vals.pop() for _ in w])
        return res

    def one(h, r):
        if ported:
            return port_history(a, [dict(st, given=options(st["opts"], r)) if st["op"] == "new" and "given" not in st else st for st in h])
        evs = [dict(op="start", tables="")]
        its, last, seen = {}, {}, []
        for st in h:
            i = st["id"]
            if st["op"] == "new":
                o = options(st["opts"], r) if "given" not in st else st["given"]
                e, it = a.call(It, [list(x) for x in o] if r.random() < .7 else tuple(tuple(x) for x in o))
                its[i] = it
                evs.append(dict(op="new", id=i, opts=[[enc(x) for x in w] for w in o], err=e))
                if e:
                    return evs
            elif st["op"] == "next":
                e, v = a.call(next, its[i])
                ok = not e and isinstance(v, list)
                evs.append(dict(op="next", id=i, out=[enc(x) for x in v] if ok else [], err=e if e or ok else "BadResult",
                                fresh=bool(e) or not any(v is x for x in seen)))
                if not e:
                    last[i] = v
                    seen.append(v)
            elif st["op"] == "spoil":
                v = last.get(i)
                if isinstance(v, list):
                    r.choice([v.clear, v.reverse, lambda: v.append("spoilt"), lambda: v.__setitem__(slice(0, 1), ["spoilt"])])()
                evs.append(dict(op="spoil", id=i))
            elif st["op"] == "iter":
                e, v = a.call(iter, its[i])
                evs.append(dict(op="iter", id=i, same=v is its[i]))
            elif st["op"] == "drain":
                def drain():
                    res = []
                    for x in its[i]:
                        res.append([enc(y) for y in x])
                        if len(res) > 5000:
                            break
                    return res
                e, v = a.call(drain)
                evs.append(dict(op="drain", id=i, outs=v or [], err=e))
        return evs

    def random_history(r):
        h, live = [], 0
        for _ in range(r.randint(5, 60)):
            k = r.random()
            if live == 0 or (k < .1 and live < 3):
                live += 1
                shape = [["v%d" % j for j in range(r.choice([1, 1, 2, 2, 3, 3, 4]))] for _ in range(r.choice([1, 2, 3, 3, 4]))]
                if sum(map(len, shape)) > 12:
                    shape = shape[:2]
                h.append(dict(op="new", id=live, opts=shape))
            else:
                h.append(dict(op=r.choice(["next"] * 14 + ["spoil", "spoil", "iter", "drain"]), id=r.randint(1, live)))
        return h
    mine = hists
    for h in mine:
        for e in one(h, g.r):
            put(e)
    for _ in range(max(1, int(1200 * scale / n))):
        for e in one(random_history(g.r), g.r):
            put(e)
    # the published options, several at a time
    pub = a.do("published", None)[1] if ported else getattr(a.TARMI, "SETTINGS")
    put(dict(op="start", tables=""))
    put(dict(op="published", opts=[[enc(x) for x in w] for w in pub]))
    h = [dict(op="new", id=1, opts=[], given=pub), dict(op="new", id=2, opts=[], given=pub)]
    for j in range(80):
        h += [dict(op="next", id=1)] + ([dict(op="next", id=2)] if j % 3 == 0 else []) + ([dict(op="spoil", id=1)] if j % 5 == 0 else [])
    h += [dict(op="drain", id=2), dict(op="new", id=3, opts=[], given=pub), dict(op="drain", id=3), dict(op="next", id=3), dict(op="drain", id=3)]
    for e in one(h, g.r):
        put(e)
    put(dict(op="published", opts=[[enc(x) for x in w] for w in pub]))


def main(prop, shard, n, seed, scale, out):
    if "PORT" in os.environ:
        import port
        api = port.opened(shard)
    else:
        import api
    g = G("%s/%s/%d" % (prop, seed, shard))
    models = json.load(open(os.environ["HISTORIES"]))
    hists = models[0] = models[0][shard::n]
    count = 0
    with open(out, "w") as f:
        def put(e):
            nonlocal count
            count += 1
            f.write(json.dumps({"n": count, **e}) + "\n")
        if prop in ("C17", "C32"):
            g.r.shuffle(hists)
            s = (Service if prop == "C17" else Ported)(api, g, scale, n, put)
            s.port = shard % 3
            s.run(models)
        else:
            if scale < 5:
                hists = [h for h in hists if g.r.random() < .25 * scale]
            odometer(api, g, hists, scale, n, put)


if __name__ == "__main__":
    import api
    print(json.dumps([perform(api, c)[0] for c in reversed(json.load(sys.stdin))][::-1]))
