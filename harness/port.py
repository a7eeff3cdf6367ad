"""The other versions of the library, called like api.py calls the Python one.

build(kind, dir) makes what is to be run out of /repo's sources, in dir; PORT names the command to start.
"""
import json
import os
import random
import select
import shutil
import subprocess

REPO = os.environ.get("JVOTCI_REPO", "/repo")
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "ports")


class CannotBuild(Exception):
    pass


def sh(cmd, cwd, env=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=600, env=env)
    return p.returncode, p.stdout.decode(errors="replace")


def build_js(d):
    """The published scripts, and the TypeScript sources compiled."""
    out = os.path.join(d, "js")
    rc, text = sh(["tsc", "-p", os.path.join(REPO, "js"), "--outDir", out], d)
    if not os.path.exists(os.path.join(out, "katna.js")):
        raise CannotBuild("tsc (%d): %s" % (rc, text[-1500:]))
    run = ["node", "--stack-size=3000", os.path.join(HERE, "runner.js")]
    return [run + [os.path.join(REPO, "js", "docs")], run + [out]]


def build_page(d):
    """The functions of the published scripts, and the page that uses them."""
    return [["node", "--stack-size=3000", os.path.join(HERE, "runner.js"), os.path.join(REPO, "js", "docs")],
            ["node", os.path.join(HERE, "page.js"), REPO]]


def build_debug(d):
    """The same, with the debugging page"""
    return build_page(d)[:1] + [["node", os.path.join(HERE, "debug.js"), REPO]]


def build_rs(d):
    crate = os.path.join(d, "rs")
    shutil.copytree(os.path.join(REPO, "rs", "src"), os.path.join(crate, "src"))
    os.makedirs(os.path.join(crate, "src", "bin"), exist_ok=True)
    shutil.copy(os.path.join(HERE, "runner.rs"), os.path.join(crate, "src", "bin"))
    for f in ("Cargo.toml", "Cargo.lock"):
        shutil.copy(os.path.join(HERE, f), crate)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(crate, "target"), CARGO_TERM_COLOR="never")
    rc, text = sh(["cargo", "+stable", "build", "--release", "--offline", "--quiet"], crate, env)
    if rc != 0:
        raise CannotBuild("cargo (%d): %s" % (rc, text[-2500:]))
    bins = os.path.join(crate, "target", "release")
    return [[os.path.join(bins, "runner")], [os.path.join(bins, "jvotci")]]


def build_both(d):
    return build_js(d) + build_rs(d)[:1]


BUILD = dict(js=build_js, rs=build_rs, page=build_page, debug=build_debug, both=build_both)


def prepare(kind, d):
    """Builds the version; returns the file that names its commands."""
    path = os.path.join(d, "port.json")
    json.dump([kind, BUILD[kind](d)], open(path, "w"))
    return path


def opened(shard=0):
    """The version that the environment names.  The shards take turns with the variants of it."""
    kind, cmds = json.load(open(os.environ["PORT"]))
    if kind == "both":
        return Port("rs" if shard % 3 == 2 else "js", cmds[shard % 3])
    return Port("js" if kind in ("page", "debug") else kind, cmds[shard % len(cmds)] if kind == "js" else cmds[0])


def opened_all(shard=0):
    """The same, with the other variants after it"""
    kind, cmds = json.load(open(os.environ["PORT"]))
    return [opened(shard + i) for i in range(len(cmds) if kind == "js" else 1)]


class Port:
    """One running version.  The functions are those of api.py."""
    TIMEOUTS = 0

    def __init__(self, kind, cmd, limit=20):
        self.kind, self.cmd, self.limit = kind, cmd, limit
        self.p = None

    def start(self):
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.rest = b""

    def ask(self, line):
        if self.p is None:
            self.start()
        out = self.p.stdout.fileno()
        try:
            self.p.stdin.write(line.encode(errors="replace") + b"\n")
            self.p.stdin.flush()
            while b"\n" not in self.rest:
                if not select.select([out], [], [], self.limit)[0]:
                    self.TIMEOUTS += 1
                    self.limit = 3
                    self.stop()
                    return ["Timeout", None]
                x = os.read(out, 1 << 16)
                if not x:
                    raise BrokenPipeError
                self.rest += x
        except (BrokenPipeError, OSError):
            self.stop()
            return ["crash", None]
        ans, self.rest = self.rest.split(b"\n", 1)
        return json.loads(ans)

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def do(self, f, a, s=None, cm=False):
        h = random.Random(json.dumps([f, a, s, cm]))    # the same call is always written in the same way
        tanru = f in ("build", "lujvo") and isinstance(a, list)
        if self.kind == "js":
            if s is not None and h.random() < .5:    # leave settings out that are the usual ones
                s = [None if v == d and h.random() < .8 else v for v, d in zip(s, ["STANDARD", False, "CLUSTER", False, False])]
                cm = cm or None
            if s is not None and h.random() < .5:
                s = ["=" + v if isinstance(v, str) else v for v in s]
            if tanru and h.random() < .4 and all(x and x.split() == [x] for x in a):
                a = spaced(a, h)
            return self.ask(json.dumps([f, a, s, cm]))
        return self.ask("\t".join(escaped(x) for x in self.fields(f, a, s, cm, h)))

    def fields(self, f, a, s, cm, h):
        fl = "" if s is None else flags(s, cm)
        tanru = f in ("build", "lujvo", "forms") and isinstance(a, list)
        return [f, fl] + (a if f in ("indices", "flags", "threads") else [spaced(a, h) if tanru else a])

    def analyse(self, w, s):
        e, v = self.do("analyse", w, s)
        return (e, []) if e else (v[0], v[1]) if _strings(v[1]) and isinstance(v[0], str) else ("BadResult", [])

    def build(self, t, cm, s):
        e, v = self.do("build", t, s, cm)
        if e:
            return e, "", 0, []
        try:
            w, sc, ix = v
            if not isinstance(w, str) or isinstance(sc, bool) or not isinstance(sc, int):
                return "BadResult", "", 0, []
            return "", w, sc, [[int(x), int(y)] for x, y in ix]
        except (TypeError, ValueError):
            return "BadResult", "", 0, []

    def lujvo(self, t, cm, s):
        e, v = self.do("lujvo", t, s, cm)
        return (e, "") if e else ("", v) if isinstance(v, str) else ("BadResult", "")

    def forms(self, t, s):
        e, v = self.do("forms", t, s)
        return (e, []) if e else ("", v) if isinstance(v, list) and all(_strings(x) for x in v) else ("BadResult", [])

    def veljvo(self, w, s):
        e, v = self.do("veljvo", w, s)
        return (e, []) if e else ("", v) if _strings(v) else ("BadResult", [])

    def score(self, w, s):
        e, v = self.do("score", w, s)
        return (e, 0) if e else ("", v) if isinstance(v, int) and not isinstance(v, bool) else ("BadResult", 0)

    def isbrivla(self, w, s):
        return _yes(*self.do("isbrivla", w, s))

    def isgismu(self, w, m):
        return _yes(*self.do("isgismu", w, ["STANDARD", False, "CLUSTER", False, m]))

    def gismu_or_lujvo(self, w, y, m):
        return _yes(*self.do("gismuorlujvo", w, [y, False, "CLUSTER", False, m]))

    def indices(self, d):
        e, v = self.do("indices", list(d))
        return (e, []) if e else ("", [[int(x), int(y)] for x, y in v])

    def normalise(self, w):
        e, v = self.do("normalise", w)
        return (e, "") if e else ("", v)


def escaped(x):
    return x.replace("\\", "\\\\").replace("\t", "\\t").replace("\n", "\\n").replace("\r", "\\r")


def spaced(ws, h):
    """A tanru as one string"""
    if h.random() < .7:
        return " ".join(ws)
    return h.choice(["", "", " "]) + "".join(w + h.choice([" ", "  ", "\t", " \n"]) for w in ws[:-1]) + (ws[-1] if ws else "") + h.choice(["", "", " "])


def _strings(v):
    return isinstance(v, list) and all(isinstance(x, str) for x in v)


def _yes(e, v):
    return e or ("yes" if v is True else "no" if v is False else "BadResult")


def flags(s, cm=False):
    return ("c" * cm + dict(STANDARD="", ALLOW_Y="A", FORCE_Y="F")[s[0]] + dict(CLUSTER="", TWO_CONSONANTS="2", ONE_CONSONANT="1")[s[2]]
            + "r" * s[1] + "g" * s[3] + "z" * s[4])
