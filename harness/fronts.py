"""What users of the Rust command line and of the web page see, and strings of flags: for spec/Fronts.tla.

The histories come from TLC (spec/MC_Flags.tla, spec/MC_Cli.tla, spec/MC_Page.tla, ...); real words are put into them.
"""
import ast
import json
import os
import re
import resource
import subprocess
import sys
import tempfile
import time
from html import unescape
from html.parser import HTMLParser

import gen
import port
from gen import G, DEFAULT

LETTERS = "cSAFC21rgz"
RED = "\x1b[91m"


# ------------------------------------------------------------------ C27
def fieldwise(f):
    cm, y, c, x, g, m = f
    return dict(cm=cm, y=dict(Standard="STANDARD", AllowY="ALLOW_Y", ForceY="FORCE_Y").get(y, y),
                c=dict(Cluster="CLUSTER", TwoConsonants="TWO_CONSONANTS", OneConsonant="ONE_CONSONANT").get(c, c), x=x, g=g, m=m)


NOTHING = fieldwise([False, "", "", False, False, False])


def flag_events(a, h):
    e, v = a.do("flags", h)
    if e:
        return [dict(op="select", f=h[0], ok=True, set=NOTHING, shown=e, again=False)]
    first, steps = v
    evs = [dict(op="select", f=h[0], ok=first is not None, set=fieldwise(first[0]) if first else NOTHING,
                shown=first[1] if first else "", again=bool(first and first[2]))]
    if first:
        evs += [dict(op="change", f=f, ok=ok, set=fieldwise(s), shown=shown) for f, (ok, s, shown) in zip(h[1:], steps)]
    return evs


def flag_string(r, n=6):
    s = "".join(r.choice(LETTERS) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, n])))
    if r.random() < .12:
        i = r.randrange(len(s) + 1)
        s = s[:i] + r.choice(["x", "a", " ", "-", "/", "R", "0", "f", "s", "B", "D", "E", "3", "12", "'", "y"]) + s[i:]
    return s


def flags(a, g, hists, times, put):
    put(dict(op="all", all=[fieldwise(f) for f in a.do("all", "")[1] or []]))
    for h in hists:
        for e in flag_events(a, ["".join(s) for s in h]):
            put(e)
    for _ in times(4000):
        # at most one of a group, in any order
        s = [x for k in ("c", "SAF", "C21", "r", "g", "z") for x in [g.r.choice(k)] if g.r.random() < .5]
        g.r.shuffle(s)
        h = ["".join(s) if g.r.random() < .8 else flag_string(g.r)]
        h += [flag_string(g.r) for _ in range(g.r.choice([1, 2, 4, 8, 12]))]
        for e in flag_events(a, h):
            put(e)


# ------------------------------------------------------------------ C28
def plain(out):
    """The lines of some output: without colours, errors as '!'."""
    res = []
    for l in out.split("\n"):
        l = re.sub(r"^(\x1b\[m)+", "", l)
        t = re.sub(r"\x1b\[\d*m", "", l)
        if t != "":
            res.append("!" if l.startswith(RED) else t)
    return res


def run(cmd, lines):
    """Its output (no more than some megabytes) and exit status."""
    with tempfile.TemporaryFile() as f:
        try:
            p = subprocess.run(cmd, input="".join(l + "\n" for l in lines).encode(errors="replace"), stdout=f, stderr=subprocess.DEVNULL, timeout=30,
                               preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 22, 1 << 22)))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -1
        except BrokenPipeError:
            rc = -2
        f.seek(0)
        return f.read().decode(errors="replace"), rc


def session(cmd, first, lines):
    """Ask line after line."""
    out, rc = run(cmd + (["-" + first] if first is not None else []), lines)
    parts = re.split(r"\n\x1b\[96m(\w*)\x1b\[m> (?:\x1b\[1m)?(?:\x1b\[m)*", out)[1:]
    prompts, outs = parts[::2], parts[1::2]
    quits = lines[-1].strip()[:1] == "/" and "q" in lines[-1]
    evs = [dict(op="start", f=first or "", flagged=first is not None)]
    for i, l in enumerate(lines):
        if i >= len(prompts):
            evs.append(dict(op="line", line=l, prompt="(none)", out=["(ended with %d)" % rc], ended=True))
            return evs
        end = i == len(prompts) - 1 and (i < len(lines) - 1 or quits)
        evs.append(dict(op="line", line=l, prompt=prompts[i], out=plain(outs[i])[:40], ended=end))
        if end and i < len(lines) - 1:
            return evs
    evs.append(dict(op="end", rc=rc, extra=len(prompts) - len(lines)))
    return evs


def once(cmd, first, args):
    out, rc = run(cmd + (["-" + first] if first is not None else []) + args, [])
    return dict(op="once", f=first or "", line=" ".join(args), args=args, flagged=first is not None, out=plain(out)[:40], rc=rc)


def of_flags(s):
    """settings, as the generators of words want them"""
    t = [x for x in s if x in LETTERS]
    return ("ALLOW_Y" if "A" in t else "FORCE_Y" if "F" in t else "STANDARD", "r" in t,
            "TWO_CONSONANTS" if "2" in t else "ONE_CONSONANT" if "1" in t else "CLUSTER", "g" in t, "z" in t)


def typed(g, w):
    """as somebody may type it"""
    x = g.r.random()
    return (w if x < .8 else w + " " if x < .85 else "  " + w if x < .9 else g.respell(w) if x < .95 else w.replace(" ", "  ") if " " in w else w + ".")


def word(g, s=None, a=None, tell=.15):
    if a is not None and g.r.random() < tell:
        w = telling(a, g, s or g.settings())
        if w.isascii() and w.isprintable() and len(w.split()) == 1 and w[0] != "/":
            return w
    x = g.r.random()
    if x < .35 and a is not None:
        s = s or g.settings()
        e, w, _, _ = a.build(g.tanru(exp=.1 if s[1] else .02, bad=0), g.r.random() < .4, s)
        if not e:
            return w
    if x < .5:
        row = g.r.choice(gen.ROWS)
        return g.r.choice([row["w"]] + row["r"] * 2)
    w = g.lujvo_like() if x < .75 else g.extended() if x < .9 else g.zihevla() if x < .97 else g.junk()
    if not w.isascii() or not w.isprintable() or len(w.split()) != 1 or w.strip()[0] == "/":
        w = "klama"
    return g.mutate(w) if g.r.random() < .2 else w


def tanru(g, s=None, a=None, tell=.15):
    s = s or g.settings()
    if a is not None and g.r.random() < tell:
        line = telling(a, g, s, True)
        if line.isascii() and line.isprintable() and line.strip() and line.strip()[0] != "/":
            return line
    while True:
        t = g.tanru(exp=.12 if s[1] else .02, bad=.05)
        if g.r.random() < .1:
            t[g.r.randrange(len(t))] = g.badcomp()
        line = " ".join(t)
        if line.isascii() and line.isprintable() and line.strip() and line.strip()[0] != "/":
            return line


CHOICES = ("STANDARD", "ALLOW_Y", "FORCE_Y"), (False, True), ("CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"), (False, True), (False, True)
VOWELS = ["ia", "ui", "ia'o", "uiu'i", "iau'e", "bai", "a'u", "e", "u'i", "ba'i", "io'e", "iei", "bar", "kla"]


def telling(a, g, s, build=False):
    """A word, or tanru, whose answer is another one if one of the settings is."""
    s, which = list(s), g.r.randrange(5)
    for _ in range(25):
        if build:
            arg = g.tanru(exp=.3 if which in (1, 2, 3) else .05)
            arg = [g.mzify(x) for x in arg] if which == 4 else arg
        elif which in (1, 2, 3) and g.r.random() < .5:
            arg = "".join(g.r.choice(VOWELS) + g.r.choice(["'y'", "'y'", "y", "'y", "y'"]) for _ in range(g.r.choice([1, 1, 2]))) + g.r.choice(VOWELS)
        else:
            arg = (g.extended if which in (1, 2, 3) else g.r.choice([g.word, g.lujvo_like, g.beheaded, g.extended, g.zihevla]))()
            arg = g.mzify(arg) if which == 4 else arg
        ask = (lambda x: a.build(arg, False, x)) if build else (lambda x: (a.analyse(arg, x), a.veljvo(arg, x)))
        here = ask(s)
        if any(ask(s[:which] + [v] + s[which + 1:]) != here for v in CHOICES[which] if v != s[which]):
            break
    return " ".join(arg) if build else arg


def commands(a, cmd, g, hists, times, put):
    def asked(h):
        lines, now = [], ""
        for e in h:
            if "press" in e:
                lines.append("/" + e["press"])
                now += e["press"] if set(e["press"]) <= set(LETTERS) else ""
            else:
                s = of_flags(now)
                lines.append(typed(g, word(g, s, a)) if e["ask"] == "word" else typed(g, tanru(g, s, a)) if e["ask"] == "tanru" else "")
        return lines
    for h in hists:
        for e in session(cmd, None, asked(h) + ["/q"]):
            put(e)
    for _ in times(300):
        first = None if g.r.random() < .6 else flag_string(g.r, 3)
        if first is not None and (not port_parses(first) or "h" in first):
            first = None
        h = [dict(press=flag_string(g.r, 3)) if g.r.random() < .25 else dict(ask=g.r.choice(["word"] * 5 + ["tanru"] * 3 + [""]))
             for _ in range(g.r.choice([3, 8, 8, 20]))]
        lines = asked(h)
        for i in range(len(lines)):
            if g.r.random() < .03:
                lines[i] = g.r.choice(["/h", "/help", "  /c", "/c ", "/", "/cx", "/AA", "/FA"])
        for e in session(cmd, first, lines + [g.r.choice(["/q"] * 4 + ["/quit", "/cq", "/hq", "klama", "/A"])]):
            put(e)
    for _ in times(1600):
        first = None if g.r.random() < .4 else "".join(x for k in ("c", "SAF", "C21", "r", "g", "z") for x in [g.r.choice(k)] if g.r.random() < .4)
        if first is not None and g.r.random() < .05:
            first = flag_string(g.r, 4).replace("-", "")
        s = of_flags(first or "")
        q = word(g, s, a) if g.r.random() < .5 else tanru(g, s, a)
        args = [q] if g.r.random() < .3 else q.split()
        if not args or args[0].startswith("-") and first is None or any(x.startswith("/") for x in args):
            continue
        put(once(cmd, first, args))


def port_parses(s):
    return set(s) <= set(LETTERS) and all(sum(s.count(x) for x in k) < 2 for k in ("c", "r", "g", "z", "SAF", "C21"))


# ------------------------------------------------------------------ C31
SAYINGS = "standard allow force more less cluster 2c 1c glide glidnt mz mznt cmevla brivla".split()
PYPROMPT = r"\(([SAF][TF][CTO][TF][TF])\) Enter a lujvo: ", r"\(([TF][SAF][TF][CTO][TF][TF])\) Enter a tanru: "


def printed(l):
    """A line that the Python command lines print"""
    try:
        v = ast.literal_eval(l)
    except (ValueError, SyntaxError):
        v = None
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and isinstance(v[1], list):
        return dict(k="word", t=v[0], d=v[1])
    if isinstance(v, list):
        return dict(k="tanru", v=v)
    if isinstance(v, tuple) and len(v) == 3:
        return dict(k="lujvo", w=v[0], sc=v[1], ix=v[2])
    return dict(k="error", msg=l)


def py_session(tool, lines):
    env = dict(os.environ, PYTHONPATH=os.path.join(port.REPO, "py"), PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8")
    p = subprocess.run([sys.executable, "-B", "-m", "latkerlo_jvotci." + tool], input="".join(l + "\n" for l in lines + [""]).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, env=env, cwd="/")
    parts = re.split(PYPROMPT[tool == "jvozba"], p.stdout.decode(errors="replace"))
    prompts, outs = parts[1::2], parts[2::2]
    evs = [dict(op="pystart", tool=tool)]
    for i, l in enumerate(lines):
        there = i < len(prompts)
        out = [printed(x) for x in outs[i].split("\n") if x != ""] if there else []
        evs.append(dict(op="pyline", tool=tool, line=l, prompt=prompts[i] if there else "(none)", out=out[:9], read=len(prompts) > i + 1))
        if len(prompts) <= i + 1:
            return evs
    evs.append(dict(op="end", rc=p.returncode, extra=len(prompts) - len(lines)))
    return evs


def of_sayings(ws):
    s = list(DEFAULT)
    for w in ws:
        for i, names in enumerate((dict(standard="STANDARD", allow="ALLOW_Y", force="FORCE_Y"), dict(more=True, less=False),
                                   {"cluster": "CLUSTER", "2c": "TWO_CONSONANTS", "1c": "ONE_CONSONANT"}, dict(glide=True, glidnt=False), dict(mz=True, mznt=False))):
            s[i] = names.get(w, s[i])
    return s


def py_commands(a, g, hists, times, put):
    def question(tool, said):
        s = of_sayings(said)
        q = typed(g, word(g, s, a, .45) if tool == "katna" else tanru(g, s, a, .45))
        return q if q and q[0] != "/" and "Enter a" not in q else "klama"

    def asked(h):
        said, lines = [], []
        for e in h["lines"]:
            if "say" in e:
                said += e["say"]
                ws = [w.upper() if g.r.random() < .05 else w.title() if g.r.random() < .05 else w for w in e["say"]]
                lines.append("/" + g.r.choice(["", "", "", " "]) + g.r.choice([" ", " ", "  "]).join(ws) + g.r.choice(["", "", "", " "]))
            else:
                lines.append(question(h["tool"], said))
        return lines
    for h in hists:
        for e in py_session(h["tool"], asked(h) + [question(h["tool"], [w for e in h["lines"] for w in e.get("say", [])])]):
            put(e)
    for _ in times(260):
        tool = g.r.choice(["katna", "jvozba"])
        h = []
        for _ in range(g.r.choice([4, 10, 24])):
            if g.r.random() < .3:
                h.append(dict(say=[g.r.choice(SAYINGS) if g.r.random() < .93 else g.r.choice(["all", "3c", "c", "glides", "forcey", "m", "1", "cmevla,", "-mz", "no"])
                                   for _ in range(g.r.choice([0, 1, 1, 1, 2, 3, 5]))]))
            else:
                h.append(dict(ask="?"))
        for e in py_session(tool, asked(dict(tool=tool, lines=h))):
            put(e)


# ------------------------------------------------------------------ C30
class Page:
    def __init__(self, cmd, limit=20):
        self.port = port.Port("js", cmd, limit)

    def send(self, **e):
        r = self.port.ask(json.dumps(e))
        return r if len(r) == 3 else [r[0], "", []]


class Table(HTMLParser):
    """Reads rows of cells: (text or inner markup, colspan, rowspan, class)."""
    def __init__(self):
        super().__init__()
        self.rows, self.cell, self.part = [], None, None

    def handle_starttag(self, tag, attrs):
        d = dict(attrs)
        if tag in ("thead", "tbody"):
            self.part = tag
        elif tag == "tr":
            self.end_cell()
            self.rows.append((self.part, []))
        elif tag in ("td", "th"):
            self.end_cell()
            self.cell = ["", int(d.get("colspan", 1)), int(d.get("rowspan", 1)), d.get("class")]
            self.rows[-1][1].append(self.cell)
        elif self.cell is not None:
            self.cell[0] += "<%s>" % tag

    def handle_data(self, x):
        if self.cell is not None:
            self.cell[0] += x

    def handle_endtag(self, tag):
        if tag in ("td", "th", "tr"):
            self.end_cell()

    def end_cell(self):
        self.cell = None


def read_table(html):
    """[heads, rows] as spec/Table.tla has them, or None when the markup is no such table."""
    p = Table()
    p.feed(html)
    p.close()
    heads = [c for part, c in p.rows if part == "thead"]
    body = [c for part, c in p.rows if part == "tbody"]
    columns = []
    for row in heads:
        cells = list(row)
        while cells and cells[0][0] == "":
            cells.pop(0)
        columns.append([t for t, span, _, _ in cells for _ in range(span)])
    width = len(columns[0]) if columns else None
    rows, open_labels = [], []
    for row in body:
        labs = [c for c in row if c[3] is None]
        cells = [c for c in row if c[3] is not None]
        kept = [x for x in open_labels if x[1] > 0]
        open_labels = kept + [[c[0], c[2]] for c in labs]
        rows.append(dict(lab=[x[0] for x in open_labels], cells=[[c[0], c[3]] for c in cells]))
        for x in open_labels:
            x[1] -= 1
        if width is None:
            width = len(cells)
    if any(len(c) != width for c in columns) or any(len(r["cells"]) != width for r in rows):
        return None
    return dict(heads=[[c[i] for c in columns] for i in range(width or 0)], rows=rows)


def page_events(pg, h):
    e, html, on = pg.send(op="open")
    evs = [dict(op="open", err=e)]
    for x in h:
        before = html
        e, html, on = pg.send(**x)
        r = dict(op="use", e=x, err=e, same=html == before, on=[bool(y) for y in on], read=False, t="")
        try:
            t = read_table(html)
            if t is not None:
                r.update(read=True, t=t)
        except Exception:
            pass
        if r["same"]:
            r["t"] = t if r["read"] else ""
        evs.append(r)
    return evs


def pages(a, cmd, g, hists, times, put):
    pg = Page(cmd)

    def text(s=None):
        x = g.r.random()
        if x < .04:
            return g.r.choice(["", " ", "  "])
        return typed(g, word(g, s, a) if x < .6 else tanru(g, s, a))

    def named(h):
        names = {}
        return [dict(e, text=names.setdefault(e["text"], text())) if e["op"] == "type" else e for e in h]
    for h in hists:
        for e in page_events(pg, named(h)):
            put(e)
    for _ in times(120):
        h = []
        for _ in range(g.r.choice([1, 2, 4])):
            h += [dict(op=g.r.choice(["brivla", "cmevla", "easy"]))] * (g.r.random() < .5)
            for _ in range(g.r.choice([1, 1, 2])):
                h.append(dict(op="type", text=text()))
            h += [dict(op="wait")] + [dict(op=g.r.choice(["brivla", "cmevla", "easy", "wait"]))] * (g.r.random() < .5)
        for e in page_events(pg, h):
            put(e)


# ------------------------------------------------------------------ C33
FIELDS = dict(cm=(False, True), m=(False, True), g=(False, True), x=(False, True), y=CHOICES[0], c=CHOICES[2])
MODES = ("getLujvo", "getVeljvo", "analyseBrivla")


def form_events(pg, h):
    ans = pg.ask(json.dumps(dict(op="form")))
    evs = [dict(op="form", err=ans[0], ready=len(ans) == 2 and ans[1]["ready"] is True)]
    old = ans[1]["html"] if len(ans) == 2 and ans[1] else ""
    for x in h:
        ans = pg.ask(json.dumps(x))
        v = ans[1] if len(ans) == 2 and ans[1] else None
        r = dict(op="fill", e=x, err=ans[0] if v else ans[0] or "crash", same=bool(v) and v["html"] == old)
        v = v or dict(html="", bad=False, off=False, now=dict(cm=False, y="", c="", x=False, g=False, m=False, mode="", text=""))
        lines = [unescape(re.sub(r"<[^>]*>", "", l)) for l in re.split(r"<br\s*/?>", v["html"])]
        r.update(out=lines if v["html"] else [], bad=v["bad"], off=v["off"], now=v["now"])
        old = v["html"]
        evs.append(r)
    return evs


def forms(a, cmd, g, hists, times, put):
    pg = port.Port("js", cmd)

    def question(d):
        s = [d["y"], d["x"], d["c"], d["g"], d["m"]]
        x = g.r.random()
        if x < .05:
            return g.r.choice(["", " ", "klama", "-kla-", "gerku", "qo"])
        if d["mode"] == "getLujvo":
            return typed(g, tanru(g, s, a, .45)) if x < .93 else word(g, s, a)
        return word(g, s, a, .45) if x < .93 else tanru(g, s, a)

    def filled(h, swap):
        """With real texts, and other settings for the model's"""
        d = dict(cm=False, m=False, g=False, x=False, y="STANDARD", c="CLUSTER", mode=MODES[0])
        texts, res = {}, []
        for e in h:
            e = dict(e)
            if e["op"] == "set":
                f = e["f"] = swap.get(e["f"], e["f"])
                if e["v"] not in FIELDS[f]:
                    e["v"] = FIELDS[f][0] if e["v"] == "STANDARD" else g.r.choice(FIELDS[f][1:])
                d[f] = e["v"]
            elif e["op"] == "default":
                d.update(cm=False, m=False, g=False, x=False, y="STANDARD", c="CLUSTER")
            elif e["op"] == "mode":
                d["mode"] = e["mode"]
            elif e["op"] == "text":
                e["text"] = texts.setdefault(e["text"], question(d)) if e["text"] in "12" else question(d)
            res.append(e)
        return res
    for h in hists:
        for e in form_events(pg, filled(h + [dict(op="go")], dict(m=g.r.choice("mgx"), y=g.r.choice("yc")))):
            put(e)
    for _ in times(700):
        h, mode = [], MODES[0]
        for _ in range(g.r.choice([2, 5, 12])):
            if g.r.random() < .4:
                mode = g.r.choice(MODES)
                h.append(dict(op="mode", mode=mode))
            for _ in range(g.r.choice([0, 1, 1, 2, 4])):
                f = g.r.choice("xxyycgm" if mode != MODES[0] else ["cm", "x", "y", "y", "c", "g", "m"])
                h.append(dict(op="set", f=f, v=g.r.choice(FIELDS[f])))
            h += [dict(op="default")] * (g.r.random() < .15)
            h += [dict(op="text", text="?")] * (g.r.random() < .85) + [dict(op="go")]
        for e in form_events(pg, filled(h, {})):
            put(e)


# ------------------------------------------------------------------ running
def again(prop, fail):
    """Record the history of a failure anew."""
    evs = fail.get("session") or [fail["record"]]
    if prop == "C31":
        return py_session(evs[0]["tool"], [e["line"] for e in evs if e["op"] == "pyline"])
    kind, cmds = json.load(open(os.environ["PORT"]))
    if prop == "C33":
        return form_events(port.Port("js", cmds[-1]), [e["e"] for e in evs if e["op"] == "fill"])
    if prop == "C30":
        return page_events(Page(cmds[-1]), [e["e"] for e in evs if e["op"] == "use"])
    if prop == "C27":
        a = port.opened()
        if evs[-1]["op"] == "all":
            return [dict(op="all", all=[fieldwise(f) for f in a.do("all", "")[1] or []])]
        return flag_events(a, [e["f"] for e in evs])
    e = evs[-1]
    if e["op"] == "once":
        return [once(cmds[1], e["f"] if e["flagged"] else None, e["args"])]
    lines = [x["line"] for x in evs if x["op"] == "line"]
    return session(cmds[1], evs[0]["f"] if evs[0]["flagged"] else None, lines)


def main(prop, shard, n, seed, scale, out):
    g = G("%s/%s/%d" % (prop, seed, shard))
    if prop == "C31":
        import api as a
        cmds = []
    else:
        kind, cmds = json.load(open(os.environ["PORT"]))
        a = port.opened(0)
    hists = json.load(open(os.environ["HISTORIES"]))[0]
    g.r.shuffle(hists)
    part = {"C27": 1, "C28": .1, "C30": .04, "C33": .02, "C31": .05}[prop] * scale
    hists = hists[shard::n][:max(1, int(len(hists) / n * part))]
    end = time.time() + float(os.environ.get("RECORD_SECONDS", "1e9"))
    count = 0

    class Enough(Exception):
        pass

    def times(k):
        return range(max(1, int(k * scale / n)))
    with open(out, "w") as f:
        def put(e):
            nonlocal count
            if time.time() > end:
                raise Enough
            count += 1
            f.write(json.dumps({"n": count, **e}) + "\n")
        try:
            if prop == "C27":
                flags(a, g, hists, times, put)
            elif prop == "C28":
                commands(a, cmds[1], g, hists, times, put)
            elif prop == "C31":
                py_commands(a, g, hists, times, put)
            elif prop == "C33":
                forms(a, cmds[-1], g, hists, times, put)
            else:
                pages(a, cmds[-1], g, hists, times, put)
        except Enough:
            pass
