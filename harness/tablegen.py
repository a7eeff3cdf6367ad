"""The generator of the tables, make_rafsi_list.py, run on dictionaries of our own (C34), for spec/Exports.tla.

It runs in scratch copies of the tree, with urlopen replaced; the dictionaries come from TLC (spec/MC_Dictionary.tla) and at random.
Two runs with other hash seeds must write the same.  The four files are read by Python, node and rustc.
"""
import io
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from xml.sax.saxutils import escape

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("JVOTCI_REPO", "/repo")
FILES = dict(py="py/latkerlo_jvotci/rafsi.py", ts="js/src/rafsi.ts", js="js/docs/rafsi.js", rs="rs/src/rafsi.rs")
NODE = """
const fs = require("fs"), vm = require("vm"), mod = require("module");
require("readline").createInterface({ input: process.stdin }).on("line", l => {
  const out = JSON.parse(l).map(f => {
    try {
      let s = fs.readFileSync(f, "utf8");
      if (f.endsWith(".ts")) s = mod.stripTypeScriptTypes(s);
      const m = vm.runInNewContext(s + "\\n;RAFSI_LIST");
      return JSON.stringify([...m].map(([k, v]) => [k, [...v]]));
    } catch (e) { return "null"; }
  });
  process.stdout.write("[" + out.join(",") + "]\\n");
});
"""


# ------------------------------------------------------------------ one process that runs the generator again and again
def serve(top):
    import runpy
    import signal
    sys.dont_write_bytecode = True
    os.chdir(top)
    sys.path.insert(0, os.path.join(top, "py"))
    sys.path.insert(0, top)
    import urllib.request
    import latkerlo_jvotci  # noqa: F401  as it is in the tree, for every run
    print("ready", flush=True)
    for line in sys.stdin:
        xml = json.loads(line)
        pid = os.fork()
        if pid == 0:
            signal.alarm(20)
            rc = 1
            try:
                urllib.request.urlopen = lambda *a, **k: io.BytesIO(xml.encode())
                null = os.open(os.devnull, os.O_RDWR)
                os.dup2(null, 0)
                os.dup2(null, 1)
                sys.argv = ["make_rafsi_list.py"]
                runpy.run_path("make_rafsi_list.py", run_name="__main__")
                rc = 0
            except SystemExit as e:
                rc = 0 if e.code in (None, 0) else 1
            except BaseException:  # noqa: BLE001
                rc = 1
            os._exit(rc)
        rc = os.waitpid(pid, 0)[1]
        print("" if rc == 0 else "fails", flush=True)


class Tree:
    def __init__(self, d, name, hashseed):
        self.top = os.path.join(d, name)
        shutil.copytree(os.path.join(REPO, "py", "latkerlo_jvotci"), os.path.join(self.top, "py", "latkerlo_jvotci"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        for f in os.listdir(REPO):
            if f.endswith(".py"):
                shutil.copy(os.path.join(REPO, f), self.top)
        for f in FILES.values():
            os.makedirs(os.path.dirname(os.path.join(self.top, f)), exist_ok=True)
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen([sys.executable, "-B", os.path.join(HERE, "tablegen.py"), "serve", self.top], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
        self.ready = self.p.stdout.readline() == "ready\n"

    def file(self, k):
        return os.path.join(self.top, FILES[k])

    def make(self, xml):
        if not self.ready:
            return "cannot import"
        for k in FILES:
            if os.path.exists(self.file(k)):
                os.remove(self.file(k))
        self.p.stdin.write(json.dumps(xml) + "\n")
        self.p.stdin.flush()
        ans = self.p.stdout.readline()
        return ans.strip() if ans else "fails"

    def text(self, k):
        try:
            return open(self.file(k), encoding="utf8").read()
        except (OSError, UnicodeDecodeError):
            return None

    def stop(self):
        self.p.stdin.close()
        self.p.wait()
        self.p.stdout.close()


class Maker:
    """Events for dictionaries; what Rust reads is filled in for all of them at the end."""

    def __init__(self, r):
        self.d = tempfile.mkdtemp(prefix="jvotci-tables-")
        self.trees = [Tree(self.d, n, s) for n, s in (("a", r.randrange(1, 1000)), ("b", r.randrange(1000, 2000)))]
        self.node = subprocess.Popen(["node", "--no-warnings", "-e", NODE], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        self.rust, self.evs = [], []

    def read(self, tree):
        ns = {}
        try:
            exec(compile(tree.text("py"), "rafsi.py", "exec"), ns)  # noqa: S102  a table of ours
            py = [[k, list(v)] for k, v in ns["RAFSI_LIST"].items()]
        except Exception:  # noqa: BLE001
            py = None
        self.node.stdin.write(json.dumps([tree.file("ts"), tree.file("js")]) + "\n")
        self.node.stdin.flush()
        ts, js = json.loads(self.node.stdout.readline())
        return dict(py=py, ts=ts, js=js)

    def event(self, entries):
        xml = page(entries)
        errs = [t.make(xml) for t in self.trees]
        a, b = [self.read(t) for t in self.trees]
        rs = self.trees[0].text("rs")
        e = dict(op="export", D=[{k: v for k, v in x.items() if k != "notes"} for x in entries], notes=[x["notes"] or "" for x in entries],
                 err=errs[0] or errs[1], same=a == b and rs == self.trees[1].text("rs"), read={k: fits(a[k]) for k in a}, rows={})
        for k in a:
            e["rows"][k] = a[k] if fits(a[k]) else []
        self.rust.append(rs if rs is not None else "!")
        self.evs.append(e)

    def finish(self):
        for t in self.trees:
            t.stop()
        self.node.stdin.close()
        self.node.wait()
        for e, rows in zip(self.evs, self.rusted()):
            e["read"]["rs"] = fits(rows)
            e["rows"]["rs"] = rows if fits(rows) else []
        shutil.rmtree(self.d, ignore_errors=True)
        return self.evs

    def rusted(self, only=None):
        """What rustc makes of the Rust files, all in one program"""
        at = [i for i, x in enumerate(self.rust) if x != "!" and (only is None or i in only)]
        src = os.path.join(self.d, "rs")
        shutil.rmtree(src, ignore_errors=True)
        os.makedirs(src)
        with open(os.path.join(src, "main.rs"), "w") as f:
            for i in at:
                f.write("#[allow(warnings)] mod m%d;\n" % i)
                open(os.path.join(src, "m%d.rs" % i), "w").write(self.rust[i])
            f.write("fn main() {\n")
            for i in at:
                f.write('    for (k, v) in m%d::RAFSI.iter() { println!("%d\\t{k}{}", v.iter().map(|x| format!("\\t{x}")).collect::<String>()); }\n'
                        % (i, i))
            f.write("}\n")
        exe = os.path.join(self.d, "read")
        p = subprocess.run(["rustc", "--edition", "2024", "-C", "debuginfo=0", "-C", "codegen-units=4", "-o", exe, os.path.join(src, "main.rs")],
                           capture_output=True, text=True)
        res = [None] * len(self.rust)
        if p.returncode:
            bad = {int(x) for x in re.findall(r"/m(\d+)\.rs:", p.stderr)} or {int(x) for x in re.findall(r"\bm(\d+)::RAFSI", p.stderr)}
            left = [i for i in at if i not in bad]
            return self.rusted(left) if left and len(left) < len(at) else res
        for i in at:
            res[i] = []
        for line in subprocess.run([exe], capture_output=True, text=True).stdout.splitlines():
            i, k, *v = line.split("\t")
            res[int(i)].append([k, v])
        for i in at:
            res[i].sort()
        return res


def fits(rows):
    return isinstance(rows, list) and all(isinstance(k, str) and isinstance(v, list) and all(isinstance(x, str) for x in v) for k, v in rows)


# ------------------------------------------------------------------ dictionaries
def page(entries):
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n<dictionary>\n<direction from="lojban" to="English">']
    for e in entries:
        out.append('<valsi word="%s" type="%s"%s>' % (escape(e["w"]), e["t"], ' unofficial="true"' if "exp" in e["t"] else ""))
        out += ["  <rafsi>%s</rafsi>" % escape(x) for x in e["r"]]
        out.append("  <user><username>x</username></user><definition>$x_1$ -rab- is a rafsi (-rib-, -blo-)</definition>")
        if e["notes"] is not None:
            out.append("  <notes>%s</notes>" % escape(e["notes"]))
        out.append("</valsi>")
    return "\n".join(out + ["</direction>", '<direction from="English" to="lojban"><nlword word="x" valsi="y" /></direction>', "</dictionary>"])


def noted(e, r):
    """The notes of an entry"""
    if not e["says"] and not e["p"] and r.random() < .5:
        return r.choice([None, "", "See also {mlatu}."])
    say = r.choice(["Proposed rafsi", "RAFSI", "rafsi", "The Rafsi"]) if e["says"] else r.choice(["Short forms", "x1", "See also"])
    text = r.choice(["", "Cf. {cmalu}. ", "a-bla-c. ", "X -klama- y. ", "Not -a-; -KLA-. "]) + say + r.choice([":", " "])
    for p in e["p"]:
        text += r.choice([" ", "\n", " (", " perhaps "]) + "-%s-" % p + r.choice([", ", ". ", "), ", "; or", " and"])
    return text + r.choice(["", " -a-", " See {bau}.", " x-y."])


BYHAND = "xi ditcu jidge ronci supso zai'e gelse tsako kilma jicfo fizbu je'ebzi mu'umgu va'arga".split()


class Words:
    def __init__(self, r):
        self.r = r
        rows = json.load(open(os.path.join(HERE, "..", "spec", "rafsi.json")))
        self.gismu = [x["w"] for x in rows if re.fullmatch("[a-z]{5}", x["w"])]
        self.cmavo = [x["w"] for x in rows if len(x["w"]) < 5 or "'" in x["w"]]
        self.rafsi = [x for row in rows for x in row["r"]]

    def new(self):
        r, c, v = self.r, "bcdfgjklmnprstvxz", "aeiou"
        return "".join(r.choice(c if x == "C" else v if x == "V" else x) for x in r.choice(["CVC", "CVC", "CCV", "CCV", "CVV", "CV'V"]))

    def entries(self, n):
        r = self.r
        pool = [r.choice(self.rafsi) if r.random() < .6 else self.new() for _ in range(r.choice([3, 8, 20]))]
        res, used = [], set()
        while len(res) < n:
            x = r.random()
            if x < .4:
                w, t = r.choice(self.gismu), "gismu"
            elif x < .65:
                w, t = r.choice(self.gismu), "experimental gismu"
                like = [e["w"][:4] for e in res if "gismu" in e["t"]]
                if like and r.random() < .4:
                    w = r.choice(like) + r.choice("aeiou")
            elif x < .9:
                w, t = r.choice(self.cmavo), r.choice(["cmavo", "experimental cmavo"])
            else:
                w, t = r.choice(["mlabau", "xarju'i", "rafsi", "tcaru"]), r.choice(["lujvo", "fu'ivla", "cmavo-compound", "bu-letteral", "obsolete cmavo"])
            if r.random() < .12:
                w = r.choice(BYHAND)
                t = r.choice(["gismu", "experimental gismu"]) if re.fullmatch("[a-z]{5}", w) else "experimental cmavo"
            if w in used:
                continue
            used.add(w)
            rs = [r.choice(pool) if r.random() < .8 else self.new() for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
            ps = [r.choice(pool) if r.random() < .6 else self.new() for _ in range(r.choice([0, 0, 0, 1, 2, 4]))]
            if r.random() < .1:
                rs.append(w[:4] if r.random() < .5 else r.choice(["dit", "cfo", "kim", "xix"]))
            if r.random() < .1:
                ps += r.sample(["dit", "zbu", "ge'e", "mug", "lba", "zna", "rka"], 2)
            e = dict(w=w, t=t, r=rs, says=r.random() < .8, p=ps)
            e["notes"] = noted(e, r)
            res.append(e)
        return res


# ------------------------------------------------------------------ recording
def again(fail):
    m = Maker(random.Random(1))
    r = fail["record"]
    m.event([dict(x, notes=n) for x, n in zip(r["D"], r["notes"])])
    return m.finish()


def main(prop, shard, n, seed, scale, out):
    r = random.Random("%s/%s/%d" % (prop, seed, shard))
    hists = json.load(open(os.environ["HISTORIES"]))[0]
    r.shuffle(hists)
    hists = hists[shard::n][:int(240 * scale / n)]
    end = time.time() + float(os.environ.get("RECORD_SECONDS", "1e9")) * .7
    m, words = Maker(r), Words(r)
    for h in hists:
        m.event([dict(e, notes=noted(e, r)) for e in h])
        if time.time() > end:
            break
    for _ in range(int(240 * scale / n)):
        if time.time() > end:
            break
        m.event(words.entries(r.choice([1, 2, 4, 8, 15])))
    with open(out, "w") as f:
        for i, e in enumerate(m.finish()):
            f.write(json.dumps({"n": i + 1, **e}) + "\n")


if __name__ == "__main__" and sys.argv[1:2] == ["serve"]:
    serve(sys.argv[2])
