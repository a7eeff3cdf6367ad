#!/usr/bin/env python3
"""Shows that the models can fail: each line breaks the specification in one place, and the models named must then
report a violated property (tools/selftest.py [part of a name])."""
import concurrent.futures as cf
import importlib.machinery
import importlib.util
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
loader = importlib.machinery.SourceFileLoader("check", os.path.join(HERE, "check"))
check = importlib.util.module_from_spec(importlib.util.spec_from_loader("check", loader))
loader.exec_module(check)
P = check.plans.PLANS

# (models of, file, in it, becomes)
BROKEN = [
    ("C01", "Jvotci.tla", 'CanJoin(p, form, S) == ~Clash(p, form.f, S) /\\ ~FallsApart(p, form.f)', 'CanJoin(p, form, S) == ~Clash(p, form.f, S)'),
    ("C01", "Jvotci.tla", "~ValidPair(<<z, f[1]>>, S.m)", "FALSE"),
    ("C02", "Jvotci.tla", "open == z \\in {Y, H}", "open == TRUE"),
    ("C03", "Jvotci.tla", "IF best[i].sc > q.sc THEN", "IF best[i].sc < q.sc THEN"),
    ("C03", "Jvotci.tla", "SameClass(p, q, S) == /\\ p.tos = q.tos /\\ p.con = q.con /\\ Last(p.w) = Last(q.w)", "SameClass(p, q, S) == /\\ p.tos = q.tos /\\ Last(p.w) = Last(q.w)"),
    ("C04", "Jvotci.tla", "IF s = \"OTHER\" THEN 0 ELSE ShapeNo[s]", "IF s = \"OTHER\" \\/ Len(r) = 5 THEN 0 ELSE ShapeNo[s]"),
    ("C05", "Jvotci.tla", "at  == Len(p.w) + Len(hy) + (IF f[1] = H THEN 1 ELSE 0)", "at  == Len(p.w) + Len(hy)"),
    ("C06", "Jvotci.tla", "IF h > 0 THEN Go(h)", "IF h > 1 THEN PiecesFrom(DropN(rest, 2), Append(res, <<Y>>), whole, y, m) ELSE IF h > 0 THEN Go(h)"),
    ("C07", "Jvotci.tla", "(<<z>> \\o Take(f, 2)) \\in BannedTriples", "FALSE"),
    ("C07", "Jvotci.tla", "/\\ i > 2 \\/ Shape(other[i + 1]) \\in {\"CCVCV\", \"CCVC\", \"CCV\"}", "/\\ i > 2"),
    ("C10", "Jvotci.tla", "FallsOff == /\\ nsyl > 2 /\\ cpos > 1", "FallsOff == /\\ nsyl > 3 /\\ cpos > 1"),
    ("C11", "Jvotci.tla", "~(w[1] \\in V /\\ w[2] \\in C) /\\ Slinkuhi(w, y, m)", "FALSE"),
    ("C12", "Jvotci.tla", "SubSeq(runs[k].s, i, i + 2) \\notin BannedTriples", "TRUE"),
    ("C21", "Jvotci.tla", "/\\ ~(n = 2 /\\ ShapeS(f) = \"CCV\")", ""),
    ("C17", "MC_Service.tla", None, "Shared = TRUE"),
    ("C17", "MC_Turns.tla", None, "Scratch = TRUE"),
    ("C19", "Odometer.tla", "HasNext(it) == it.n < Combinations(it.opts)", "HasNext(it) == it.n < Combinations(it.opts) - 1"),
    ("C19", "Odometer.tla", "Advance(it) == [it EXCEPT !.n = @ + 1]", "Advance(it) == [it EXCEPT !.n = @ + 2]"),
    ("C27", "Flags.tla", "Group[s[i]] # Group[s[j]]", "TRUE"),
    ("C27", "Flags.tla", "IF KeysOnly(s) THEN PressAll(S, s, 1) ELSE S", "IF s = <<>> \\/ s[1] \\in Keys THEN PressAll(S, SelectSeq(s, LAMBDA ch : ch \\in Keys), 1) ELSE S"),
    ("C28", "Flags.tla", "THEN PressAll(S, s, 1) ELSE S", "THEN PressAll(Usual, s, 1) ELSE S"),
    ("C31", "PyCli.tla", "SayAll(Say(S, words[i], tool), words, i + 1, tool)", "IF \\A f \\in Settable(tool) : words[i] \\notin DOMAIN Names[f] THEN S ELSE SayAll(Say(S, words[i], tool), words, i + 1, tool)"),
    ("C31", "PyCli.tla", "mz |-> TRUE, mznt |-> FALSE", "mz |-> TRUE, mznt |-> TRUE"),
    ("C31", "PyCli.tla", "glide |-> TRUE, glidnt |-> FALSE", "glide |-> TRUE"),
    ("C30", "Page.tla", "Chosen(p, cm) == IF p.cm = cm THEN p ELSE Make([p EXCEPT !.cm = cm])", "Chosen(p, cm) == [p EXCEPT !.cm = cm]"),
    ("C34", "Dictionary.tla", "/\\ D[j].says } } \\ taken", "/\\ D[j].says } }"),
    ("C34", "Dictionary.tla", "x \\in gismu \\/ all(x) # {}", "all(x) # {}"),
    ("C34", "Dictionary.tla", "D[i].t \\in Cmavo \\cup Gismu /\\", ""),
    ("C34", "Dictionary.tla", "{ j \\in DOMAIN D : D[j].t = \"gismu\" }", "{ j \\in DOMAIN D : D[j].t = \"experimental gismu\" }"),
    ("C33", "Debug.tla", '[d EXCEPT !.S = Usual]', '[d EXCEPT !.S = [Usual EXCEPT !.m = d.S.m]]'),
    ("C33", "Debug.tla", '[d EXCEPT !.mode = e.mode]', '[d EXCEPT !.mode = e.mode, !.made = IF @ = <<>> THEN @ ELSE <<e.mode, d.text, d.S>>]'),
    ("C33", "Debug.tla", '[d EXCEPT !.text = e.text]', '[d EXCEPT !.text = e.text, !.S.cm = FALSE]'),
    ("C30", "Table.tla", "f[n + 1] # f[n + 1 - (Position(opts, n, i) - 1) * Weight(opts, i - 1)]", "Position(opts, n, i) = 2 /\\ f[n + 1] # f[n + 1 - Weight(opts, i - 1)]"),
]


def one(job):
    i, (prop, file, old, new) = job
    top = tempfile.mkdtemp(prefix="jvotci-self-")
    try:
        shutil.copytree(os.path.join(HERE, "spec"), os.path.join(top, "spec"))
        ms = P[prop].get("mc", {}).get("quick", []) + P[prop].get("histories", {}).get("quick", [])
        if old is None:
            ms = [dict(m, cfg=m["cfg"].replace(new.split()[0] + " = FALSE", new)) for m in ms if m["module"] + ".tla" == file]
        else:
            path = os.path.join(top, "spec", file)
            text = open(path).read()
            assert old in text, (prop, old)
            open(path, "w").write(text.replace(old, new))
        for k, m in enumerate(ms):
            d = os.path.join(top, "m%d" % k)
            os.makedirs(d)
            text = tlc(top, d, m)
            if "is violated" in text or "is equal to FALSE" in text:
                return i, "seen by " + m["name"][:60]
            if not check.finished(text):
                return i, "BROKE: " + text[-600:]
        return i, "NOT SEEN by %d models" % len(ms)
    finally:
        shutil.rmtree(top)


def tlc(top, d, m):
    for f in os.listdir(os.path.join(top, "spec")):
        shutil.copy(os.path.join(top, "spec", f), d)
    open(os.path.join(d, "M.cfg"), "w").write(m["cfg"].replace("Emit = TRUE", "Emit = FALSE"))
    out = os.path.join(d, "out")
    check.sh(["java", "-XX:+UseSerialGC", "-Xmx3g", "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", check.jar_classpath(), "tlc2.TLC",
              "-noGenerateSpecTE", "-workers", "1", "-metadir", os.path.join(d, "md"), "-config", "M.cfg", m["module"] + ".tla"], d, out, 900)
    return open(out, errors="replace").read()


jobs = [(i, b) for i, b in enumerate(BROKEN) if len(sys.argv) < 2 or sys.argv[1] in " ".join(map(str, b))]
bad = 0
with cf.ThreadPoolExecutor(6) as ex:
    for i, said in ex.map(one, jobs):
        bad += not said.startswith("seen")
        print(BROKEN[i][0], (BROKEN[i][2] or "")[:50], "->", BROKEN[i][3][:50], ":", said, flush=True)
sys.exit(bad > 0)
