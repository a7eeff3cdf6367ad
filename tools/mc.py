#!/usr/bin/env python3
"""Run only the models of a property: tools/mc.py C07 quick [index]"""
import importlib.machinery, importlib.util, os, shutil, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
l = importlib.machinery.SourceFileLoader("check", os.path.join(HERE, "check"))
check = importlib.util.module_from_spec(importlib.util.spec_from_loader("check", l))
l.exec_module(check)
for prop in sys.argv[1].split(","):
    for i, m in enumerate(check.plans.PLANS[prop].get("mc", {}).get(sys.argv[2], [])):
        if len(sys.argv) > 3 and i != int(sys.argv[3]):
            continue
        d = tempfile.mkdtemp(prefix="jvotci-mc-")
        t = time.time()
        r = check.model((d, i, m, 10000, m.get("workers", 1)))
        r = r.get("error", "%s states" % r.get("states"))[-3000:]
        print(prop, m["name"][:60], r, "%.0f s" % (time.time() - t), flush=True)
        shutil.rmtree(d)
