"""Make the recorded calls again, on the current tree: for check --replay."""
import ast
import json
import os


def again(prop, fail):
    if prop in ("C27", "C28", "C30", "C31", "C33"):
        import fronts
        return fronts.again(prop, fail)
    if prop == "C34":
        import tablegen
        return tablegen.again(fail)
    if "session" in fail:
        return session(prop, fail["session"])
    if "k" not in fail["record"]:     # only the first histories that fail are kept
        return []
    return [record(fail["record"])]


def record(r):
    if "PORT" in os.environ:
        import port
        a = port.opened(r.get("port", 0))
    else:
        import api as a
    r = dict(r)
    k = r["k"]
    s, cm, t, w = r.get("s"), r.get("cm", False), r.get("t"), r.get("w")
    if k == "word":
        if r["t"] != "BUILT":
            r["t"], r["d"] = a.analyse(w, s)
    elif k == "built":
        e, r["w"], _, _ = a.build(t, cm, s)
        r["at"] = a.analyse(r["w"], s)[0]
    elif k == "round":
        e, r["w"], _, _ = a.build(t, cm, s)
        r["ve"], r["v"] = a.veljvo(r["w"], s)
    elif k in ("best", "refuse"):
        r["e"], x, _, _ = a.build(t, cm, s)
        if k == "best":
            r["w"] = x
    elif k == "scores":
        e, w0, r["sc"], _ = a.build(t, cm, s)
        r["w"], r["d"] = w0, a.analyse(w0, s)[1]
        r["e2"], r["s2"] = a.score(w0, s)
    elif k == "score":
        r["d"] = a.analyse(w, s)[1]
        r["e2"], r["s2"] = a.score(w, s)
    elif k == "spans":
        e, r["w"], _, r["ix"] = a.build(t, cm, s)
        r["at"], r["d"] = a.analyse(r["w"], s)
    elif k == "indices":
        r["ie"], r["ix"] = a.indices(r["d"])
    elif k == "tails":
        r["t"] = a.analyse(w, s)[0]
        base = [s[0], False, "CLUSTER", False, s[4]]
        r["tl"] = [[n, a.analyse(w[n:], s)[0], a.analyse(w[n:], base)[0]] for n, _, _ in r["tl"]]
    elif k == "slinkuhi":
        r["t"] = a.analyse(w, s)[0]
        r["to"] = a.analyse(r["cv"] + w, [s[0], False, "CLUSTER", False, s[4]])[0]
    elif k == "gismu":
        r["t"], r["d"] = a.analyse(w, s)
        r["ig"] = a.isgismu(w, s[4])
    elif k == "outcome":
        f, arg = r["f"], ast.literal_eval(r["a"])
        if f in ("lujvo", "lujvo_str", "analytics"):
            oc = a.build(arg, r.get("cm", False), s)[0]
        elif f in ("analyse", "veljvo", "score"):
            oc = dict(analyse=a.analyse, veljvo=a.veljvo, score=a.score)[f](arg, s)[0]
            oc = "" if oc in ("GISMU", "ZIhEVLA", "LUJVO", "EXTENDED_LUJVO", "CMEVLA") else oc
        elif f == "isbrivla":
            oc = a.isbrivla(arg, s)
        elif f == "gismu_or_lujvo":
            oc = a.gismu_or_lujvo(arg, s[0], s[4])
        elif f == "normalise":
            oc = a.normalise(arg)[0]
        else:
            oc = a.indices(arg)[0]
        r["oc"] = "" if oc in ("yes", "no") else oc
    elif k == "gate":
        from gen import SETTINGS
        rs = [a.analyse(w, x) for x in SETTINGS]
        r["ts"], r["ds"] = [x for x, _ in rs], [" ".join(d) for _, d in rs]
    elif k == "dict":
        r["e"], r["w"], _, r["ix"] = a.build(t, cm, s)
    elif k in ("owner", "veljvo"):
        r["ve"], r["v"] = a.veljvo(w, s)
    elif k == "agree":
        r["t"], r["d"] = a.analyse(w, s)
        r["ve"], r["v"] = a.veljvo(w, s)
        r["se"], r["sc"] = a.score(w, s)
        r["ie"], r["ix"] = a.indices(r["d"]) if r["d"] else ("", [])
        n = a.normalise(w)[1]
        r["b"], r["gl"] = a.isbrivla(w, s), a.gismu_or_lujvo(n, s[0], s[4])
        r["base"] = a.analyse(n, [s[0], False, "CLUSTER", False, s[4]])[0]
    elif k == "same":
        r["e"], r["w"], _, _ = a.build(t, cm, s)
        r["e1"], r["w1"] = a.lujvo(t, cm, s)
    elif k == "reads":
        r["t"], r["d"] = a.analyse(w, s)
        r["ve"], r["v"] = a.veljvo(w, s)
        r["se"], r["sc"] = a.score(w, s)
        r["ie"], r["ix"] = a.indices(r["d"]) if r["d"] else ("", [])
        n = r["nw"] = a.normalise(w)[1]
        r["b"], r["gl"], r["ig"] = a.isbrivla(w, s), a.gismu_or_lujvo(n, s[0], s[4]), a.isgismu(n, s[4])
    elif k == "builds":
        r["e"], r["w"], r["sc"], r["ix"] = a.build(t, cm, s)
        r["e1"], r["w1"] = a.lujvo(t, cm, s)
        r["fe"], r["fs"] = a.forms(t, s) if a.kind == "rs" else ("", [])
    elif k == "hyphens":
        e, r["w"], _, r["ix"] = a.build(t, cm, s)
    elif k == "variant":
        def one(x):
            f = r["f"]
            if f == "build":
                return json.dumps(a.build(x, r.get("cm", False), s))
            return json.dumps(dict(analyse=a.analyse, veljvo=a.veljvo, score=a.score, isbrivla=a.isbrivla)[f](x[0], s))
        r["r1"], r["r2"] = one(r["p"]), one(r["v"])
        r["nv"] = a.normalise(r["v"][0])[1]
        r["nn"] = a.normalise(r["nv"])[1]
    return r


def session(prop, evs):
    import random
    if prop == "C32":
        import sessions
        return sessions.again(evs[0]["port"], evs)
    import api as a
    import sessions as S
    if prop == "C19":
        its, res, seen, last = {}, [], [], {}
        for e in evs:
            e = dict(e)
            if e["op"] == "new":
                e["err"], its[e["id"]] = a.call(a.TARMI.SettingsIterator, [list(x) for x in e["opts"]])
            elif e["op"] == "next":
                err, v = a.call(next, its[e["id"]])
                e.update(out=[S.enc(x) for x in v] if not err else [], err=err, fresh=bool(err) or not any(v is x for x in seen))
                if not err:
                    seen.append(v)
                    last[e["id"]] = v
            elif e["op"] == "spoil":
                if e["id"] in last:
                    last[e["id"]].append("spoilt")
            elif e["op"] == "iter":
                e["same"] = a.call(iter, its[e["id"]])[1] is its[e["id"]]
            elif e["op"] == "drain":
                e["err"], v = a.call(lambda: [[S.enc(y) for y in x] for x in its[e["id"]]])
                e["outs"] = v or []
            elif e["op"] == "published":
                e["opts"] = [[S.enc(x) for x in w] for w in a.TARMI.SETTINGS]
            res.append(e)
        return res
    res = [dict(evs[0], tables=S.digest(a))]
    alone = [e for e in evs[1:] if e.get("apart")]
    res += [dict(S.apart(lambda e=e: S.perform(a, json.loads(e["key"]))[0]), n=e["n"]) for e in alone]

    def rest():
        r, v, out = random.Random(1), None, []
        for e in evs[1:]:
            if e.get("apart"):
                continue
            if e["op"] == "spoil":
                S.spoil(v, r)
                out.append(e)
            elif e["op"] == "tables":
                out.append(dict(op="tables", tables=S.digest(a)))
            else:
                x, v = S.perform(a, json.loads(e["key"]), None, r)
                out.append(x)
        return out
    return res + S.apart(rest)
