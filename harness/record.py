"""Run the real code on generated inputs and write what it did, one JSON record a line.

    record.py PROP SHARD NSHARDS SEED SCALE OUT

The records are checked against the TLA+ specification by TLC (spec/Conform.tla).
"""
import json
import os
import resource
import sys
import time

import gen
import plans
from gen import G, CONS, VOW, SETTINGS, DEFAULT, INITIAL

BRIVLA = ("GISMU", "ZIhEVLA", "LUJVO", "EXTENDED_LUJVO")


class Enough(BaseException):
    """No time for more: what has been recorded so far is judged."""


class Recorder:
    def __init__(self, prop, shard, nshards, seed, scale, out):
        if "PORT" in os.environ:
            import port
            self.api, *self.others = port.opened_all(shard)
        else:
            import api
            self.api, self.others = api, []
        self.prop, self.shard, self.n, self.scale = prop, shard, nshards, scale
        self.g = G("%s/%s/%d" % (prop if prop not in SHARED else SHARED[prop], seed, shard))
        self.out = open(out, "w")
        self.count = 0
        self.end = time.time() + float(os.environ.get("RECORD_SECONDS", "1e9"))

    def put(self, **r):
        if time.time() > self.end or self.api.TIMEOUTS > 5 or any(a.TIMEOUTS > 5 for a in self.others):
            raise Enough()
        self.count += 1
        r = {"n": self.count, **r}
        self.out.write(json.dumps(r) + "\n")

    def times(self, k):
        return range(max(1, int(k * self.scale / self.n)))

    def slice(self, items, fraction=1.0):
        """This shard's part of a systematic list, thinned to the fraction."""
        mine = items[self.shard::self.n]
        f = fraction * self.scale
        if f >= 1:
            return mine
        return [x for x in mine if self.g.r.random() < f]

    # ------------------------------------------------------------ word streams
    def words(self, k, systematic=1.0):
        """(word, settings): general mix and the systematic lists"""
        g = self.g
        for _ in self.times(k):
            w = g.word()
            yield w, g.settings()
            if g.r.random() < .3:
                yield w, g.settings()
        for _ in self.times(k * .08):
            yield g.deep(), g.settings()
        if systematic:
            for w in self.slice(gen.pair_words(), .5 * systematic):
                yield w, (DEFAULT if g.r.random() < .5 else g.settings())
            for w in self.slice(gen.triple_words(), .08 * systematic):
                yield w, g.settings()
            for w in self.slice(gen.vowel_words(3), .5 * systematic):
                yield w, g.settings()

    def small(self, extra=.35):
        """Every word of the property's models (MC_Words), under the default and some other settings."""
        g = self.g
        for chunks, length in plans.WORD_MODELS.get(self.prop, plans.SMALL)[0 if self.scale < 5 else 1]:
            for w in gen.grow(chunks, length)[self.shard::self.n]:
                yield w, DEFAULT
                if g.r.random() < extra * max(1, self.scale / 4):
                    yield w, g.r.choice(SETTINGS)

    def accepted(self, k, brivla=True):
        """(word, settings, type, pieces) for accepted words only"""
        g, a = self.g, self.api
        left = len(self.times(k))
        tries = left * 40
        while left > 0 and tries > 0:
            tries -= 1
            s = g.settings()
            w = self.likely_word(s)
            t, d = a.analyse(w, s)
            if t in BRIVLA or (t == "CMEVLA" and not brivla):
                left -= 1
                yield w, s, t, d

    def likely_word(self, s):
        g, a = self.g, self.api
        k = g.r.random()
        if k < .35:
            e, w = a.lujvo(g.tanru(exp=.2 if s[1] else .02), g.r.random() < .1, s)
            if not e and w:
                return w if g.r.random() < .75 else g.mutate(w)
        if k < .6:
            return g.zihevla()
        if k < .8:
            return g.extended()
        return g.word()

    def tanrus(self, k, exp=.08, bad=.0, joints=0.0, models=1.0):
        g = self.g
        # every tanru of the models (MC_Jvozba), under some settings
        for pool, last, length, exp in plans.POOLS:
            if exp:
                for t in self.slice(gen.tanru_of(pool, last, length), models / 2):
                    yield list(t), g.r.random() < .15, g.r.choice([s for s in SETTINGS if s[1]])
                continue
            for t in self.slice(gen.tanru_of(pool, last, length), models / 8):
                yield list(t), False, (DEFAULT if g.r.random() < .2 else g.r.choice(SETTINGS))
                if g.r.random() < .5:
                    yield list(t), g.r.random() < .5, g.r.choice(SETTINGS)
        for _ in self.times(k):
            s = g.settings()
            t = g.tanru(exp=exp if s[1] else exp / 8, bad=bad)
            if s[4] and g.r.random() < .3:
                t = [g.mzify(x) if g.r.random() < .5 else x for x in t]
            yield t, g.r.random() < .22, s
        if joints:
            for t in self.slice(gen.joint_tanru(), joints):
                yield t, t[-1][-2] in CONS, (DEFAULT if g.r.random() < .6 else g.settings())

    # ------------------------------------------------------------ properties
    def p_C01(self):
        a = self.api
        for t, cm, s in self.tanrus(30000, exp=.2, joints=.6):
            e, w, sc, ix = a.build(t, cm, s)
            if not e:
                at, ad = a.analyse(w, s)
                self.put(k="built", t=t, cm=cm, s=s, w=w, at=at)

    def p_C02(self):
        a = self.api
        for t, cm, s in self.tanrus(36000, exp=.12):
            e, w, sc, ix = a.build(t, cm, s)
            if not e:
                ve, v = a.veljvo(w, s)
                self.put(k="round", t=t, cm=cm, s=s, w=w, ve=ve, v=v)

    def p_C03(self):
        a = self.api
        for t, cm, s in self.tanrus(13000, exp=.1, bad=.01, joints=.4):
            e, w, sc, ix = a.build(t, cm, s)
            self.put(k="best", t=t, cm=cm, s=s, e=e, w=w)

    def p_C04(self):
        g, a = self.g, self.api
        for t, cm, s in self.tanrus(22000, exp=.1, joints=.4):
            e, w, sc, ix = a.build(t, cm, s)
            if not e:
                at, ad = a.analyse(w, s)
                if at in ("LUJVO", "EXTENDED_LUJVO", "CMEVLA"):
                    e2, s2 = a.score(w if g.r.random() < .7 else g.respell(w), s)
                    self.put(k="scores", t=t, cm=cm, s=s, w=w, sc=sc, d=ad, e2=e2, s2=s2)
        for w, s, t, d in self.accepted(16000, brivla=False):
            if t in ("LUJVO", "EXTENDED_LUJVO", "CMEVLA"):
                w2 = w if g.r.random() < .5 else g.respell(w)
                e2, s2 = a.score(w2, s)
                self.put(k="score", w=w2, s=s, d=d, e2=e2, s2=s2)

    def p_C05(self):
        g, a = self.g, self.api
        for t, cm, s in self.tanrus(26000, exp=.1, joints=.4):
            e, w, sc, ix = a.build(t, cm, s)
            if not e:
                at, ad = a.analyse(w, s)
                self.put(k="spans", t=t, cm=cm, s=s, w=w, ix=ix, at=at, d=ad)
        for w, s, t, d in self.accepted(16000, brivla=False):
            ie, ix = a.indices(d)
            self.put(k="indices", w=w, s=s, d=d, ie=ie, ix=ix)

    def p_C06(self):
        g = self.g
        for w, s, t, d in self.accepted(60000, brivla=False):
            self.put(k="word", w=w, s=s, t=t, d=d)
            if g.r.random() < .2:
                w2 = g.respell(w)
                t, d = self.api.analyse(w2, s)
                self.put(k="word", w=w2, s=s, t=t, d=d)
        for w, s in self.small():
            t, d = self.api.analyse(w, s)
            if t in BRIVLA or t == "CMEVLA":
                self.put(k="word", w=w, s=s, t=t, d=d)

    def word_records(self, stream):
        for w, s in stream:
            t, d = self.api.analyse(w, s)
            self.put(k="word", w=w, s=s, t=t, d=d)

    def p_C07(self):
        g = self.g

        def stream():
            yield from self.small()
            yield from self.words(45000, .6)
            for _ in self.times(50000):
                s = g.settings()
                k = g.r.random()
                if k < .45:
                    w = g.lujvo_like()
                elif k < .6:
                    w = g.mutate(g.lujvo_like())
                elif k < .7:
                    w = g.mutate(g.r.choice(gen.LUJVO))
                else:
                    e, w = self.api.lujvo(["-" + g.rafsi() + "-" for _ in range(g.r.choice([2, 2, 3, 3, 4]))], g.r.random() < .2, s)
                    if g.r.random() < .5:
                        w = g.mutate(w)
                    if g.r.random() < .3:
                        s = g.settings()
                yield w, s
        self.word_records(stream())

    def p_C08(self):
        g = self.g

        def stream():
            yield from self.small()
            yield from self.words(20000, .5)
            for w in self.slice(gen.triple_words(), .3):
                yield w, g.settings()
            for w in self.slice(gen.vowel_words(4), .35):
                yield w, g.settings()
            for _ in self.times(60000):
                w = g.zihevla()
                if g.r.random() < .35:
                    w = g.mutate(w)
                elif g.r.random() < .2:
                    w = g.cmavo() + w
                yield w, g.settings()
        self.word_records(stream())

    def p_C09(self):
        g = self.g

        def stream():
            yield from self.small()
            for _ in self.times(5000):
                w = g.deep()
                yield w, g.settings()
                if g.r.random() < .3:
                    yield w, g.settings()
            for _ in self.times(56000):
                w = g.extended()
                if g.r.random() < .3:
                    w = g.mutate(w)
                elif g.r.random() < .1:
                    w = g.cmavo() + w
                yield w, g.settings()
                if g.r.random() < .3:
                    yield w, g.settings()
            for _ in self.times(9000):
                s = g.settings()
                e, w = self.api.lujvo(g.tanru(exp=.25 if s[1] else .05), g.r.random() < .2, s)
                if not e:
                    yield w, s
                    yield w, g.settings()
                    yield g.mutate(w), s
            for w in self.slice([x for x in gen.pair_words() + gen.vowel_words(3) if "y" in x], .8):
                yield w, g.settings()
            al = g.r.choice("bdk") + g.r.choice("sn") + "r" + g.r.choice("ai") + g.r.choice("iu") + "''yyy"
            for _ in self.times(20000):
                n = g.r.randint(4, 11)
                yield "".join(g.r.choice(al) for _ in range(n)), g.settings()
        self.word_records(stream())

    def tails(self, w):
        res = []
        for n in (1, 2, 3, 4):
            if n < len(w):
                p = w[:n]
                q = p[1:] if p[0] in CONS else p
                if q and q[0] in VOW and (len(q) == 1 or (len(q) == 2 and q[1] in VOW) or
                                          (len(q) == 3 and q[1] == "'" and q[2] in VOW)):
                    res.append(n)
        return res

    def p_C10(self):
        g, a = self.g, self.api

        def stream():
            yield from self.small()
            for _ in self.times(90000):
                s = g.settings()
                k = g.r.random()
                # a cmavo in front of something accepted: it should not be accepted itself
                if k < .6:
                    for _ in range(20):
                        w = self.likely_word(s)
                        if a.analyse(w, s)[0] in BRIVLA:
                            break
                    yield g.cmavo() + w, s
                elif k < .75:
                    yield "".join(g.tosmabru_rafsi()), s
                else:
                    yield g.word(), s
            for w, s, t, d in self.accepted(40000):
                yield w, s
        for w, s in stream():
            t, d = a.analyse(w, s)
            if t in BRIVLA:
                ts = []
                for n in self.tails(w):
                    x = w[n:]
                    ts.append([n, a.analyse(x, s)[0], a.analyse(x, [s[0], False, "CLUSTER", False, s[4]])[0]])
                self.put(k="tails", w=w, s=s, t=t, tl=ts)

    def p_C11(self):
        g, a = self.g, self.api

        def one(w, s, t):
            cv = "to" if g.r.random() < .6 else g.c() + g.v()
            base = [s[0], False, "CLUSTER", False, s[4]]
            self.put(k="slinkuhi", w=w, s=s, t=t, cv=cv, to=a.analyse(cv + w, base)[0])
        for w, s in self.small():
            t, d = a.analyse(w, s)
            if t in BRIVLA and w[0] in CONS:
                one(w, s, t)
        for _ in self.times(120000):
            s = g.settings()
            k = g.r.random()
            if k < .35:
                w = g.lujvo_like()[2:]
            elif k < .5:
                w = g.r.choice(INITIAL) + g.v() + g.c() + g.v() + g.r.choice(["", g.c(), "'" + g.v()])
                if g.r.random() < .5:
                    w = g.r.choice(INITIAL) + g.r.choice(["y", ""]) + g.rafsi()
            elif k < .65:
                x = g.lujvo_like()[2:]
                w = x + "y" + g.r.choice(["", "'"]) + g.part()
            else:
                w = g.word()
            t, d = a.analyse(w, s)
            if t in BRIVLA and w[:1] and w[0] in CONS:
                one(w, s, t)
        for w, s, t, d in self.accepted(16000):
            if w[0] in CONS:
                one(w, s, t)
        for t, cm, s in self.tanrus(8000, exp=.1, joints=.2):
            e, w = a.lujvo(t, False, s)
            if not e and w[:1] and w[0] in CONS:
                one(w, s, a.analyse(w, s)[0])
        # short zi'evla forms, in front of a rafsi
        for _ in self.times(8000):
            s = g.settings()
            z = (g.lujvo_like()[2:] if g.r.random() < .6 else g.zihevla()[:-1])
            e, w = a.lujvo([z + "-", g.comp(exp=0)], False, s)
            if not e and w[:1] and w[0] in CONS:
                one(w, s, a.analyse(w, s)[0])

    def p_C12(self):
        g, a = self.g, self.api

        def stream():
            yield from self.small()
            yield from self.words(40000, 1)
            for w in self.slice(gen.pair_words(), 1):
                yield w, g.settings()
            for w in self.slice(gen.triple_words(), .6):
                yield w, g.settings()
            for w in self.slice(gen.vowel_words(3), 1):
                yield w, g.settings()
        for w, s in stream():
            t, d = a.analyse(w, s)
            if t in BRIVLA or t == "CMEVLA":
                self.put(k="word", w=w, s=s, t=t, d=d)
        for t, cm, s in self.tanrus(16000, exp=.1, joints=1):
            e, w = a.lujvo(t, cm, s)
            if not e:
                self.put(k="word", w=w, s=s, t="BUILT", d=[])

    def p_C13(self):
        g, a = self.g, self.api

        def one(w, s):
            t, d = a.analyse(w, s)
            self.put(k="gismu", w=w, s=s, t=t, d=d, ig=a.isgismu(w, s[4]))
        for w, s in self.small():
            one(w, s)
        for w in self.slice(gen.gismu_shapes()):
            for s in ([DEFAULT[0], False, "CLUSTER", False, g.r.random() < .5], g.settings()):
                one(w, s)
        for w in self.slice(gen.gismu_pairs()):
            one(w, g.settings())
        for w in self.slice([c + v + "mz" + u for c in CONS for v in VOW for u in VOW]):
            for m in (False, True):
                one(w, g.settings()[:4] + [m])
        for w in self.slice(gen.GISMU):
            one(w, g.settings())
        for w in self.slice(gen.gismu_shapes(), .5):
            one(w[:4], g.settings())
        for _ in self.times(30000):
            k = g.r.random()
            w = g.mutate(g.gismu()) if k < .6 else g.word() if k < .8 else g.rafsi()
            one(w, g.settings())

    def p_C14(self):
        g, a = self.g, self.api

        def rec(f, arg, s, oc, cm=False):
            self.put(k="outcome", f=f, a=ascii(arg), s=s, oc=oc, cm=cm)
        kinds = ["analyse", "analyse", "analyse", "veljvo", "score", "isbrivla", "gismu_or_lujvo", "lujvo", "lujvo", "analytics", "lujvo_str",
                 "normalise", "indices"]
        for i in self.times(120000):
            f = g.r.choice(kinds)
            s = g.settings()
            if f in ("lujvo", "analytics", "lujvo_str"):
                t = [g.junk() if g.r.random() < .4 else g.badcomp() if g.r.random() < .3 else g.comp(exp=.1)
                     for _ in range(g.r.choice([0, 1, 2, 2, 2, 3, 4, 7]))]
                cm = g.r.random() < .3
                if f == "lujvo_str":
                    arg = g.r.choice([" ", "  ", "\t"]).join(t)
                    oc = a.lujvo(arg, cm, s)[0]
                else:
                    arg = t
                    oc = (a.lujvo if f == "lujvo" else a.build)(t, cm, s)[0]
            else:
                arg = g.junk() if g.r.random() < .7 else g.word()
                if f == "analyse":
                    oc = a.analyse(arg, s)[0]
                    oc = "" if oc in BRIVLA + ("CMEVLA",) else oc
                elif f == "veljvo":
                    oc = a.veljvo(arg, s)[0]
                elif f == "score":
                    oc = a.score(arg, s)[0]
                elif f == "isbrivla":
                    oc = a.isbrivla(arg, s)
                elif f == "gismu_or_lujvo":
                    oc = a.gismu_or_lujvo(arg, s[0], s[4])
                elif f == "normalise":
                    oc = a.normalise(arg)[0]
                else:
                    arg = [g.junk() for _ in range(g.r.randint(0, 4))]
                    oc = a.indices(arg)[0]
                if oc in ("yes", "no"):
                    oc = ""
            rec(f, arg, s, oc, f in ("lujvo", "analytics", "lujvo_str") and cm)
        # long ones
        longs = ["bra" * 400 + "ka", "brar" * 60 + "ka", "a'" * 600 + "a", "mlat" * 120, "ba" * 700, "latmo'i" * 90, "y'a" * 200, "r" * 300 + "a",
                 "bacr" * 20 + "ai", "ba'uy" * 80 + "kla", "iau" * 150, "strmn" * 20 + "a", "a" + "tr" * 24 + "a", "ba" + "mlmr" * 12 + "u"]
        for w in longs[self.shard::self.n]:
            for f in ("analyse", "veljvo"):
                s = g.settings()
                oc = a.analyse(w, s)[0] if f == "analyse" else a.veljvo(w, s)[0]
                rec(f, w, s, "" if oc in BRIVLA + ("CMEVLA",) else oc)
        t = [g.comp(exp=0) for _ in range(60)]
        rec("lujvo", t, DEFAULT, a.lujvo(t, False, DEFAULT)[0])
        # thousands of letters: one piece again and again
        reps = [(p, u, e) for u in ("ia iau a'a a'i a b bra ba br mr y 'y' y' 'y bay bary brab ba'i baiy bla'i mlat lat skami 'ia uai oi mm bry' rn "
                                    "ba'uy ai' ' tsk ndj , h'").split() for p in ("", "kla", "ba", "a") for e in ("", "a", "kla", "s")]
        for p, u, e in self.slice(reps, .5):
            w = p + u * (4600 // len(u)) + e
            s = g.settings()
            f = g.r.choice(["analyse", "veljvo", "score"])
            oc = a.analyse(w, s)[0] if f == "analyse" else a.veljvo(w, s)[0] if f == "veljvo" else a.score(w, s)[0]
            rec(f, w, s, "" if oc in BRIVLA + ("CMEVLA",) else oc)
        w = "".join(g.r.choice(["kla", "bai", "lat", "mlat", "ba'i"]) for _ in range(900)) + g.r.choice(["kla", "bai", "", "s"])
        rec("veljvo", w, DEFAULT, a.veljvo(w, DEFAULT)[0])
        t = [g.comp(exp=0) for _ in range(1100)]
        rec("lujvo", t, DEFAULT, a.lujvo(t, False, DEFAULT)[0])
        w = "".join(g.r.choice(["a", "i", "'", "u", "ia", "e"]) for _ in range(3000))
        rec("lujvo", ["kla" + w, "gerku"], DEFAULT, a.lujvo(["kla" + w, "gerku"], False, DEFAULT)[0])

    def p_C15(self):
        g, a = self.g, self.api

        def res(f, arg, s, cm=False):
            if f == "analyse":
                r = a.analyse(arg, s)
            elif f == "veljvo":
                r = a.veljvo(arg, s)
            elif f == "score":
                r = a.score(arg, s)
            elif f == "isbrivla":
                r = a.isbrivla(arg, s)
            else:
                r = a.build(arg, cm, s)
            return json.dumps(r)
        for _ in self.times(30000):
            s = g.settings()
            f = g.r.choice(["analyse", "analyse", "veljvo", "score", "isbrivla"])
            w = self.likely_word(s)
            v = g.respell(w)
            self.put(k="variant", f=f, s=s, p=[w], v=[v], r1=res(f, w, s), r2=res(f, v, s), nv=a.normalise(v)[1], nn=a.normalise(a.normalise(v)[1])[1])
        for t, cm, s in self.tanrus(12000, exp=.05, bad=.03):
            v = [g.respell(x) for x in t]
            asstr = g.r.random() < .4 and all(x and not any(ch in " \t\n" for ch in x) for x in t)
            av = " ".join(v) if asstr else v
            self.put(k="variant", f="build", cm=cm, s=s, p=t, v=v, r1=res("build", t, s, cm), r2=res("build", av, s, cm),
                     nv=a.normalise(v[0])[1], nn=a.normalise(a.normalise(v[0])[1])[1])

    def p_C16(self):
        g, a = self.g, self.api

        def words():
            for _ in self.times(5500):
                yield g.word() if g.r.random() < .5 else self.likely_word(g.settings())
            for w in self.slice(gen.pair_words(), .05):
                yield w
            for w, s in self.small(0):
                if g.r.random() < 1500 * self.scale / 2000:
                    yield w
            for _ in self.times(500):
                w = g.word()
                i = g.r.randint(0, len(w))
                yield w[:i] + g.r.choice(["mz", "myz", "amzi", "m"]) + w[i:]
        for w in words():
            rs = [a.analyse(w, s) for s in SETTINGS]
            if any(t in BRIVLA or t == "CMEVLA" for t, _ in rs):
                self.put(k="gate", w=w, ts=[t for t, _ in rs], ds=[" ".join(d) for _, d in rs])

    def p_C18(self):
        g, a = self.g, self.api
        frac = 1.0
        for row in self.slice(gen.ROWS, frac):
            w = row["w"]
            if not w.islower() and not w.replace("'", "").islower():
                continue
            for _ in range(6):
                s = list(DEFAULT) if g.r.random() < .5 else g.settings()
                o = g.r.choice(["-" + g.rafsi() + "-", g.r.choice(gen.WITH), g.gismu()])
                k = g.r.random()
                t = [w, o] if k < .4 else [o, w] if k < .8 else [o, w, g.r.choice(["-bau-", "-kla-", "-bavla'i-", "mlatu"])]
                cm = g.r.random() < .2
                e, b, sc, ix = a.build(t, cm, s)
                self.put(k="dict", t=t, cm=cm, s=s, e=e, w=b, ix=ix)
            forms = list(row["r"]) + ([w[:4]] if gen._is_gismu_like(w) else [])
            for r in forms:
                for pos in (0, 1, 2):
                    s = list(DEFAULT) if g.r.random() < .6 else g.settings()
                    t = ["-" + r + "-", "-kla-"] if pos == 0 else ["-kla-", "-" + r + "-"] if pos == 1 else ["-klam-", "-" + r + "-", "-kla-"]
                    cm = pos == 1 and r[-1] in CONS
                    e, b = a.lujvo(t, cm, s)
                    if not e:
                        ve, v = a.veljvo(b, s)
                        self.put(k="owner", t=t, s=s, w=b, i=pos == 0 and 1 or 2, r=r, ve=ve, v=v)
        # words that are not in the dictionary, but look like one that is
        for w in self.slice(gen.unlisted_cmavo(), .6):
            o = g.r.choice(["-kla-", "mlatu", "-bau-", "klama"])
            for t in ([w, o], [o, w]):
                s = list(DEFAULT) if g.r.random() < .5 else g.settings()
                e, b, sc, ix = a.build(t, False, s)
                self.put(k="dict", t=t, cm=False, s=s, e=e, w=b, ix=ix)
        for _ in self.times(4000):
            w = g.mutate(g.r.choice(gen.WITH))
            if w in gen.LISTED or not w.isascii() or not w:
                continue
            s = list(DEFAULT) if g.r.random() < .5 else g.settings()
            t = [w, g.r.choice(gen.WITH)] if g.r.random() < .5 else [g.r.choice(gen.WITH), w]
            e, b, sc, ix = a.build(t, False, s)
            self.put(k="dict", t=t, cm=False, s=s, e=e, w=b, ix=ix)
        for _ in self.times(9000):
            rs = [g.rafsi() for _ in range(g.r.choice([2, 2, 3]))]
            s = list(DEFAULT) if g.r.random() < .6 else g.settings()
            e, b = a.lujvo(["-" + r + "-" for r in rs], g.r.random() < .3, s)
            if not e:
                ve, v = a.veljvo(b, s)
                self.put(k="veljvo", s=s, w=b, ve=ve, v=v)
        for w, s, t, d in self.accepted(9000, brivla=False):
            ve, v = a.veljvo(w, s)
            self.put(k="veljvo", s=s, w=w, ve=ve, v=v)

    def p_C20(self):
        g, a = self.g, self.api

        def stream():
            yield from self.small()
            for w, s in self.words(16000, .3):
                yield w, s
            for w, s, t, d in self.accepted(14000, brivla=False):
                yield (g.respell(w) if g.r.random() < .1 else w), s
        for w, s in stream():
            t, d = a.analyse(w, s)
            ve, v = a.veljvo(w, s)
            se, sc = a.score(w, s)
            ie, ix = a.indices(d) if d else ("", [])
            n = a.normalise(w)[1]
            base = a.analyse(n, [s[0], False, "CLUSTER", False, s[4]])[0]
            self.put(k="agree", w=w, s=s, t=t, d=d, b=a.isbrivla(w, s), ve=ve, v=v, se=se, sc=sc, ie=ie, ix=ix,
                     gl=a.gismu_or_lujvo(n, s[0], s[4]), base=base)
        for t, cm, s in self.tanrus(8000, exp=.08, bad=.1):
            e, w, sc, ix = a.build(t, cm, s)
            e1, w1 = a.lujvo(t, cm, s)
            self.put(k="same", t=t, cm=cm, s=s, e=e, w=w, e1=e1, w1=w1)

    def p_C21(self):
        a = self.api
        for t, cm, s in self.tanrus(15000, exp=.1, joints=.8):
            e, w, sc, ix = a.build(t, cm, s)
            if not e:
                self.put(k="hyphens", t=t, cm=cm, s=s, w=w, ix=ix)

    def p_C22(self):
        g, a = self.g, self.api
        for t, cm, s in self.tanrus(26000, exp=.1, bad=.25):
            if g.r.random() < .4:
                i = g.r.randrange(len(t))
                t[i] = g.badcomp()
                if s[4] and g.r.random() < .4:
                    t[i] = g.mzify(t[i])
            if g.r.random() < .05:
                # a letter of no alphabet, most of all at the end
                i = g.r.randrange(len(t))
                n = len(t[i]) - (t[i][-1:] == "-")
                n = n if g.r.random() < .7 else g.r.randint(0, len(t[i]))
                t[i] = t[i][:n] + g.r.choice("\n\n\n \t\r_*7|") + t[i][n:]
            t = [x for x in t if x.isascii()]
            e, w = a.lujvo(t, cm, s)
            self.put(k="refuse", t=t, cm=cm, s=s, e=e)

    # ------------------------------------------------------------ the versions in other languages
    def each(self, kind, said, *args):
        """What this shard's variant of the version says, and what another variant says if it is something else"""
        here = said(self.api, *args)
        self.put(k=kind, port=self.shard, **here)
        for i, a in enumerate(self.others, 1):
            there = said(a, *args)
            if there != here:
                self.put(k=kind, port=self.shard + i, **there)

    def reads(self, k):
        """Everything that is said about a word."""
        g, a = self.g, self.api

        def stream():
            yield from self.small()
            yield from self.words(k, .4)
            for _ in self.times(k * .7):
                x = g.r.random()
                w = g.lujvo_like() if x < .4 else g.extended() if x < .75 else g.zihevla()
                if g.r.random() < .35:
                    w = g.mutate(w)
                elif g.r.random() < .1:
                    w = g.cmavo() + w
                yield w, g.settings()
            for w, s, t, d in self.accepted(k * .7, brivla=False):
                yield (g.respell(w) if g.r.random() < .1 else w), s
                if g.r.random() < .2:
                    yield g.mutate(w), s
            for _ in self.times(k * .1):
                w = g.junk()
                if w.isascii():
                    yield w, g.settings()
            for row in self.slice(gen.ROWS):
                if len(row["w"]) == 5 and g.r.random() < .5:
                    yield row["w"][:4] + "y" + g.r.choice(["kla", "mlatu", "ba'i", "klam"]), DEFAULT
                for r in row["r"]:
                    yield "kla" + r if r[-1] in VOW else r + "kla", (DEFAULT if g.r.random() < .5 else g.settings())
                    if r[-1] in CONS:
                        yield "kla" + r, g.settings()
        def said(a, w, s):
            t, d = a.analyse(w, s)
            ve, v = a.veljvo(w, s)
            se, sc = a.score(w, s)
            n = a.normalise(w)[1]
            ie, ix = a.indices(d) if d else ("", [])
            return dict(w=w, s=s, t=t, d=d, b=a.isbrivla(w, s), ve=ve, v=v, se=se, sc=sc, ie=ie, ix=ix, nw=n,
                        gl=a.gismu_or_lujvo(n, s[0], s[4]), ig=a.isgismu(n, s[4]))
        for w, s in stream():
            self.each("reads", said, w, s)

    def builds(self, k):
        """The lujvo for a tanru, its score and its parts."""
        g, a = self.g, self.api

        def stream():
            yield from self.tanrus(k, exp=.12, bad=.03, joints=.5)
            for _ in self.times(k * .1):
                s = g.settings()
                t = g.tanru(exp=.15 if s[1] else .02, bad=.1)
                t[g.r.randrange(len(t))] = g.badcomp()
                yield t[:g.r.choice([1, 2, 9, 9, 9])], g.r.random() < .2, s
            for row in self.slice(gen.ROWS):
                w, o = row["w"], g.r.choice(["-" + g.rafsi() + "-", g.r.choice(gen.WITH), g.gismu()])
                for t in ([w, o], [o, w], [o, w, g.r.choice(["-bau-", "-kla-", "-bavla'i-", "mlatu"])]):
                    yield t, g.r.random() < .2, (DEFAULT if g.r.random() < .5 else g.settings())
        def said(a, t, cm, s):
            e, w, sc, ix = a.build(t, cm, s)
            e1, w1 = a.lujvo(t, cm, s)
            fe, fs = a.forms(t, s) if a.kind == "rs" else ("", [])
            return dict(t=t, cm=cm, s=s, e=e, w=w, sc=sc, ix=ix, e1=e1, w1=w1, fe=fe, fs=fs)
        for t, cm, s in stream():
            if not all(x and x.isascii() and len(x.split()) == 1 and x.strip() == x for x in t):
                continue
            self.each("builds", said, t, cm, s)

    def p_C23(self):
        self.reads(22000)

    def p_C24(self):
        self.builds(24000)

    p_C25, p_C26 = p_C23, p_C24


SHARED = {}


def main(argv):
    prop, shard, n, seed, scale, out = argv
    if prop in ("C17", "C19", "C29", "C32"):
        import sessions
        sessions.main(prop, int(shard), int(n), seed, float(scale), out)
        return
    if prop in ("C27", "C28", "C30", "C31", "C33"):
        import fronts
        fronts.main(prop, int(shard), int(n), seed, float(scale), out)
        return
    if prop == "C34":
        import tablegen
        tablegen.main(prop, int(shard), int(n), seed, float(scale), out)
        return
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    r = Recorder(prop, int(shard), int(n), seed, float(scale), out)
    try:
        getattr(r, "p_" + prop)()
    except Enough:
        pass
    r.out.close()


if __name__ == "__main__":
    main(sys.argv[1:])
