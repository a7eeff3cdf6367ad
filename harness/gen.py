"""Inputs for the recorder.

Nothing here imports the code under test: what is generated depends on the seed,
on the corpus and on the specification's own copy of the rafsi dictionary only.
"""
import json
import os
import random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CONS = "bcdfgjklmnprstvxz"
VOW = "aeiou"
INITIAL = ("bl br cf ck cl cm cn cp cr ct dj dr dz fl fr gl gr jb jd jg jm jv kl kr ml mr pl pr "
           "sf sk sl sm sn sp sr st tc tr ts vl vr xl xr zb zd zg zm zv").split()
TRIPLES = ("ndj", "ndz", "ntc", "nts")
UNVOICED, VOICED = "cfkpstx", "bdgjvz"
DIPH = ["ai", "ei", "oi", "au"]
GLIDES = [g + v for g in "iu" for v in ("a", "e", "i", "o", "u", "ai", "ei", "oi", "au")]
EXP = ["i'e", "a'u", "ai", "ii", "u'u", "ua", "uai", "iau", "mui'a", "koi'oi", "u'i'u", "bai'ai",
       "a", "e", "o'i", "uaua'a", "ba'u'a", "kau'ai", "ia'ui", "uei", "ki'e'i", "du", "sai'au", "bau", "fa'u'u'u"]
YS = ["STANDARD", "ALLOW_Y", "FORCE_Y"]
CS = ["CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"]
SETTINGS = [[y, x, c, g, m] for m in (False, True) for g in (False, True) for c in CS for x in (False, True) for y in YS]
DEFAULT = ["STANDARD", False, "CLUSTER", False, False]

# what may stand between vowels, near enough
MEDIAL = {a + b for a in CONS for b in CONS if a != b and a + b not in ("cx", "kx", "xc", "xk", "mz")
          and not (a in VOICED and b in UNVOICED or a in UNVOICED and b in VOICED) and not (a in "cjsz" and b in "cjsz")}
SHAPES = ["CVC", "CCV", "CVV", "CVhV", "CVCC", "CCVC", "CVCCV", "CCVCV"]


def _load():
    rows = [json.loads(l) for l in []] or json.load(open(os.path.join(VERIF, "spec", "rafsi.json")))
    words = json.load(open(os.path.join(VERIF, "corpus", "words.json")))
    return rows, words


ROWS, WORDS = _load()
KEYS = [r["w"] for r in ROWS]
LISTED = set(KEYS)
WITH = [r["w"] for r in ROWS if r["r"]]
RAFSI = [x for r in ROWS for x in r["r"]]
BYSHAPE = {
    "CVC": [r for r in RAFSI if len(r) == 3 and r[2] in CONS],
    "CCV": [r for r in RAFSI if len(r) == 3 and r[1] in CONS],
    "CVV": [r for r in RAFSI if len(r) == 3 and r[1] in VOW and r[2] in VOW],
    "CVhV": [r for r in RAFSI if len(r) == 4],
}


ENDS_M = [r for r in BYSHAPE["CVC"] if r[2] == "m"]
STARTS_Z = [r for r in RAFSI if r[0] == "z" and r[1] in VOW] + [w for w in KEYS if len(w) == 5 and w[0] == "z" and w[1] in VOW]


def _is_gismu_like(w):
    return len(w) == 5 and w[0] in CONS and w[3] in CONS and w[4] in VOW


GISMU = [w for w in KEYS if _is_gismu_like(w)]
CMAVO = [w for w in WITH if not _is_gismu_like(w)]
RICH = [r["w"] for r in ROWS if len(r["r"]) > 1]
RICHEST = [r["w"] for r in ROWS if len([x for x in r["r"] if len(x) == 3 and x[2] in VOW]) > 1]
ZI = WORDS["zihevla"]
ZI_VOWEL = [w for w in ZI if w[0] in VOW]
LUJVO = WORDS["lujvo"]


def permissible(a, b):
    if a == b or (a in UNVOICED and b in VOICED) or (a in VOICED and b in UNVOICED):
        return False
    if a in "cjsz" and b in "cjsz":
        return False
    return a + b not in ("cx", "kx", "xc", "xk", "mz")


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)

    # ----- settings
    def settings(self):
        k = self.r.random()
        if k < .25:
            return list(DEFAULT)
        if k < .4:
            s = list(DEFAULT)
            i = self.r.randrange(5)
            s[i] = self.r.choice(SETTINGS)[i]
            return s
        return list(self.r.choice(SETTINGS))

    # ----- letters
    def c(self):
        return self.r.choice(CONS)

    def v(self):
        return self.r.choice(VOW)

    def pair(self):
        k = self.r.random()
        if k < .45:
            return self.r.choice(INITIAL)
        if k < .85:
            while True:
                a, b = self.c(), self.c()
                if permissible(a, b):
                    return a + b
        if k < .88:
            return "mz"
        return self.c() + self.c()

    def ini(self):
        return self.r.choice(INITIAL) if self.r.random() < .95 else self.c() + self.c()

    def vv(self):
        return self.r.choice(DIPH) if self.r.random() < .9 else self.v() + self.v()

    # ----- rafsi of any letters
    def rafsi(self, shape=None):
        s = shape or self.r.choice(SHAPES)
        if self.r.random() < .45 and s in BYSHAPE:
            return self.r.choice(BYSHAPE[s])
        if self.r.random() < .3 and s in ("CVCC", "CCVC", "CVCCV", "CCVCV"):
            want = "CV" if s.startswith("CV") else "CC"
            while True:
                w = self.r.choice(GISMU)
                if (w[1] in VOW) == (want == "CV"):
                    return w[:len(s)]
        if s == "CVC":
            return self.c() + self.v() + self.c()
        if s == "CCV":
            return self.ini() + self.v()
        if s == "CVV":
            return self.c() + self.vv()
        if s == "CVhV":
            return self.c() + self.v() + "'" + self.v()
        if s == "CVCC":
            return self.c() + self.v() + self.pair()
        if s == "CCVC":
            return self.ini() + self.v() + self.c()
        if s == "CVCCV":
            return self.c() + self.v() + self.pair() + self.v()
        return self.ini() + self.v() + self.c() + self.v()

    # ----- chains of CVC rafsi at initial pairs, where the front may fall off
    def tosmabru_rafsi(self):
        n = self.r.choice([1, 1, 1, 2, 2, 3])
        res = [self.c() + self.v() + self.c()]
        for _ in range(n - 1):
            p = [q for q in INITIAL if q[0] == res[-1][2]]
            f = self.r.choice(p)[1] if p and self.r.random() < .9 else self.c()
            res.append(f + self.v() + self.c())
        p = [q for q in INITIAL if q[0] == res[-1][2]]
        f = self.r.choice(p)[1] if p and self.r.random() < .9 else self.c()
        k = self.r.random()
        if k < .5:
            res.append(f + self.v() + self.pair() + self.v())
        elif k < .65:
            res.append(f + self.v() + self.pair())
            res.append(self.rafsi(self.r.choice(["CCV", "CVV", "CVCCV"])))
        elif k < .8:
            res.append(f + self.v() + self.c())
            res.append(self.rafsi(self.r.choice(["CCV", "CVV", "CVCCV", "CVhV"])))
        else:
            res.append(f + self.vv())
        return res

    # ----- zi'evla-like strings
    def vowels(self):
        k = self.r.random()
        if k < .6:
            return self.v()
        if k < .75:
            return self.r.choice(DIPH)
        if k < .87:
            return self.v() + "'" + self.v()
        if k < .92:
            return self.r.choice(DIPH) + "'" + self.v()
        if k < .97:
            return self.v() + self.r.choice(GLIDES)
        return "".join(self.v() for _ in range(self.r.randint(2, 4)))

    def cluster(self, initial=False):
        k = self.r.random()
        if initial:
            if k < .6:
                return self.c()
            if k < .9:
                return self.r.choice(INITIAL)
            return self.r.choice(INITIAL) + self.r.choice("lrlrmn" + CONS)
        if k < .45:
            return self.c()
        if k < .8:
            return self.pair()
        p = self.pair()
        while self.r.random() < .6 and len(p) < 6:
            q = self.r.choice(INITIAL + ["l", "r", "n", "m", "r", "l"])
            if permissible(p[-1], q[0]) or self.r.random() < .1:
                p += q
            elif self.r.random() < .3:
                break
        return p

    def zihevla(self):
        k = self.r.random()
        if k < .35:
            return self.r.choice(ZI)
        w = "" if self.r.random() < .3 else self.cluster(True)
        n = self.r.choice([2, 2, 2, 3, 3, 4])
        for i in range(n):
            w += self.vowels()
            if i < n - 1:
                w += self.cluster()
        return w

    def gismu(self):
        return self.r.choice(GISMU) if self.r.random() < .8 else self.rafsi(self.r.choice(["CVCCV", "CCVCV"]))

    # ----- tanru components
    def comp(self, exp=.08, bad=.0):
        k = self.r.random()
        if k < exp:
            return "-" + self.r.choice(EXP) + "-"
        if self.r.random() < bad:
            return self.badcomp()
        k = self.r.random()
        if k < .40:
            return self.r.choice(WITH)
        if k < .48:
            return self.gismu()
        if k < .72:
            return "-" + self.rafsi() + "-"
        if k < .80:
            return self.zihevla()
        if k < .87:
            return self.zihevla()[:-1] + "-"
        if k < .91:
            return self.gismu()[:4] + "-"
        if k < .95:
            return "-" + self.zihevla() + "-"
        return self.r.choice(CMAVO)

    def badcomp(self):
        k = self.r.random()
        if k < .1:
            # a short form that is itself rafsi joined, or nearly
            w = "".join(self.rafsi() for _ in range(self.r.choice([1, 1, 1, 2]))) + self.rafsi(self.r.choice(["CVC", "CVC", "CVCC", "CCVC"]))
            return (w if self.r.random() < .85 else self.mutate(w)) + "-"
        if k < .17:
            return "-" + self.word(short=True) + "-"
        if k < .24:
            return self.word(short=True) + "-"
        if k < .36:
            return "-" + self.rafsi()[:-1] + "-"
        if k < .46:
            return self.r.choice(["", "-", "--", "---", "'", "-'-", "'-", "y", "-y-", "y-", "-kla", "-lat'-", "kla'", "lat'-", "a", "-a-", "a-"])
        if k < .6:
            w = self.comp()
            i = self.r.randint(0, len(w))
            return w[:i] + self.r.choice("yqw1-.;h'" + CONS + VOW) + w[i:]
        if k < .7:
            return "-" + self.c() + self.v() + self.c() + self.c() + "-"
        if k < .8:
            return "-" + self.c() + self.c() + self.v() + self.r.choice(["", self.c()]) + "-"
        if k < .9:
            return self.rafsi("CVCCV")[:self.r.randint(3, 5)] + self.r.choice(["", "-"])
        w = self.comp()
        i = self.r.randrange(max(1, len(w)))
        return w[:i] + w[i + 1:]

    def tanru(self, n=None, exp=.08, bad=.0):
        n = n or self.r.choice([2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6])
        k = self.r.random()
        if k < .12 and not bad:
            return ["-" + x + "-" for x in self.tosmabru_rafsi()]
        if k < .3:
            sh = [self.r.choice(SHAPES) for _ in range(n)]
            if self.r.random() < .7:
                sh[-1] = self.r.choice(["CCV", "CVV", "CVhV", "CVCCV", "CCVCV"])
            return ["-" + self.rafsi(s) + "-" for s in sh]
        if k < .34:
            return self.r.choice(WORDS["tanru"]).split() or ["mlatu", "kerlo"]
        if k < .38:
            # words with several rafsi of like worth: ties
            front = self.r.choice(["-" + self.rafsi(self.r.choice(["CVhV", "CVV", "CVC", "CCV"])) + "-", self.r.choice(RICH), "-" + self.r.choice(EXP) + "-"])
            return [front] + [self.r.choice(RICHEST if self.r.random() < .6 else RICH) for _ in range(max(1, n - 1))]
        if k < .42:
            # zi'evla, in full and short, beside words that begin with vowels
            def zi(last):
                w = self.r.choice(ZI) if self.r.random() < .7 else self.zihevla()
                if self.r.random() < .35:
                    w = self.r.choice(ZI_VOWEL)
                return w if last or self.r.random() < .4 else w[:-1] + "-" if self.r.random() < .8 else "-" + w + "-"
            return [zi(i == n - 1) if self.r.random() < .75 else self.comp(exp, bad) for i in range(n)]
        return [self.comp(exp, bad) for _ in range(n)]

    # ----- words
    def lujvo_like(self):
        k = self.r.random()
        if k < .12:
            rs = self.tosmabru_rafsi()
            hy = [self.r.choice(["", "", "", "y"]) for _ in rs]
            w = "".join(a + b for a, b in zip(rs, hy))
            return w.rstrip("y")
        n = self.r.choice([2, 2, 2, 3, 3, 4])
        w = ""
        for i in range(n):
            last = i == n - 1
            s = self.r.choice(["CCV", "CVV", "CVhV", "CVCCV", "CCVCV", "CVC"] if last else
                              ["CVC", "CVC", "CVC", "CCV", "CVV", "CVhV", "CVCC", "CCVC"])
            r = self.rafsi(s)
            if w:
                w += self.hyphen(w, r, i)
            w += r
        return w

    def hyphen(self, w, r, i):
        k = self.r.random()
        if k < .12:
            return self.r.choice(["", "y", "r", "n", "'y"])
        a, b = w[-1], r[0]
        tail = w[-4:]
        if a in VOW:
            if i == 1:
                if w[0] in CONS and w[1] in VOW:
                    return self.r.choice(["n" if b == "r" else "r", "", "'y", "r"])
                return ""
            return ""
        if len(tail) == 4 and (tail[1] in CONS) != (tail[2] in CONS) and i == 1 and len(w) == 4:
            return "y"
        if len(w) >= 4 and w[-2] in CONS:
            return "y"
        if not permissible(a, b):
            return "y"
        return self.r.choice(["", "", "", "y"])

    def part(self):
        k = self.r.random()
        if k < .2:
            return self.zihevla()[:-1]
        if k < .35:
            return self.zihevla()
        if k < .5:
            return self.rafsi("CVC")
        if k < .6:
            return self.rafsi(self.r.choice(["CVCC", "CCVC"]))
        if k < .7:
            return self.rafsi(self.r.choice(["CVV", "CVhV", "CCV"]))
        if k < .8:
            return self.r.choice(EXP)
        if k < .88:
            return self.r.choice(GISMU)[:self.r.choice([4, 5, 5])]
        return self.lujvo_like()

    def extended(self):
        n = self.r.choice([2, 2, 2, 3, 3, 4])
        ps = [self.part() for _ in range(n)]
        w = ps[0]
        for p in ps[1:]:
            h = ""
            if w[-1:] in VOW and self.r.random() < .85:
                h = "'"
            elif self.r.random() < .04:
                h = "'"
            h += "y"
            if p[:1] in VOW and not (p[0] in "iu" and p[1:2] in VOW and p[1:2] != "" and self.r.random() < .8) and self.r.random() < .9:
                h += "'"
            elif self.r.random() < .03:
                h += "'"
            w += h + p
        if self.r.random() < .15 and w[-1] in VOW:
            w = w[:-1]
        return w

    def deep(self):
        """Rafsi joined in a part of a word, one joint of them out of order, at any depth; behind or before other parts"""
        r = self.r
        rs = []
        for _ in range(r.choice([1, 2, 2, 3, 3, 4])):
            x = self.rafsi(r.choice(["CVC", "CCV", "CVV", "CVhV"]))
            if rs and rs[-1][-1] in CONS and x[0] in CONS and r.random() < .9:
                for _ in range(20):
                    if rs[-1][-1] + x[:1] in MEDIAL and rs[-1][-1] + x[:2] not in TRIPLES:
                        break
                    x = self.rafsi(r.choice(["CVC", "CCV", "CVV", "CVhV"]))
            rs.append(x)
        i = r.randrange(len(rs))
        k = r.random()
        if k < .4:
            bad = self.c() + self.v() + "n" + r.choice(["dj", "dz", "tc", "ts"]) + self.v()
        elif k < .55:
            bad = self.c() + self.v() + self.c() + self.c() + self.v() + r.choice(["", self.c()])
        elif k < .65:
            bad = self.c() + self.c() + self.v()
        elif k < .75:
            bad = self.c() + self.v() + self.v()
        elif k < .85:
            bad = self.rafsi(r.choice(["CVCC", "CCVC", "CVCCV", "CCVCV"]))
        else:
            bad = self.c() + self.v() + "mz" + self.v() + r.choice(["", self.c()])
        rs.insert(i if r.random() < .5 else len(rs), bad)
        w = "".join(rs)
        if r.random() < .6:
            w = r.choice(["spageti'y", "uanta'y", "iglu'y", "a'u'y", "ba'a'y", "mlaty", "bai'y", "kla'y", "spagety", "kerfy"]) + w
        if r.random() < .5:
            w += ("'y" if w[-1] in VOW else "y") + r.choice(["kla", "gau", "mlatu", "spageti", "'iglu", "ba'a", "'a'u", "barkla"])
        return w

    def mutate(self, w):
        for _ in range(self.r.choice([1, 1, 1, 2])):
            k = self.r.random()
            i = self.r.randint(0, len(w))
            a = self.r.choice(CONS + VOW * 3 + "yyy''''rn")
            if k < .3:
                w = w[:i] + a + w[i:]
            elif k < .6:
                w = w[:i] + w[i + 1:]
            elif k < .85:
                w = w[:i] + a + w[i + 1:]
            elif i + 1 < len(w):
                w = w[:i] + w[i + 1] + w[i] + w[i + 2:]
        return w

    def soup(self):
        cs = [self.c() for _ in range(self.r.randint(1, 4))]
        vs = [self.v() for _ in range(self.r.randint(1, 2))]
        al = cs * 2 + vs * 4 + ["y", "'"]
        n = self.r.randint(1, 10)
        return "".join(self.r.choice(al) for _ in range(n))

    def known(self):
        k = self.r.random()
        if k < .35:
            return self.r.choice(LUJVO)
        if k < .7:
            return self.r.choice(ZI)
        if k < .9:
            return self.r.choice(WORDS["tests"]) or "gismu"
        return self.r.choice(WORDS["other"])

    def word(self, short=False):
        k = self.r.random()
        if short:
            return self.soup() if k < .5 else self.zihevla() if k < .8 else self.rafsi()
        if k < .16:
            return self.known()
        if k < .36:
            return self.lujvo_like()
        if k < .52:
            return self.zihevla()
        if k < .74:
            return self.extended()
        if k < .90:
            return self.mutate(self.r.choice([self.known, self.lujvo_like, self.zihevla, self.extended])())
        if k < .915:
            return self.beheaded()
        if k < .93:
            return self.mzify(self.r.choice([self.known, self.lujvo_like, self.zihevla, self.extended, self.beheaded])())
        if k < .95:
            return "to" + self.r.choice([self.lujvo_like, self.zihevla, self.extended])()
        return self.soup()

    def mzify(self, w):
        """mz in place of some consonant pair (or of a single consonant between vowels)"""
        at = [i for i in range(1, len(w) - 1) if w[i] in CONS and w[i + 1] in CONS]
        if at and self.r.random() < .85:
            i = self.r.choice(at)
            return w[:i] + "mz" + w[i + 2:]
        at = [i for i in range(1, len(w) - 1) if w[i] in CONS and w[i - 1] in VOW and w[i + 1] in VOW]
        if at:
            i = self.r.choice(at)
            return w[:i] + "mz" + w[i + 1:]
        return w

    def beheaded(self):
        """what is left of a lujvo without a CV cmavo in front: often a slinku'i"""
        for _ in range(20):
            w = self.lujvo_like()
            if w[0] in CONS and w[1] in VOW and w[2] in CONS:
                return w[2:] if w[2:4] in INITIAL or self.r.random() < .2 else self.r.choice([q for q in INITIAL if q[1] == w[3]] or ["pl"])[0] + w[3:]
        return w[2:]

    def cmavo(self):
        k = self.r.random()
        if k < .4:
            return self.c() + self.v()
        if k < .6:
            return self.c() + self.r.choice(DIPH)
        if k < .75:
            return self.c() + self.v() + "'" + self.v()
        if k < .85:
            return self.v()
        return self.r.choice(DIPH + GLIDES[:5] + ["a'o", "u'i"])

    # ----- spelling variants
    def respell(self, w):
        out = []
        for ch in w:
            k = self.r.random()
            if ch == "'" and k < .5:
                ch = self.r.choice("hhH")
            elif ch.isalpha() and k < .35:
                ch = ch.upper()
            if self.r.random() < .12:
                out.append(",")
            out.append(ch)
        if self.r.random() < .1:
            out.append(",")
        s = "".join(out)
        return "." + s if self.r.random() < .4 and s[:1] != "." else s

    # ----- anything at all
    def junk(self):
        k = self.r.random()
        if k < .25:
            return "".join(self.r.choice(CONS + VOW * 3 + "yyyy''''") for _ in range(self.r.randint(0, 14)))
        if k < .45:
            return "".join(self.r.choice(CONS + VOW * 3 + "yy''hH.,-- \t\n0123q!wABYéßİжß中\u0130\u2019\x00") for _ in range(self.r.randint(0, 10)))
        if k < .6:
            return self.r.choice(["", " ", ".", ",", "-", "--", "'", "''", "y", "yy", "'y", "y'", "'y'", "r", "n", ".,", "...", "h", "H",
                                  "\n", "-'-", "a", "b", "ab", "ay", "ya", "toy", "'a", "a'", "a'y", "la'y", "\u0130", "-y-", "ba-", "-ba", "\ud800"])
        if k < .8:
            return self.mutate(self.mutate(self.word()))
        if k < .85:
            return self.word() * self.r.randint(2, 6)
        if k < .95:
            return self.extended() + self.r.choice(["y", "'y", "'", "y'", "'y'", "", "yy"]) + self.r.choice([self.part(), "", self.c()])
        return self.respell(self.word())


# ---------------------------------------------------------------- systematic

PAIR_CONTEXTS = ["ba12a", "12aba", "ba12ai", "ba12o'a", "ba12abda", "ba1y2abda", "ba1y2ai", "ba12la", "bai12abda",
                 "12aku'a", "a12aku", "ba'u12a", "tai12a", "mlat1y2ai", "ba12y2ai", "12ay'abi", "ia12a", "mo'a12abda",
                 "12a12ai", "a12y2ai", "ba12adby2a'u", "ba'a12ai", "ba12", "ba12abd", "12ab", "ba'arn12a", "klu12a1", "sto12y'ismu", "to12aba",
                 "ba1y12abi", "lo12a'y'imu", "ba1ba2y1ai", "spa'y12abi"]
TRIPLE_CONTEXTS = ["a123a", "ba123a", "123aku'a", "ba1y23aba", "ba12y3a'u", "ba123aba", "ku'a123a", "ba123ybai"]
VOWEL_CONTEXTS = ["@", "k@", "brod@", "@brodi", "k@brodi", "kl@ngo", "@ngo", "mlat@", "mlaty@", "mlaty'@", "kla'@", "@'ykla", "k@'ykla",
                  "mlaty'@'ykla", "k@ngybai", "mlat@'y'ismu", "tor@", "k@r"]


def pair_words():
    return [t.replace("1", a).replace("2", b) for t in PAIR_CONTEXTS for a in CONS for b in CONS]


def triple_words():
    return [t.replace("1", a).replace("2", b).replace("3", c) for t in TRIPLE_CONTEXTS for a in CONS for b in CONS for c in CONS]


def vowel_runs(n, apo=True):
    al = VOW + ("'" if apo else "")
    cur, res = [""], []
    for _ in range(n):
        cur = [x + a for x in cur for a in al if not (a == "'" and x[-1:] == "'")]
        res += cur
    return res


def vowel_words(n=3):
    return [t.replace("@", v) for t in VOWEL_CONTEXTS for v in vowel_runs(n)]


def gismu_shapes():
    return ([a + v + c + d + w for a in "bkn" for v in "ai" for c in CONS for d in CONS for w in VOW]
            + [a + b + v + d + w for a in CONS for b in CONS for v in "eu" for d in "blr" for w in VOW])


def gismu_pairs():
    """every letter with every pair, the vowels of one kind"""
    return ([a + "o" + c + d + "e" for a in CONS for c in CONS for d in CONS]
            + [a + b + "i" + d + "o" for a in CONS for b in CONS for d in CONS])


def unlisted_cmavo():
    forms = [v for v in VOW] + [v + w for v in VOW for w in VOW] + [v + "'" + w for v in VOW for w in VOW]
    return [c + f for c in [""] + list(CONS) for f in forms if c + f not in LISTED]


def all_words(alphabet, n):
    cur, res = [""], []
    for _ in range(n):
        cur = [x + a for x in cur for a in alphabet]
        res += cur
    return res


def joint_tanru():
    """Two rafsi, every pair of letters at the joint, every pair of shapes."""
    res = []
    first = ["ba1", "kai", "ka'i", "kla", "bar1", "kla1", "1ai", "1a'i"]
    second = ["2ai", "2a'u", "2la", "2adna", "2rebi", "2abla", "2andj", "2ad"]
    for f in first:
        for s in second:
            for a in CONS if "1" in f else "b":
                for b in CONS:
                    x, y = f.replace("1", a), s.replace("2", b)
                    if y[:2] not in INITIAL and y[1] in CONS:
                        continue
                    res.append(["-" + x + "-", "-" + y + "-"])
    return res


def grow(chunks, length):
    """Every word made of the pieces, up to the length: the states of MC_Words."""
    seen, layer = set(), {""}
    while layer:
        layer = {w + c for w in layer for c in chunks if len(w) + len(c) <= length} - seen
        seen |= layer
    return sorted(seen)


def tanru_of(pool, last, length):
    """Every tanru of MC_Jvozba."""
    res, cur = [], [()]
    for _ in range(length - 1):
        cur = [t + (c,) for t in cur for c in pool]
        res += [t + (c,) for t in cur for c in last]
    return res
