"""Per property: how much of the real code's behaviour is recorded, and which models of the specification are checked."""

ASSUMPTIONS = [
    "the TLA+ specification in spec/ states the intended behaviour (reviewed against the documentation, differences.md and the published test lists)",
    "TLC evaluates the specification correctly; the recorder reports the results of the public functions unchanged",
]

PLANS = {p: dict(scale=(1, 20)) for p in
         ["C%02d" % i for i in range(1, 35)]}
for p in ("C17", "C19", "C29", "C32"):
    PLANS[p]["module"] = "Sessions"
for p in ("C27", "C28", "C30", "C31", "C33"):
    PLANS[p]["module"] = "Fronts"
PLANS["C34"]["module"] = "Exports"
for p, kind in (("C23", "js"), ("C24", "js"), ("C25", "rs"), ("C26", "rs"), ("C27", "rs"), ("C28", "rs"), ("C29", "js"), ("C30", "page"), ("C33", "debug"), ("C32", "both")):
    PLANS[p]["port"] = kind


def service(depth, emit=True, keys=3):
    return dict(module="MC_Service", name="MC_Service keys=%d depth=%d" % (keys, depth), cfg="""SPECIFICATION Spec
CONSTANTS Keys = {%s}
Depth = %d
Emit = %s
Shared = FALSE
INVARIANTS SameArgumentsSameAnswer Printed
PROPERTY OnlyLearns
CHECK_DEADLOCK FALSE
""" % (", ".join(map(str, range(1, keys + 1))), depth, "TRUE" if emit else "FALSE"))


def turns(callers, cuts):
    return dict(module="MC_Turns", name="MC_Turns callers=%d cuts=%d" % (callers, cuts), cfg="""SPECIFICATION Spec
CONSTANTS Callers = {%s}
Cuts = %d
Scratch = FALSE
Emit = TRUE
INVARIANTS EachHisOwn Answered Printed
CHECK_DEADLOCK FALSE
""" % (", ".join(map(str, range(1, callers + 1))), cuts))


def odometer(depth, ids=2):
    return dict(module="MC_Odometer", name="MC_Odometer iterators=%d depth=%d" % (ids, depth), cfg="""SPECIFICATION Spec
CONSTANTS Ids = {%s}
Depth = %d
Emit = TRUE
INVARIANTS InOrder FromTheList NothingSkipped StopsAtTheEnd Printed
PROPERTY NeverAfterStop
CHECK_DEADLOCK FALSE
""" % (", ".join(map(str, range(1, ids + 1))), depth))


# Words grown from small alphabets: (pieces, length, all settings?)
MIXED = "ba k l ia y ' a r z m".split()          # clusters, glides, apostrophes, y, mz
LUJVO = "bai la i y r 'y k ba bl b 'i".split()   # every rafsi shape and hyphen
TOSMABRU = "pas mab ru sma y d mra ai cra rad".split()
TRIPLES = "nd j n ts ba m zdu d y".split()
BANNED = "nd j n ts ba a y".split()
EXTENDED = "ba'e bli i 'y y ig a u l 'a".split()  # zi'evla, experimental rafsi
LINKS = "bai bla ban tsa r n y 'y".split()        # hyphens, needless ones, banned triples
GISMU = "b a r o d m z s t n".split()

SMALL = ([(MIXED, 5), (EXTENDED, 6), (LUJVO, 6)], [(MIXED, 7), (EXTENDED, 8), (LUJVO, 8), (TRIPLES, 9)])
WORD_MODELS = {
    "C04": ([(MIXED, 5), (LUJVO, 6)], [(MIXED, 6), (LUJVO, 9), (TOSMABRU, 11)]),
    "C05": ([(MIXED, 5), (LUJVO, 6)], [(MIXED, 6), (LUJVO, 9), (TOSMABRU, 11)]),
    "C06": ([(MIXED, 5), (EXTENDED, 6), (LINKS, 8)], [(LINKS, 9), (MIXED, 7), (EXTENDED, 8), (LUJVO, 8)]),
    "C07": ([(LUJVO, 6), (TOSMABRU, 9), (LINKS, 8)], [(LINKS, 9), (LUJVO, 8), (TOSMABRU, 12), (MIXED, 7), (TRIPLES, 9)]),
    "C10": ([(MIXED, 5), (EXTENDED, 6)], [(MIXED, 7), (EXTENDED, 8), (TOSMABRU, 11)]),
    "C11": ([(MIXED, 5), (EXTENDED, 6)], [(MIXED, 7), (EXTENDED, 8), (TOSMABRU, 11)]),
    "C12": ([(MIXED, 5), (BANNED, 7)], [(BANNED, 8), (MIXED, 7), (TRIPLES, 9), (EXTENDED, 8)]),
    "C13": ([(MIXED, 4), (GISMU, 4)], [(MIXED, 7), (GISMU, 6)]),
    "C15": ([(MIXED, 4)], [(MIXED, 6)]),
    "C16": ([(MIXED, 3), (EXTENDED, 3)], [(MIXED, 5), (EXTENDED, 6)]),
    "C20": ([(MIXED, 4), (LUJVO, 5)], [(MIXED, 6), (LUJVO, 8), (EXTENDED, 7)]),
}


def words(prop, chunks, length):
    return dict(module="MC_Words", name="MC_Words length<=%d pieces=%s" % (length, " ".join(chunks)), cfg="""SPECIFICATION Spec
CONSTANTS Chunks = {%s}
MaxLen = %d
Wide = FALSE
Props = {"%s"}
INVARIANT %s
CHECK_DEADLOCK FALSE
""" % (", ".join('"%s"' % c for c in chunks), length, prop, prop))


# Tanru put together from small pools: (components, last components, length)
RAFSI = "-bai- -ba'i- -kla- -bar- -taz- -zmi- -zba- -mabr- -klam-".split()
RAFSI_END = "-bai- -ba'i- -kla- -zba- -zmi- -bar- -badna- -mabru- -klama-".split()
WORDS = "gerku mlatu lo uenz- barda spaji skami- spageti uenzi- -iglu- -ua- -a'u- gismu klama".split()
WORDS_END = "gerku cmalu zmadu -spageti- mlatu- -ua- -bau- -a'u- spageti uenzi".split()
TIES = "klesi djedi zmadu condi -a'u- -ba'i- -bai- -zmi-".split()
TIES_END = "klesi djedi zmadu foldi condi".split()
FALLING = "-pas- -mas- -mab- -tos- -mat- -lai- -ras-".split()
FALLING_END = "-mabru- -madna- -bru- -rai- -tamdu- -sma- -pagr- -rabdi- -tai-".split()
FEW = "-a- -ua- -a'u- -oi- -kau'ai- -bai- -ba'i- -ba'i'a- -bla- -bar-".split()    # experimental rafsi, hardly any consonants
FEW_END = "-ua- -a'u- -bai- -ba'i- -ba'i'a- -bla- -uai- -bai'ua-".split()
TANRU = {
    p: ([(WORDS, WORDS_END, 2), (RAFSI, RAFSI_END, 2)] + [(TIES[:2] + TIES[5:6], TIES_END[:2], 3), (FEW[1:7:2], FEW_END[:4], 2)] * (p == "C03")
        + [(FALLING[:3], FALLING_END[:4], 3)] * (p in ("C01", "C21")),
        [(WORDS, WORDS_END, 3), (RAFSI, RAFSI_END, 3), (FALLING, FALLING_END, 4)] + [(TIES, TIES_END, 4)] * (p in ("C03", "C04", "C05"))
        + [(FEW, FEW_END, 3)] * (p in ("C01", "C02", "C03", "C21")))
    for p in ("C01", "C02", "C03", "C04", "C05", "C11", "C12", "C18", "C21", "C22")
}


def tanru(prop, pool, last, length):
    return dict(module="MC_Jvozba", name="MC_Jvozba length<=%d %s / %s" % (length, " ".join(pool), " ".join(last)), cfg="""SPECIFICATION Spec
CONSTANTS Pool = {%s}
LastPool = {%s}
MaxLen = %d
Wide = FALSE
Props = {"%s"}
INVARIANT %s
CHECK_DEADLOCK FALSE
""" % (", ".join('"%s"' % c for c in pool), ", ".join('"%s"' % c for c in last), length, prop, prop))


POOLS = [(WORDS, WORDS_END, 3, 0), (RAFSI, RAFSI_END, 3, 0), (FALLING, FALLING_END, 4, 0), (TIES, TIES_END, 3, 0), (FEW, FEW_END, 3, 1)]  # replayed into the code


for _i, _tier in enumerate(("quick", "thorough")):
    for _p, _m in WORD_MODELS.items():
        PLANS[_p].setdefault("mc", {}).setdefault(_tier, []).extend(dict(words(_p, *a), workers=1 + _i) for a in _m[_i])
    for _p, _m in TANRU.items():
        PLANS[_p].setdefault("mc", {}).setdefault(_tier, []).extend(dict(tanru(_p, *a), workers=1 + _i) for a in _m[_i])

TURNS = [turns(2, 1), turns(2, 2), turns(3, 1)]
PLANS["C17"]["histories"] = dict(quick=[service(5)] + TURNS, thorough=[service(6)] + TURNS + [turns(2, 4), turns(3, 2)])
def flags(letters, longest, depth):
    return dict(module="MC_Flags", name="MC_Flags %s longest=%d depth=%d" % (letters, longest, depth), cfg="""SPECIFICATION Spec
CONSTANTS Letters = {%s}
Longest = %d
Depth = %d
Emit = TRUE
INVARIANTS Settings ReadsBack AnyOrder Twice Apart Printed
PROPERTY AllOrNone
CHECK_DEADLOCK FALSE
""" % (", ".join('"%s"' % c for c in letters), longest, depth))


def cli(depth):
    return dict(module="MC_Cli", name="MC_Cli depth=%d" % depth, cfg="""SPECIFICATION Spec
CONSTANTS Presses = {"A", "F2", "c", "rz1", "g", "Sx", "C"}
Depth = %d
Emit = TRUE
INVARIANTS Settings Kept Told Printed
PROPERTY Asking
CHECK_DEADLOCK FALSE
""" % depth)


def pycli(depth):
    lines = ["standard", "allow", "force", "more", "less", "cluster", "2c", "1c", "glide", "glidnt", "mz", "mznt", "cmevla", "brivla", "other",
             "force mz cmevla more", "mznt 2c allow less", "1c glide brivla"]
    return dict(module="MC_PyCli", name="MC_PyCli depth=%d" % depth, cfg="""SPECIFICATION Spec
CONSTANTS Lines = {%s}
Tools = {"katna", "jvozba"}
Depth = %d
Emit = TRUE
INVARIANTS Settings LastSaid Sayable Told Kind Printed
PROPERTY Asking
CHECK_DEADLOCK FALSE
""" % (", ".join('"%s"' % l for l in lines), depth))


def page(depth):
    return dict(module="MC_Page", name="MC_Page depth=%d" % depth, cfg="""SPECIFICATION Spec
CONSTANTS Texts = {"1", "2"}
Depth = %d
Emit = TRUE
INVARIANTS Fresh Printed
PROPERTIES Pressed Typing Waiting
CHECK_DEADLOCK FALSE
""" % depth)


def debug(depth):
    return dict(module="MC_Debug", name="MC_Debug depth=%d" % depth, cfg="""SPECIFICATION Spec
CONSTANTS Texts = {"1", "2"}
Depth = %d
Emit = TRUE
INVARIANTS Kept Printed
PROPERTIES Pressing Alone
CHECK_DEADLOCK FALSE
""" % depth)


def dictionary(words, depth):
    return dict(module="MC_Dictionary", name="MC_Dictionary %d words depth=%d" % (len(words.split()), depth), cfg="""SPECIFICATION Spec
CONSTANTS Words = {%s}
Depth = %d
Emit = TRUE
INVARIANTS Complete Sound Kept Yields Rows Printed
PROPERTIES Local
CHECK_DEADLOCK FALSE
""" % (", ".join('"%s"' % w for w in words.split()), depth))


def table(which):
    return dict(module="MC_Table", name="MC_Table shapes %s" % which, cfg="""SPECIFICATION Spec
CONSTANTS Which = {%s}
INVARIANTS Told Small
CHECK_DEADLOCK FALSE
""" % which)


PLANS["C27"]["histories"] = dict(quick=[flags("cSAFC21rgzx", 2, 2)], thorough=[flags("cSAFC21rgzx", 2, 2), flags("cAF2rx", 2, 3)])
PLANS["C28"]["histories"] = dict(quick=[cli(4)], thorough=[cli(5)])
PLANS["C31"]["histories"] = dict(quick=[pycli(3)], thorough=[pycli(4)])
PLANS["C30"]["histories"] = dict(quick=[page(5)], thorough=[page(6)])
PLANS["C30"]["mc"] = dict(quick=[table("1, 2, 3, 4, 5, 6")], thorough=[table("1, 2, 3, 4, 5, 6, 7, 8, 9")])
PLANS["C33"]["histories"] = dict(quick=[debug(4)], thorough=[debug(5)])
PLANS["C34"]["histories"] = dict(quick=[dictionary("mlatu mlate bau mlabau jicfo", 2)], thorough=[dictionary("mlatu mlate zbani bau ba'u mlabau jicfo", 2)])
PLANS["C32"]["histories"] = dict(quick=[service(5)], thorough=[service(6)])
PLANS["C29"]["histories"] = dict(quick=[odometer(7)], thorough=[odometer(8)])
PLANS["C19"]["histories"] = dict(quick=[odometer(7)], thorough=[odometer(8)])

# ---------------------------------------------------------------- for MANIFEST.json
_TRACE = "TLA+ specification; TLC validates traces recorded from the code"
_BOTH = "TLA+ specification: TLC model-checks the law on it and validates traces recorded from the code"
_REPLAY = "TLA+ specification: TLC's behaviours replayed into the code, the recorded histories validated by TLC"
_N = " Bounded by the inputs explored (counted in the evidence); trusts the specification, TLC and the recorder."
NOTES = {
    "C01": (_TRACE, "Every built word is judged by the specification's analyser as well as by the code's own." + _N),
    "C02": (_TRACE, "What decomposing reports is compared with the tanru by a law of the specification." + _N),
    "C03": (_BOTH, "Every result is compared with the specification's search, whose optimality is model-checked against all joinings." + _N),
    "C04": (_BOTH, "Both scores are compared with the formula of the specification." + _N),
    "C05": (_BOTH, "Spans are compared with the pieces of the word." + _N),
    "C06": (_BOTH, "The law is about the word and its pieces only." + _N),
    "C07": (_BOTH, "Types and pieces are compared with the specification, which is model-checked against an independent grammar; all words over small alphabets are included." + _N),
    "C08": (_TRACE, "Types are compared with the specification; all words over small alphabets are included." + _N),
    "C09": (_TRACE, "Types and pieces are compared with the specification; all words over small alphabets are included." + _N),
    "C10": (_BOTH, "The rest of a word is judged by the code and by the specification." + _N),
    "C11": (_BOTH, "The word with a cmavo in front is judged by the code and by the specification." + _N),
    "C12": (_BOTH, "The law is about the word only." + _N),
    "C13": (_BOTH, "Compared with the declarative definition of a gismu; all strings of the shapes for some letters." + _N),
    "C14": (_TRACE, "The outcome of every call is checked against the errors the specification allows." + _N),
    "C15": (_BOTH, "Results for the plain and the varied spelling are compared, and normalising with the specification." + _N),
    "C16": (_BOTH, "All 72 settings of each word are related by the laws." + _N),
    "C17": (_REPLAY, "All histories of the model up to a depth, and long and threaded ones, are replayed; a service that only computes must explain them." + _N),
    "C18": (_TRACE, "All dictionary entries in both directions." + _N),
    "C19": (_REPLAY, "All histories of two iterators up to a depth, and random ones, are replayed." + _N),
    "C20": (_BOTH, "All functions are called on the same word and related by the laws." + _N),
    "C21": (_TRACE, "The word is compared with the best joining of its own rafsi in the specification." + _N),
    "C22": (_TRACE, "The error is compared with the specification's judgement of the components." + _N),
    "C23": (_TRACE, "What the published scripts and the compiled TypeScript say about every word is compared with the specification that also judges the Python version." + _N),
    "C24": (_TRACE, "Every lujvo, score and span is compared with the specification's search, for the published scripts and the compiled TypeScript." + _N),
    "C25": (_TRACE, "What the Rust version says about every word is compared with the specification that also judges the Python version." + _N),
    "C26": (_TRACE, "Every lujvo, score and span of the Rust version is compared with the specification's search." + _N),
    "C27": (_REPLAY, "TLC's strings and sequences of flags, and random ones, are replayed; the specification says what each selects, changes and shows." + _N),
    "C28": (_REPLAY, "TLC's sessions with real words, tanru and flags put in are typed into the program built from the sources; the specification prints the expected lines." + _N),
    "C29": (_REPLAY, "All histories of two iterators up to a depth, and random ones, are replayed in the published scripts and the compiled TypeScript." + _N),
    "C31": (_REPLAY, "TLC's sessions with real words and tanru put in are typed into the two programs; the specification says what they print and what their prompts show." + _N),
    "C32": (_REPLAY, "All histories of the model up to a depth, a long one and (in Rust) threaded ones are replayed in the three programs; a service that only computes must explain them." + _N),
    "C33": (_REPLAY, "TLC's histories of the form, with real words and tanru put in, are replayed in debug-ts.html on a small DOM; the specification says what it shows." + _N),
    "C34": (_REPLAY, "TLC's dictionaries and random ones are given to make_rafsi_list.py, twice with other hash seeds; the specification says what the four files hold." + _N),
    "C30": (_REPLAY, "TLC's histories of typing, waiting and pressing are replayed in index.html on a small DOM; the specification makes the expected table." + _N),
}
