"""Calls of the real code, through its public functions, with outcomes as plain data.

Every call has a time limit; an exception becomes its class name.
"""
import os
import signal
import sys
import zlib

sys.dont_write_bytecode = True
if sys.pycache_prefix is None:
    sys.pycache_prefix = "/nonexistent/pycache"
REPO = os.environ.get("JVOTCI_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "py"))

import latkerlo_jvotci as L  # noqa: E402
from latkerlo_jvotci import tarmi as TARMI, tools as TOOLS, data as DATA, rafsi as RAFSI_MOD  # noqa: E402


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def arm(seconds=20):
    try:
        signal.signal(signal.SIGPROF, _alarm)
    except ValueError:
        pass
    return seconds


LIMIT = arm()
TIMEOUTS = 0


def call(f, *a, **k):
    """('', value) or (exception class name, None)"""
    global LIMIT, TIMEOUTS
    signal.setitimer(signal.ITIMER_PROF, LIMIT)
    try:
        v = f(*a, **k)
        signal.setitimer(signal.ITIMER_PROF, 0)
        return "", v
    except Timeout:
        TIMEOUTS += 1
        LIMIT = 3 if LIMIT else 0
        return "Timeout", None
    except BaseException as e:  # noqa: BLE001  any class is an outcome
        signal.setitimer(signal.ITIMER_PROF, 0)
        if isinstance(e, KeyboardInterrupt):
            raise
        return type(e).__name__, None


NAMES = ("generate_cmevla", "y_hyphens", "exp_rafsi_shapes", "consonants", "glides", "allow_mz")
USUAL = (False, "STANDARD", False, "CLUSTER", False, False)


def form(w, s, cm=None):
    """The settings of a call, in order, by name, or without those that are the usual ones.  The same call is always written in the same way."""
    h = zlib.crc32(repr((w, list(s), cm)).encode("utf8", "replace")) % 4
    given = list(zip(NAMES, (cm,) + tuple(s), USUAL))[cm is None:]
    if h < 2:
        return [v for _, v, _ in given], {}
    return [], {n: v for n, v, u in given if h == 2 or v != u}


def given(f, w, s, cm=None):
    pos, named = form(w, s, cm)
    return call(f, list(w) if isinstance(w, list) else w, *pos, **named)


def analyse(w, s):
    """(type or exception class, pieces)"""
    e, v = given(L.analyse_brivla, w, s)
    if e:
        return e, []
    try:
        t, d = v
        if not isinstance(t, str) or not isinstance(d, list) or not all(isinstance(x, str) for x in d):
            return "BadResult", []
        return t, list(d)
    except (TypeError, ValueError):
        return "BadResult", []


def build(t, cm, s):
    """(exception class, word, score, spans)"""
    e, v = given(L.get_lujvo_with_analytics, t, s, cm)
    if e:
        return e, "", 0, []
    try:
        w, sc, ix = v
        ix = [[int(a), int(b)] for a, b in ix]
        if not isinstance(w, str) or isinstance(sc, bool) or not isinstance(sc, int):
            return "BadResult", "", 0, []
        return "", w, sc, ix
    except (TypeError, ValueError):
        return "BadResult", "", 0, []


def lujvo(t, cm, s):
    e, v = given(L.get_lujvo, t, s, cm)
    return (e, "") if e else ("", v) if isinstance(v, str) else ("BadResult", "")


def veljvo(w, s):
    e, v = given(L.get_veljvo, w, s)
    if e:
        return e, []
    if not isinstance(v, list) or not all(isinstance(x, str) for x in v):
        return "BadResult", []
    return "", list(v)


def score(w, s):
    e, v = given(L.score_lujvo, w, s)
    if e:
        return e, 0
    return ("", v) if isinstance(v, int) and not isinstance(v, bool) else ("BadResult", 0)


def isbrivla(w, s):
    e, v = given(L.is_brivla, w, s)
    return e or ("yes" if v is True else "no" if v is False else "BadResult")


def _find(name):
    for m in (TOOLS, TARMI, L):
        if hasattr(m, name):
            return getattr(m, name)
    return None


IS_GISMU, NORMALISE, IS_GISMU_OR_LUJVO = _find("is_gismu"), _find("normalise"), _find("is_gismu_or_lujvo")


def gismu_or_lujvo(w, y, m):
    e, v = call(IS_GISMU_OR_LUJVO, w, y, m)
    return e or ("yes" if v is True else "no" if v is False else "BadResult")


def isgismu(w, m):
    e, v = call(IS_GISMU, w, m)
    return e or ("yes" if v is True else "no" if v is False else "BadResult")


def indices(d):
    e, v = call(L.get_rafsi_indices, list(d))
    if e:
        return e, []
    try:
        return "", [[int(a), int(b)] for a, b in v]
    except (TypeError, ValueError):
        return "BadResult", []


def normalise(w):
    e, v = call(NORMALISE, w)
    return (e, "") if e else ("", v) if isinstance(v, str) else ("BadResult", "")
