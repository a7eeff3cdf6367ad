"""Do the recorded defects of the real code still show?  (None is open at present.)"""


def still_fails(prop, f):
    import api as a
    e, w, _, _ = a.build(f["t"], f["cm"], f["s"])
    return e == "NoLujvoFoundError" and a.analyse(f["w"], f["s"])[0] in ("LUJVO", "EXTENDED_LUJVO")
