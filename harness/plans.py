"""What each check explores, by tier."""
# quick: programs per number of processes, schedules, real processes
Q = dict(ps=[1, 2, 3, 4, 5, 7], n=40, few={1: .6, 5: .35, 7: .15}, meant=6, entries=250, schedules=2, real={2: 10, 3: 10})
T = dict(ps=[1, 2, 3, 4, 5, 6, 8], n=900, few={6: .5, 8: .2}, meant=150, entries=700, schedules=6, real={1: 20, 2: 150, 3: 150, 4: 150, 5: 60})

# property -> [(profile, share)]: drawn programs (C..), small scopes gone through
# systematically (E..) and inputs longer, wider and deeper than those (L..)
PROFILES = {
    "C01": [("C01", 1.3), ("E01", 1.5), ("L01", 0.3)],
    "C02": [("C02", 1.5), ("E02", 0.6), ("L02", 0.2)],
    "C03": [("C03", 1.3), ("E03", 0.8), ("E13A", 0.2), ("L03", 0.3)],
    "C04": [("C04", 1.0), ("E04", 1.2), ("E13A", 0.4), ("L04", 0.3)],
    "C05": [("C05", 1.3), ("E05", 0.7), ("SOLM", 0.3), ("L05", 0.3)],
    "C06": [("C06", 1.2), ("E06", 1.2), ("L06", 0.3)],
    "C07": [("C07", 1.0), ("C09", 0.3), ("E07", 0.9), ("L07", 0.2)],
    "C08": [("C08", 1.0), ("E08", 1.2), ("L08", 0.3)],
    "C09": [("C09", 1.0), ("E09", 0.8), ("L09", 0.3)],
    "C10": [("C10", 1.0), ("E10", 1.2), ("L10", 0.2)],
    "C11": [("C11", 1.0), ("E11", 1.0), ("L11", 0.3)],
    "C12": [("C12", 1.0), ("E12", 0.5), ("E12A", 0.7), ("LMIX", 0.3)],
    "C13": [("C13", 0.6), ("C13B", 0.7), ("E13", 0.6), ("E13A", 0.5), ("LMIX", 0.3)],
    "C14": [("C14", 0.9), ("E14", 0.6), ("L14", 0.15)],
    "C15": [("C15", 0.8), ("E15", 0.4), ("L15", 0.15)],
    "C16": [("C16", 0.9), ("C13B", 0.3), ("EMIX", 0.6), ("E06", 0.4), ("SOL", 0.2), ("E17C", 0.15), ("LMIX", 0.3)],
    "C17": [("C17", 1.0), ("C13B", 0.4), ("E17", 0.5), ("E17B", 0.4), ("E13A", 0.3), ("E06", 0.3), ("EMIX", 0.3), ("E17C", 0.4), ("LMIX", 0.3)],
    "C18": [("C18", 0.6), ("E18", 2.4), ("SOL", 0.2), ("LMIX", 0.15)],
    "C19": [("C19", 1.0), ("E19", 0.6), ("E19B", 0.4), ("SOL", 0.2), ("E14", 0.25), ("E15", 0.25), ("L19", 0.3)],
    "C20": [("C20", 1.0), ("E20", 1.2), ("L20", 0.2)],
}


def plans(pid, tier):
    big = tier != "quick"
    b = T if big else Q
    out = []
    for profile, share in PROFILES[pid]:
        n = max(1, int(b["n"] * share))
        d = dict(b, profile=profile, n=n, real={k: max(1, int(v * min(1, share))) for k, v in b["real"].items()})
        if profile[0] == "L":
            d["meant"] = 0
        if pid == "C16":
            d["comm"] = True
        if pid == "C18":
            d.update(ps=[], real={}, pairs=[(1, 2), (2, 2), (2, 3), (3, 1)], npairs=n if not big else n // 2,
                     realpairs={(2, 2): 150 if big else 7, (1, 2): 150 if big else 7})
        out.append(d)
    return out
