"""What each check runs."""

import os, re

def _family():
    """op -> property, for calls that end the process: read from the Family operator of spec/Trace.tla"""
    s = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Trace.tla")).read()
    sets = {m.group(1): re.findall(r'"(\w+)"', m.group(2)) for m in re.finditer(r"^(\w+Ops) == \{(.*?)\}", s, re.S | re.M)}
    fam = {}
    for cond, prop in re.findall(r'e\.op (.*?) -> "(C\d\d)"', s[s.index("Family =="):s.index("Props(v)")]):
        for name in re.findall(r"\w+Ops", cond):
            for op in sets[name]:
                fam[op] = prop
        for op in re.findall(r'"(\w+)"', cond):
            fam[op] = prop
    return fam
FAMILY = _family()

def props_of_death(op):
    return sorted(set([FAMILY.get(op, "C01"), "C19"]))

# property -> [(profile, share)] of random histories
RAND = {
    "C01": [("core", 1)],
    "C02": [("cells", 1)],
    "C03": [("rows", 1)],
    "C04": [("cols", 1)],
    "C05": [("sort", 1)],
    "C06": [("search", 1)],
    "C07": [("merge", 1)],
    "C08": [("unique", 1)],
    "C09": [("copy", 1)],
    "C10": [("text", 1)],
    "C11": [("json", 1)],
    "C12": [("yaml", 1)],
    "C13": [("gob", 1)],
    "C14": [("doc", 1)],
    "C15": [("fault", 1)],
    "C16": [("sets", 1)],
    "C17": [("nesting", 1)],
    "C18": [("equals", 1)],
    "C19": [("misuse", 1)],
    "C20": [("pure", 1)],
    "C21": [("nest", 1)],
    "C22": [("export", 1)],
    "C24": [("faith", 1)],
}
# segments per job in the quick and thorough tiers
SEGS = {"quick": 420, "thorough": 1500}
# property -> exhaustive models; limit: how many of the printed behaviours are replayed (quick, thorough)
def M(module, quick, thorough, cfg=None, **kw):
    return dict(module=module, cfg=cfg or module + ".cfg", limit={"quick": quick, "thorough": thorough}, **kw)
MODELS = {
    "C01": [M("MCNames", 0, 0)],
    "C02": [M("MCAcc", 0, 0)],
    "C03": [M("MCRows", 4000, 20000, "MC.cfg")],
    "C04": [M("MCCols", 4000, 12000, "MC.cfg")],
    "C05": [M("MCKeys", 4000, 12000, "MC.cfg")],
    "C06": [M("MCSearch", 0, 0)],
    "C07": [M("MCMerge", 0, 0)],
    "C08": [M("MCMerge", 0, 0)],
    "C09": [M("MCHeap", 0, 0)],
    "C10": [M("MCRT", 0, 0, pool=60, env={"FMT": "text"})],
    "C11": [M("MCRT", 0, 0, pool=60, env={"FMT": "json"})],
    "C12": [M("MCRT", 0, 0, pool=60, env={"FMT": "yaml"})],
    "C13": [M("MCRT", 0, 0, pool=60, env={"FMT": "gob"})],
    "C14": [M("MCDoc", 1500, 8000)],
    "C15": [M("MCFault", 3000, 12000)],
    "C16": [M("MCSet", 3000, 6000, "MC.cfg")],
    "C17": [M("MCGraph", 0, 0)],
    "C18": [M("MCEq", 0, 0)],
    "C19": [M("MCMisuse", 0, 0)],
    "C20": [M("MCHeap", 0, 0)],
    "C21": [M("MCNestFn", 0, 0)],
    "C22": [M("MCCsv", 0, 0, pool=40)],
    "C24": [M("MCFeed", 0, 0)],
}
for _p, _w in {"C02": "cells", "C05": "sort", "C06": "search", "C07": "merge", "C08": "unique", "C09": "copy", "C10": "text", "C11": "json", "C12": "yaml", "C13": "gob",
               "C18": "equals", "C21": "nest", "C22": "csv"}.items():
    MODELS[_p].append(M("MCBits", 0, 0, pool=-1, env={"WHAT": _w}))
for _p, _w in {"C01": "names", "C02": "cells", "C03": "rows", "C04": "cols", "C05": "sort", "C06": "search", "C07": "merge", "C08": "unique", "C09": "copy", "C10": "text", "C11": "json",
               "C12": "yaml", "C13": "gob", "C14": "doc", "C16": "sets", "C17": "deep", "C18": "equals", "C20": "pure", "C21": "nest", "C22": "csv"}.items():
    MODELS[_p].append(M("MCBig", 0, 0, env={"WHAT": _w}))
# properties decided on compiled generated source
GEN = {"C23"}

def jobs(prop, tier, seed):
    out = []
    profs = RAND.get(prop, [])
    n = 8 if tier == "quick" else 48
    tot = sum(w for _, w in profs) or 1
    k = 0
    for name, w in profs:
        for _ in range(max(1, n * w // tot)):
            out.append({"kind": "rand", "profile": name, "seed": seed * 1000 + k, "segs": SEGS[tier]})
            k += 1
    if prop in GEN:
        k, segs = (8, 12) if tier == "quick" else (16, 60)
        out.append({"kind": "gen", "profile": "gen", "seeds": [seed * 1000 + i for i in range(k)], "segs": segs})
    for m in MODELS.get(prop, []):
        out.insert(0, dict(m, kind="model", limit=m["limit"][tier], deep=tier == "thorough"))
    return out

NOTE = ("Every recorded call of the real package is judged by TLC against the TLA+ specification, on the full state visible through the public API "
        "before and after it; sound for the recorded executions, not exhaustive over all inputs. Trusted: the driver's projection of concrete values to tokens, TLC.")
NOTES = {}
NA = {}
