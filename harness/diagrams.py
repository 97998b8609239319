"""All small influence diagrams, enumerated by TLC from spec/Diagrams.tla, with all questions about them."""
import itertools
import json
import os
import random
import tempfile

import tlc
from gen import Model
from sessions import Session

# property: number of agents, with utility nodes, only childless ones, nodes, least numbers of decisions and utilities
# in the largest ones, numbers of smaller and largest ones in a quick run
FOCUS = {
    "C10": (1, False, False, 4, 0, 0, 40, 80),
    "C11": (2, True, False, 4, 1, 0, 100, 300),
    "C12": (2, True, False, 4, 1, 1, 200, 900),
    "C13": (1, True, False, 4, 1, 1, 250, 1500),
    "C19": (2, True, True, 5, 2, 2, 300, 1500),
}


def enumerate_(P):
    agents, utilities, childless, n, min_d, min_u = FOCUS[P][:6]
    with tempfile.NamedTemporaryFile("w", suffix=".cfg", delete=False) as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\n")
        f.write(f"CONSTANT N = {n}\nCONSTANT A = {agents}\n")
        f.write(f"CONSTANT Utilities = {str(utilities).upper()}\nCONSTANT Childless = {str(childless).upper()}\n")
        f.write(f"CONSTANT MinD = {min_d}\nCONSTANT MinU = {min_u}\n")
    try:
        rc, out = tlc.run_tlc("Diagrams", config=f.name, workers=4, timeout=1200, heap="4g")
    finally:
        os.unlink(f.name)
    if rc != 0:
        raise tlc.TlcFailure(out[-3000:])
    return sorted(json.loads(line)[2:] for line in out.splitlines() if line.startswith('"D|'))


def subsets(S):
    return [list(c) for k in range(len(S) + 1) for c in itertools.combinations(sorted(S), k)]


def paths(m):
    """all simple paths, whatever the direction of their edges"""
    res, todo = [], [[v] for v in m.N]
    while todo:
        p = todo.pop()
        if len(p) > 1:
            res.append(p)
        todo += [p + [w] for w in m.pa(p[-1]) + m.ch(p[-1]) if w not in p]
    return res


def q10(m, kind):
    qs = []
    for s, t in itertools.permutations(sorted(m.N), 2):
        qs += [dict(f="dirpaths", s=s, t=t), dict(f="undirpaths", s=s, t=t)]
        if kind != "cbn":
            qs.append(dict(f="decfree", s=s, t=t))
        for z in subsets(m.N - {s, t}):
            qs += [dict(f=f, s=s, t=t, z=z) for f in ("findactive", "backdoor", "frontdoor") + (("dconn",) if kind != "cbn" else ())]
    for p in paths(m):
        qs.append(dict(f="motifs", p=p, z=[]))
        qs += [dict(f="active", p=p, z=z) for z in subsets(m.N - {p[0], p[-1]})]
    if kind != "cbn":
        qs += [dict(f="trail", s=s, z=z) for s in sorted(m.N) for z in subsets(m.N - {s})]
    return qs


def q11(m, kind):
    D = sorted(m.dec)
    qs = [dict(f="relgraph", all=True, ds=[]), dict(f="sccs"), dict(f="sccorder"), dict(f="sccmap"), dict(f="sccdraw"), dict(f="order", all=True, vs=[]), dict(f="recall", a=0)]
    qs += [dict(f="subgames")] if kind == "macid" else []
    qs += [dict(f="recall", a=a) for a in sorted(set(m.dec.values()) | set(m.util.values()))]
    qs += [dict(f="rreach", ds=[d], vs=[v], sreach=s) for d in D for v in sorted(m.N) for s in (False, True)]
    qs += [dict(f="relgraph", all=False, ds=ds) for ds in subsets(D) if ds]
    qs += [dict(f="mech", s=v, z=z) for v in sorted(m.N) for z in subsets(m.N)]
    return qs


def q12(m, kind):
    return [dict(f="reqgraph")] + [q for d in sorted(m.dec) for q in [dict(f="reqlist", d=d)] + [dict(f="req", d=d, x=x) for x in m.pa(d)]]


def q13(m, kind):
    qs = [dict(f=f, d=d) for d in sorted(m.dec) for f in ("voilist", "rilist", "ivoclist", "icilist")]
    return qs + [dict(f="voclist"), dict(f="dvoclist")]


def q19(m, kind):
    D = sorted(m.dec)
    return [dict(f="patterns")] + [dict(f=f, d=d, eff=e) for d in D for e in subsets(D) for f in ("deff", "manip", "sig", "rev")]


ASK = {"C10": q10, "C11": q11, "C12": q12, "C13": q13, "C19": q19}


def make(P, tier, seed, first_sid, scale=1.0):
    """scripts for the driver: all diagrams within the bounds (thorough) or some of them"""
    if P not in FOCUS:
        return []
    n, some = FOCUS[P][3], FOCUS[P][6:]
    r = random.Random(f"{P}-{seed}")
    found = [json.loads(x) for x in enumerate_(P)]
    picked = []
    for large in (False, True):
        these = [x for x in found if (x["n"] == n) == large]
        picked += these if tier == "thorough" else r.sample(these, min(len(these), int(some[large] * scale) + 1))
    scripts = []
    for k, x in enumerate(picked):
        s = Session(f"{P}-{seed}-diagram-{k}", first_sid + k)
        nodes = list(range(1, x["n"] + 1))
        named = nodes[:]
        s.r.shuffle(named)  # the numbers give the names: no relation to the order
        v = dict(zip(nodes, named))
        m = Model(named, {(v[a], v[b]) for a, b in x["E"]})
        for i, (role, a) in enumerate(x["ro"]):
            if role != "c":
                (m.dec if role == "d" else m.util)[v[i + 1]] = a
        one = set(m.dec.values()) | set(m.util.values()) == {1}
        kinds = ["cid"] if P == "C13" else ["macid", "macid"] + (["cid"] if one else []) + (["macidbase"] if P != "C19" else [])
        if P == "C10" and not m.dec:
            kinds.append("cbn")
        kind = s.r.choice(kinds)
        s.graph_of(m, named, kind, x["n"])
        s.ask(1, ASK[P](m, kind))
        scripts.append(s.script())
    return scripts
