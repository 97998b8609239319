"""Histories of calls drawn by TLC from spec/Hist.tla, as scripts for the driver."""
import concurrent.futures
import json
import os
import random
import tempfile

import tlc
from gen import Gen
from sessions import WAYS, caller

ALL = {"addspec", "edge", "unedge", "del", "role", "do", "copy", "rule", "ask", "node", "unnode"}
CODES = {"addspec": [1, 11, 12, 13], "edge": [2, 14], "unedge": [3], "del": [4], "role": [5], "do": [6], "copy": [7], "rule": [8],
         "ask": [9], "node": [10], "unnode": [15]}
# property: kinds of calls, kinds of models, nodes, steps, models alive
FOCUS = {
    "C01": (ALL - {"role", "rule", "copy"}, ["cbn", "macidbase"], 5, 22, 1),
    "C05": (ALL - {"copy", "role"}, ["cbn", "cid", "macid"], 5, 22, 1),
    "C06": (ALL, ["cbn", "cid", "macid", "macidbase"], 4, 20, 4),
    "C07": ({"role", "edge", "unedge", "node", "copy", "addspec", "unnode"}, ["cid", "macid", "macidbase"], 5, 14, 2),
    "C08": ({"addspec", "edge", "do", "ask", "role", "copy"}, ["cbn", "cid", "macid"], 4, 22, 2),
}
BATCH = 20


def batch(P, seed, k):
    what, kinds, n, steps, models = FOCUS[P]
    codes = sorted(c for w in what for c in CODES[w])
    with tempfile.NamedTemporaryFile("w", suffix=".cfg", delete=False) as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\n")
        f.write(f"CONSTANT MaxN = {n}\nCONSTANT Steps = {steps}\nCONSTANT MaxModels = {models}\n")
        f.write("CONSTANT Kinds = {" + ",".join(f'"{x}"' for x in kinds) + "}\n")
        f.write("CONSTANT Ks = {" + ",".join(map(str, codes)) + "}\n")
    try:
        rc, out = tlc.run_tlc(
            "Hist", config=f.name, workers=1, timeout=600, heap="2g",
            extra=("-seed", str(seed * 1000 + k), "-simulate", f"num={BATCH}", "-depth", str(steps)),
        )
    finally:
        os.unlink(f.name)
    if rc != 0:
        raise tlc.TlcFailure(out[-3000:])
    seen, res = set(), []
    for line in out.splitlines():
        if line.startswith('"H|'):
            kind, text = json.loads(line)[2:].split("|", 1)
            h = json.loads(text)
            key = json.dumps(h[:-1])
            if key not in seen:
                seen.add(key)
                res.append((kind, h))
    return res[:BATCH]


def make(P, seed, count, first_sid):
    """scripts for the driver: TLC's calls, with names, outcomes and ways of calling chosen here"""
    if P not in FOCUS:
        return []
    n = (count + BATCH - 1) // BATCH
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        hs = [x for b in ex.map(lambda k: batch(P, seed, k), range(n)) for x in b][:count]
    scripts = []
    for k, (kind, h) in enumerate(hs):
        sid = first_sid + k
        r = random.Random(f"{P}-{seed}-{sid}")
        g = Gen(r, sid)
        nodes = FOCUS[P][2]
        roles = {e["v"] for e in h if e["op"] in ("mkdec", "mkutil")}
        for v in range(1, nodes + 1):
            if v not in roles and r.random() < 0.4:
                g.codecs[v] = r.choice(["half", "str", "pre", "float"])
        ev = []
        for e in h:
            e = dict(e)
            if e["op"] in WAYS and r.random() < 0.4:
                e["way"] = r.choice(WAYS[e["op"]])
            if e["op"] == "set":
                e["r"] = dict(e["r"], how=r.choice(["kw", "item"]))
            if e["op"] == "build":
                e["how"] = r.choice(["inc", "ctor"])
            if e["op"] == "impall" and kind == "cid" and r.random() < 0.5:
                e["how"] = "policy"
            if e["op"] in ("mkdec", "mkutil") and kind == "cid" and e["a"] == 1 and r.random() < 0.5:
                e["default"] = True
            if e["op"] in ("mkchance", "mkdec", "mkutil") and P == "C07" and r.random() < 0.3:
                ev += [e, {"op": "ask", "i": e["i"], "qs": [{"f": "draw", "kind": "cid" if kind == "cid" else "macid"}]}]
                continue
            ev.append(e)
        scripts.append({"sid": sid, "meta": g.meta(nodes, kind, True), "ev": caller(r, ev)})
    return scripts
