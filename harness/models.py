"""Model checking runs of the specification itself: every definition the judges rest on is
checked by TLC, exhaustively within small constants, against an independent second definition or
against the laws it has to satisfy.  These runs do not touch pycid; they show that what pycid is
compared with is what the properties say."""
import os
import re
import tempfile

import tlc


class ModelFailure(Exception):
    pass


# module: (invariants, quick constants, thorough constants)
RUNS = {
    "MC_Graph": (["Agree", "TopoOk", "BackFront"], {"N": 4}, {"N": 5}),
    "MC_Influence": (
        ["Confluent", "ReqIsFix", "SccPartition", "SubgamesOk", "IncentivesOk", "RecallKept"],
        {"N": 3, "A": 2}, {"N": 4, "A": 2},
    ),
    "MC_Api": (
        ["SoundOk", "DeriveOk", "CopyOk", "OrderOk", "InterveneOk", "SeeDo", "RulesOk", "RolesKept", "RemoveOk"],
        {"N": 2, "Rich": "TRUE"}, {"N": 3, "Rich": "FALSE"},
    ),
}
USES = {
    "C01": ["MC_Api"], "C05": ["MC_Api"], "C06": ["MC_Api"], "C08": ["MC_Api"],
    "C09": ["MC_Graph"], "C10": ["MC_Graph"], "C11": ["MC_Graph", "MC_Influence"], "C12": ["MC_Influence"],
    "C13": ["MC_Influence"], "C17": ["MC_Influence"], "C19": ["MC_Graph"],
}
STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def run(module, tier):
    invariants, quick, thorough = RUNS[module]
    consts = thorough if tier == "thorough" else quick
    with tempfile.NamedTemporaryFile("w", suffix=".cfg", delete=False) as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
        f.writelines(f"CONSTANT {k} = {v}\n" for k, v in consts.items())
        f.writelines(f"INVARIANT {i}\n" for i in invariants)
    try:
        rc, out = tlc.run_tlc(module, config=f.name, timeout=6000 if tier == "thorough" else 400)
    finally:
        os.unlink(f.name)
    if rc != 0 or "No error has been found" not in out:
        raise ModelFailure(f"{module} {consts}: {out[-2500:]}")
    gen, distinct = map(int, STATES.findall(out)[-1])
    return {"module": module, "constants": consts, "invariants": invariants, "states": distinct, "transitions": gen}


def check(P, tier):
    runs = [run(mod, tier) for mod in USES.get(P, [])]
    return {"states": sum(x["states"] for x in runs), "transitions": sum(x["transitions"] for x in runs), "runs": runs}
