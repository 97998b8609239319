"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--sessions N] [--seed S]

Decides one property: (1) TLC model checks the specification modules the property rests on,
(2) session scripts are generated (by TLC from the specification, and by sessions.py), executed
on the real pycid from /repo, and what was recorded is judged by TLC against spec/Trace.tla.
Exit 0: nothing found; exit 1 with a VIOLATION line otherwise; exit 2: the machinery failed.
"""
import argparse
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import models  # noqa: E402
import plan  # noqa: E402
import sessions as gen  # noqa: E402
import tlc  # noqa: E402

REPO = os.environ.get("PYCID_REPO", "/repo")
PYTHON = os.environ.get("PYCID_PYTHON", "/opt/venv/bin/python")
WORKERS = int(os.environ.get("CHECK_WORKERS", "8"))


def driver_env(hashseed):
    env = dict(os.environ)
    env.update(
        PYTHONPATH=REPO, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg",
    )
    return env


def execute(chunks, scratch, limit):
    """chunks: list of (hash seed, scripts) -> {sid: (record, hash seed)}, {sid: reason} without record"""
    jobs, records, lost = [], {}, {}
    todo = [(h, list(s)) for h, s in chunks if s]
    running = []
    count = 0
    while todo or running:
        while todo and len(running) < WORKERS:
            h, scripts = todo.pop(0)
            count += 1
            src, dst = os.path.join(scratch, f"in{count}.ndjson"), os.path.join(scratch, f"out{count}.ndjson")
            with open(src, "w") as f:
                for s in scripts:
                    f.write(json.dumps(s) + "\n")
            err = open(os.path.join(scratch, f"err{count}"), "w")
            p = subprocess.Popen(
                [PYTHON, "-W", "ignore", os.path.join(HERE, "driver.py"), src, dst], env=driver_env(h), cwd=scratch,
                stdout=subprocess.DEVNULL, stderr=err,
            )
            running.append((p, h, scripts, dst, err, time.time()))
        time.sleep(0.1)
        for job in list(running):
            p, h, scripts, dst, err, t0 = job
            if p.poll() is None and time.time() - t0 < limit:
                continue
            hung = p.poll() is None
            if hung:
                p.kill()
                p.wait()
            running.remove(job)
            err.close()
            done = []
            if os.path.exists(dst):
                with open(dst) as f:
                    for line in f:
                        try:
                            rec = json.loads(line)
                        except ValueError:
                            break
                        records[rec["sid"]] = (rec, h)
                        done.append(rec["sid"])
            rest = [s for s in scripts if s["sid"] not in done]
            if rest and (hung or p.returncode != 0):
                if not done and not hung and len(rest) == len(scripts):
                    # did not even start?
                    with open(err.name) as f:
                        msg = f.read()[-2000:]
                    if "START" not in msg:
                        lost["import"] = msg
                        continue
                with open(err.name) as f:
                    msg = f.read()[-800:]
                lost[rest[0]["sid"]] = ("no end within %d s" % limit) if hung else f"process ended with {p.returncode}: {msg}"
                if len(lost) < 6 and len(rest) > 1:
                    todo.append((h, rest[1:]))
    return records, lost


def slim(rec):
    return {"sid": rec["sid"], "ev": rec["ev"]}


def describe(script, event, clause):
    ev = script["ev"][event - 1] if event <= len(script["ev"]) else {}
    q = None
    if "#" in clause:
        k = int(clause.split("#")[1])
        q = ev.get("qs", [])[k - 1]
    return {"event": event, "clause": clause, "op": ev.get("op"), "question": q}


def load_known(P):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == P]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--sessions", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--nomodels", action="store_true")
    ap.add_argument("--keep")
    ap.add_argument("--all-clauses", action="store_true", help="report clauses of every property (development)")
    args = ap.parse_args()
    P, t0 = args.property, time.time()
    scratch = tempfile.mkdtemp(prefix=f"check-{P}-")
    try:
        code = run(P, args, scratch, t0)
    except (tlc.TlcFailure, models.ModelFailure) as ex:
        print("MACHINERY FAILURE:", str(ex)[-3000:])
        code = 2
    finally:
        if args.keep:
            shutil.copytree(scratch, args.keep, dirs_exist_ok=True)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def run(P, args, scratch, t0):
    spec_stats = {"states": 0, "transitions": 0, "runs": []}
    if args.replay:
        with open(args.replay) as f:
            rp = json.load(f)
        chunks = [(rp["hashseed"], [rp["script"]])]
        scripts = {rp["script"]["sid"]: rp["script"]}
    else:
        for old in glob.glob(os.path.join(VERIF, "replay", P + "-*.json")):
            os.remove(old)
        if not args.nomodels:
            spec_stats = models.check(P, args.tier)
        scripts, chunks = plan.make(P, args.tier, args.seed, args.sessions, scratch)
    t1 = time.time()
    limit = 300 if args.tier == "quick" else 3000
    records, lost = execute(chunks, scratch, limit)
    if "import" in lost:
        # pycid cannot be imported from the tree at all
        raise tlc.TlcFailure("driver does not start: " + lost["import"])
    t2 = time.time()
    recs = [slim(records[s][0]) for s in sorted(records)]
    verdicts, bad, overflow, states = tlc.judge(recs, scratch, WORKERS, timeout=700 if args.tier == "quick" else 7000)
    t3 = time.time()
    violations = []  # (sid, event, clause)
    others = {}
    for (sid, l), clauses in sorted(verdicts.items()):
        for c in sorted(clauses):
            if c.startswith(P) or args.all_clauses:
                violations.append((sid, l, c))
            else:
                others.setdefault(re.sub(r"#\d+", "", c), []).append((sid, l))
    violations += [(sid, 1, f"{P}:uninterpretable record ({msg[:300]})") for sid, msg in bad]
    violations += [(sid, 1, f"{P}:no answer ({msg})") for sid, msg in lost.items()]
    # a call that was merely slow is not a violation: such sessions are repeated alone
    slow = sorted({sid for sid, l, c in violations if sid in records and timed_out(records[sid][0], l, c)})
    again, v2 = slow[:6], {}
    if again:
        r2, _ = execute([(records[sid][1], [scripts[sid]]) for sid in again], scratch, limit)
        again = [sid for sid in again if sid in r2]
        v2 = tlc.judge([slim(r2[sid][0]) for sid in again], scratch, WORKERS)[0] if again else {}
    sure = []
    for sid, l, c in violations:
        if sid in slow and timed_out(records[sid][0], l, c):
            if sid in slow[6:] or (sid in again and c not in v2.get((sid, l), ())):
                continue
        sure.append((sid, l, c))
    known = load_known(P)
    reported, code, files = [], 0, {}
    for sid, l, c in sure:
        d = describe(records[sid][0] if sid in records else scripts[sid], l, c)
        k = next((x for x in known if matches(x, d)), None)
        if k:
            print(f"KNOWN-FINDING: property={P} {k['what']}")
            continue
        code = 1
        if sid not in files:
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
            path = os.path.join(VERIF, "replay", f"{P}-{len(files) + 1}.json")
            h = records[sid][1] if sid in records else 0
            with open(path, "w") as f:
                json.dump({"property": P, "hashseed": h, "script": scripts[sid], "found": [d]}, f, indent=1)
            files[sid] = path
            if len(files) <= 20:
                print(f"VIOLATION property={P} replay={path}")
        if len(reported) < 40:
            reported.append(d)
            print("  " + json.dumps(d)[:600])
    evals = sum(len(e.get("qs", [])) if e["op"] == "ask" else 1 for r in recs for e in r["ev"])
    distinct = len({json.dumps({k: v for k, v in s.items() if k != "sid"}, sort_keys=True) for s in scripts.values()})
    ops, answers = {}, {}
    for r in recs:
        for e in r["ev"]:
            for name in [q["f"] for q in e["qs"]] if e["op"] == "ask" else [e["op"]]:
                ops[name] = ops.get(name, 0) + 1
            for q in e["qs"] if e["op"] == "ask" else []:
                a = answers.setdefault(q["f"], {})
                a[shape(q)] = a.get(shape(q), 0) + 1
    first = next(iter(scripts.values()))
    evidence = {
        "property": P, "tier": "thorough" if args.tier == "thorough" else "quick", "seed": args.seed,
        "level": "model_checking",
        "coverage": {
            "states": spec_stats["states"] + states,
            "transitions": spec_stats["transitions"] + len(verdicts),
            "traces_validated_against_impl": len({s for s, _ in verdicts}),
            "evaluations": evals, "distinct_nontrivial": distinct,
            "rule": "one evaluation = one call on real pycid objects judged by TLC against spec/Trace.tla; "
                    "distinct_nontrivial = number of distinct session scripts (all have at least one judged event)",
            "operations": ops, "answers": answers, "skipped_overflow": len(overflow), "model_checking_runs": spec_stats["runs"],
            "clauses_of_other_properties": {k: len(v) for k, v in others.items()},
            "seconds": {"models": round(t1 - t0, 1), "driver": round(t2 - t1, 1), "judge": round(t3 - t2, 1)},
            "samples": [first],
        },
        "assumptions": ["TLC evaluates the specification correctly", "the driver records faithfully (see DESIGN.md)"],
        "wall_s": round(time.time() - t0, 1), "violations": len(sure),
    }
    if not args.replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", P + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
    print(f"{P}: {len(recs)} sessions, {evals} evaluations, {len(sure)} violations, {len(overflow)} skipped; "
          f"models {t1 - t0:.0f}s driver {t2 - t1:.0f}s judge {t3 - t2:.0f}s; others: "
          + json.dumps({k: [len(v), v[0]] for k, v in others.items()}))
    return code


def shape(q):
    """roughly what was answered, to see how evenly the cases are covered"""
    v = q.get("val")
    if q.get("err"):
        return q["err"]
    if isinstance(v, bool) or v is None:
        return str(v)
    if isinstance(v, list):
        return "empty" if not v else "zero" if v == [0, 0] else "nonempty"
    return "value"


def timed_out(rec, l, c):
    e = rec["ev"][l - 1] if l <= len(rec["ev"]) else {}
    return "Timeout" in json.dumps([e.get("err")] + [q.get("err") for q in e.get("qs", [])])


def matches(known, d):
    if not d["clause"].startswith(known["clause"]):
        return False
    q = d.get("question") or {}
    return all(q.get(k) == v for k, v in known.get("question", {}).items())


if __name__ == "__main__":
    main()
