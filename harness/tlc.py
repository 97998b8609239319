"""Running TLC on recorded sessions."""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
COMM = "/opt/veriftools/tla/CommunityModules-deps.jar"


def run_tlc(module, config=None, env=None, workers=8, timeout=800, extra=(), heap="10g"):
    """-> (return code, output); TLC's working files stay in a scratch directory"""
    meta = tempfile.mkdtemp(prefix="tlc-")
    try:
        cmd = [
            "java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", f"{JAR}:{COMM}", "tlc2.TLC", "-metadir", meta,
            "-workers", str(workers), "-noGenerateSpecTE", "-config", config or module + ".cfg", *extra, module + ".tla",
        ]
        try:
            p = subprocess.run(
                cmd, cwd=SPEC, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                text=True, timeout=timeout,
            )
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired as ex:
            out = ex.stdout or b""
            return -1, (out.decode(errors="replace") if isinstance(out, bytes) else out) + "\nTIMEOUT"
    finally:
        shutil.rmtree(meta, ignore_errors=True)


V = re.compile(r'^"?V\|(\d+)\|(\d+)\|(.*?)"?$')


class TlcFailure(Exception):
    pass


def judge(sessions, scratch, workers=8, timeout=800, max_drops=12):
    """Judges recorded sessions with spec/Trace.tla.

    -> (verdicts {(sid, event number): set of clauses}, uninterpretable [(sid, message)],
        overflow [sid], states)
    """
    left = list(sessions)
    verdicts, bad, overflow, states = {}, [], [], 0
    for _ in range(max_drops + 1):
        if not left:
            break
        path = os.path.join(scratch, "trace.ndjson")
        with open(path, "w") as f:
            for s in left:
                f.write(json.dumps(s) + "\n")
        rc, out = run_tlc("Trace", env={"TRACE": path}, workers=workers, timeout=timeout)
        got = {}
        for line in out.splitlines():
            mt = V.match(line.strip())
            if mt:
                clauses = set(re.findall(r'\\?"(C\d\d[^"\\]*)\\?"', mt.group(3)))
                got[(left[int(mt.group(1)) - 1]["sid"], int(mt.group(2)))] = clauses
        if rc == 0:
            expected = sum(len(s["ev"]) for s in left)
            if len(got) != expected:
                raise TlcFailure(f"{len(got)} verdicts for {expected} events")
            verdicts.update(got)
            states += expected + len(left)
            return verdicts, bad, overflow, states
        # an evaluation error: which session was it?
        ts = re.findall(r"^/\\ t = (\d+)$", out, re.M)
        if not ts or rc == -1:
            raise TlcFailure(out[-3000:])
        i = int(ts[-1]) - 1
        sid = left[i]["sid"]
        if "verflow" in out:
            overflow.append(sid)
        else:
            msg = out[out.find("Error:"):][:1500]
            bad.append((sid, msg))
        verdicts.update({k: v for k, v in got.items() if k[0] != sid})
        left.pop(i)
    else:
        if not bad:
            raise TlcFailure("too many sessions with numbers that are too large")
    return verdicts, bad, overflow, states
