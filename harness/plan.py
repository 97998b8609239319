"""Which sessions a check runs."""
import diagrams
import histories
import sessions

QUICK = {  # number of sessions
    "C01": 640, "C02": 640, "C03": 560, "C04": 640, "C05": 640, "C06": 600, "C07": 1200, "C08": 640, "C09": 800, "C10": 2400,
    "C11": 1200, "C12": 2400, "C13": 2000, "C14": 200, "C15": 320, "C16": 120, "C17": 140, "C18": 200, "C19": 2400, "C20": 1200,
    "C21": 800,
}
HISTORIES = {"C01": 80, "C05": 160, "C06": 160, "C07": 160, "C08": 160}  # of these, drawn by TLC from spec/Hist.tla


def make(P, tier, seed, count, scratch):
    """-> {sid: script}, [(hash seed, scripts)]"""
    n = count or QUICK[P] * (10 if tier == "thorough" else 1)
    drawn = min(HISTORIES.get(P, 0), n // 2 + 1) * (10 if tier == "thorough" and not count else 1)
    scripts = [sessions.gen(P, seed, k + 1) for k in range(n)] + histories.make(P, seed, drawn, n + 1)
    scripts += diagrams.make(P, tier, seed, len(scripts) + 1, min(1, n / QUICK[P]))
    per = 8 if tier == "quick" else 40
    chunks = [(seed * 1000 + i, scripts[i::per]) for i in range(per)]
    return {s["sid"]: s for s in scripts}, chunks
