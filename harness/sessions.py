"""Session generators, one per property.  gen(P, seed, sid) -> script."""
import itertools
import math
import os
import random

from gen import *  # noqa: F401,F403
from gen import Gen, Model, dec_rel, graph_questions, q_eu, q_ev, q_query, rel, sample_ctx, sample_iv


def ask(i, qs):
    return dict(op="ask", i=i, qs=qs)


def agents_of(m):
    return sorted(set(m.dec.values()) | set(m.util.values()))


KINDS = ["cbn", "cid", "macid", "macidbase"]


# ------------------------------------------------------------------- editing the mirror
def apply(m, e):
    """the mirror after the event"""
    op = e["op"]
    if op == "set":
        m.set(e["v"], e["r"])
    elif op == "setm":
        for v, x in e["prs"]:
            m.set(v, x)
    elif op == "del":
        m.rel.pop(e["v"], None)
        m.tab.pop(e["v"], None)
    elif op == "addnode":
        m.N.add(e["v"])
    elif op == "addedge":
        m.N |= {e["u"], e["v"]}
        m.E.add((e["u"], e["v"]))
        m.reset(e["v"])
    elif op == "rmedge":
        m.E.discard((e["u"], e["v"]))
        m.reset(e["v"])
    elif op in ("mkchance", "mkdec", "mkutil"):
        if e["v"] in m.N:
            m.dec.pop(e["v"], None)
            m.util.pop(e["v"], None)
            if op == "mkdec":
                m.dec[e["v"]] = e["a"]
            if op == "mkutil":
                m.util[e["v"]] = e["a"]
    elif op == "impr":
        m.set(e["d"], rel("unif", vkw=True, dom=m.dom[e["d"]]))
    elif op == "impall":
        for d in m.dec:
            m.set(d, rel("unif", vkw=True, dom=m.dom[d]))
    elif op == "rmrules":
        for d in m.dec:
            m.set(d, dec_rel(m.dom[d]))
    elif op == "interv":
        for x, o in e["prs"]:
            D = m.dom[x] if o in m.dom[x] else sorted(m.dom[x] + [o])
            m.E = {q for q in m.E if q[1] != x}
            if D == sorted(D):
                m.set(x, rel("const", dss=[[[y, int(y == o), 1] for y in D]], vkw=True, dom=D))
            else:
                m.set(x, rel("tab", vkw=True, dom=D, pa=[], padom=[], cols=[[[int(y == o), 1] for y in D]]))
    return m


# other ways to make a call
WAYS = {"setm": ["many"], "del": ["item", "many", "cpd"], "addnode": ["many"], "rmnode": ["many"], "addedge": ["many"], "rmedge": ["many"]}


def caller(r, ev):
    """ways to write a specification, and what the caller does with the objects afterwards"""
    for e in ev:
        e.update({k: [[v, dict(x)] for v, x in e[k]] for k in ("rels", "prs") if k in e and e["op"] in ("build", "setm")})
        if e["op"] == "set":
            e["r"] = dict(e["r"])
        for x in [e["r"]] if e["op"] == "set" else [x for _, x in e.get("rels", [])]:
            if x["k"] in ("dec", "const", "tab", "obj") and r.random() < 0.15:
                x["scribble"] = True
            if x["k"] == "tab" and "share" not in x and r.random() < 0.5:
                x["names"] = r.choice(["own", "none"])
    return ev


class Session:
    """a script under construction"""

    def __init__(self, seed, sid):
        self.r = random.Random(seed)
        self.g = Gen(self.r, sid)
        self.ev = []
        self.models = {}
        self.n = 0

    def start(self, n, kind, budget=40_000_000, diag=None, codecs=True, numeric=False, order=None, ident=None, how=None, model=None, **kw):
        g, r = self.g, self.r
        m, nodes = model or g.diagram(n, kind, **dict(diag or {}))
        n = len(nodes)
        self.kind, self.n = kind, n
        # the names decide whether functions can name their arguments
        if codecs:
            g.pick_codecs(m, numeric=m.N if numeric else ())
        self.meta = g.meta(n, kind, ident)
        rels = g.parameterise(m, nodes, budget=budget, **kw)
        self.ev.append(g.build(m, nodes, kind, rels, how=how, order=order))
        self.models[1] = m
        return m

    def graph(self, n, kind, i=1, **diag):
        """a model without distributions"""
        m, nodes = self.g.diagram(n, kind, **diag)
        return self.graph_of(m, nodes, kind, n, i)

    def graph_of(self, m, nodes, kind, n, i=1):
        self.kind, self.n = kind, n
        self.meta = self.g.meta(n, kind)
        self.ev.append(self.g.build(m, nodes, kind, [], i=i))
        self.models[i] = m
        return m

    def do(self, e):
        if e["op"] in WAYS and self.r.random() < 0.4:
            e["way"] = self.r.choice(WAYS[e["op"]])
        self.ev.append(e)
        if e["op"] in ("copy", "copybare"):
            self.models[e["j"]] = self.models[e["i"]].clone()
            if e["op"] == "copybare":
                c = self.models[e["j"]]
                c.rel, c.dom, c.tab = {}, {}, {}
        elif e["op"] != "ask":
            apply(self.models[e["i"]], e)

    def ask(self, i, qs):
        if qs:
            self.ev.append(ask(i, qs))

    def script(self):
        return {"sid": self.g.sid, "meta": self.meta, "ev": caller(self.r, self.ev)}

    # ------------------------------------------------------------------------- random edits
    def edit_rel(self, m, v, den=None, det=0.4, kinds=None):
        g, r = self.g, self.r
        den = den or r.choice([2, 3, 4])
        if v in m.util:
            return g.util_rel(m, v)
        if v in m.dec:
            dom = list(range(2 if g.codecs.get(v) == "bool" else r.randint(2, 3)))
            r.shuffle(dom)
            return dec_rel(dom) if r.random() < 0.5 else g.rule_rel(m, v, dom, den)
        return g.chance_rel(m, v, den, det=det, kinds=kinds)


def size_ok(m, budget=20_000_000):
    """whether exact weights of the joint distribution stay small"""
    from fractions import Fraction
    tot = 1
    for v in m.N:
        den = 1
        for pv in m.pvs(v):
            for p in m.dist(v, pv).values():
                den = math.lcm(den, Fraction(p).limit_denominator(1000).denominator)
        tot *= den
    worlds = 1
    for v in m.N:
        worlds *= max(1, len(m.dom[v]))
    return tot <= budget and worlds <= 5000


# ------------------------------------------------------------------------------------ C01-C03
def gen_C01(s):
    r = s.r
    kind = r.choice(["cbn", "cbn", "cid", "macid", "macidbase"])
    ring = r.random() < 0.12
    n = r.choice([6, 7, 7, 8]) if ring else r.choice([2, 3, 4, 4, 5, 5, 6])
    m = s.start(n, kind, ruled=r.choice(["all", "all", "most"]), size=2 if ring else 3,
                diag=dict(maxp=3, density="ring" if ring else r.choice([0.25, 0.5, 0.75]), childless=not ring and r.random() < 0.7))
    for _ in range(r.choice([1, 1, 2, 3])):
        qs = [q_query(r, m, 3) for _ in range(r.randint(2, 5))]
        if r.random() < 0.15:  # an outcome that is not in the domain
            v = r.choice(sorted(m.N))
            D = m.dom[v]
            qs.append(dict(f="query", q=[r.choice(sorted(m.N))], c=[[v, max(D) + 3]], iv=[]))
        if r.random() < 0.4:
            qs.append(dict(qs[0]))  # once more
        s.ask(1, qs)
        x = r.random()
        if x < 0.3:
            iv = sample_iv(r, m, p=1)
            s.do(dict(op="interv", i=1, prs=iv))
        elif x < 0.45:
            fix_fun_edge(s, 1)
        elif x < 0.6 and m.dec:
            s.do(dict(op="impall", i=1))
        if not m.full():
            break
    return s.script()


def fix_fun_edge(s, i):
    """remove or add an edge and respecify its head straight away"""
    r, m = s.r, s.models[i]
    E = sorted(m.E)
    if E and r.random() < 0.5:
        u, v = r.choice(E)
        s.do(dict(op="rmedge", i=i, u=u, v=v))
    else:
        order = m.topo()
        a = r.randrange(len(order))
        cand = [x for x in order[:a] if (x, order[a]) not in m.E and order[a] not in m.desc(x) or True]
        cand = [x for x in cand if (x, order[a]) not in m.E and x not in m.desc(order[a]) and x not in m.util]
        if not cand or len(m.pa(order[a])) > 2:
            return
        u, v = r.choice(cand), order[a]
        s.do(dict(op="addedge", i=i, u=u, v=v))
    kinds = ["fun", "tab", "const"]
    if v in m.tab and m.tab[v] == frozenset(m.pa(v)) and m.rel[v]["k"] in ("const", "dec"):
        return
    keep_domain(s, i, v)


def rewire(s, i, maxp=4, count=(1, 3)):
    """edges come and go in a diagram whose nodes have not been specified"""
    r, m = s.r, s.models[i]
    for _ in range(r.randint(*count)):
        if m.E and r.random() < 0.5:
            u, v = r.choice(sorted(m.E))
            s.do(dict(op="rmedge", i=i, u=u, v=v))
            continue
        cand = [(u, v) for u in sorted(m.N) for v in sorted(m.N)
                if u != v and u not in m.util and (u, v) not in m.E and u not in m.desc(v) and len(m.pa(v)) < maxp]
        if cand:
            u, v = r.choice(cand)
            s.do(dict(op="addedge", i=i, u=u, v=v))


def retable(s, i, den=2):
    """some chance nodes and utilities are specified again, over the domains they have"""
    r, m = s.r, s.models[i]
    vs = [v for v in sorted(m.N) if v not in m.dec and v in m.dom and not (v in m.util and (m.ch(v) or m.rel[v]["k"] == "obj"))]
    if not vs:
        return
    for v in r.sample(vs, r.randint(1, min(3, len(vs)))):
        if v in m.util:
            new = s.g.util_rel(m, v)
        else:
            D = list(m.dom[v])
            padom = [list(m.dom[p]) for p in m.pa(v)]
            cols = [[[x, den] for x in s.g.split(den, len(D))] for _ in range(math.prod(map(len, padom)))]
            new = rel("tab", vkw=True, dom=D, pa=m.pa(v), padom=padom, cols=cols)
        s.do(dict(op="set", i=i, v=v, r=new))


def has_fixed_children(m, v):
    return any(c in m.rel and m.rel[c]["k"] in ("tab", "obj", "unif") for c in m.ch(v))


def keep_domain(s, i, v):
    """respecify v; children given as tables or objects still have to match"""
    r, m = s.r, s.models[i]
    D = m.dom.get(v)
    if v in m.dec:
        new = dec_rel(D)
        if r.random() < 0.5 and set(D) == set(range(len(D))):
            new = s.g.rule_rel(m, v, D, 4)
            if new["k"] == "const" and D != sorted(D) and fixed_anywhere_below(m, v):
                new = dec_rel(D)
    elif fixed_anywhere_below(m, v):
        padom = [list(m.dom[p]) for p in m.pa(v)]
        cols = [[[x, 4] for x in s.g.split(4, len(D))] for _ in range(math.prod(map(len, padom)))]
        new = rel("tab", vkw=True, dom=D, pa=m.pa(v), padom=padom, cols=cols)
    elif v in m.util:
        new = s.g.util_rel(m, v)
    else:
        new = s.g.chance_rel(m, v, r.choice([2, 4]), det=0.5)
    s.do(dict(op="set", i=i, v=v, r=new))


def gen_C02(s):
    r = s.r
    kind = r.choice(["cbn", "cid", "cid", "macid", "macid"])
    n = r.choice([3, 4, 4, 5, 5, 6])
    small = r.random() < 0.4
    m = s.start(n, kind, ruled="all", numeric=r.random() < 0.7, budget=10000 if small else 20_000_000, udet=0.6,
                diag=dict(maxp=3, nu=(1, 3), nd=(1, 2), agents=r.choice([2, 3])))
    qs = []
    cod = s.g.codecs
    num = [v for v in sorted(m.N) if cod.get(v, "int") in ("int", "half", "float")]
    for _ in range(r.randint(4, 8)):
        x = r.random()
        if x < 0.4 and num:
            qs.append(q_ev(r, m, cod))
        elif x < 0.8 and kind != "cbn":
            ag = agents_of(m)
            qs.append(q_eu(r, m, kind, ag))
        elif small and num:
            a = r.choice([v for v in sorted(m.N) if len(m.dom[v]) > 1 and m.ch(v) and r.random() < 0.95] or sorted(m.N))
            a0, a1 = r.sample(m.dom[a], 2) if len(m.dom[a]) > 1 and r.random() < 0.9 else (r.choice(m.dom[a]), r.choice(m.dom[a]))
            below = lambda vs: [v for v in vs if v in m.desc(a) and r.random() < 0.95] or vs  # noqa: E731
            if r.random() < 0.5:
                qs.append(dict(f="te", a=a, x=r.choice(below(num)), a0=a0, a1=a1))
            else:
                ints = [v for v in num if cod.get(v, "int") != "half"]
                if ints:
                    qs.append(dict(f="ite", a=a, d=r.choice(below(ints)), y=r.choice(below(ints)), a0=a0, a1=a1, adapt=r.random() < 0.7))
    s.ask(1, qs)
    if r.random() < 0.25:  # the same questions about other tables
        retable(s, 1)
        qs = [q for q in qs if in_domain(m, q)]
        if m.full() and size_ok(m) and qs:
            s.ask(1, qs)
    return s.script()


def in_domain(m, q):
    """the values a question names are values of its nodes"""
    named = [(v, x) for k in ("c", "iv") for v, x in q.get(k, [])] + [(q["a"], q[k]) for k in ("a0", "a1") if k in q]
    return all(x in m.dom[v] for v, x in named)


READ = ["query", "ev", "eu", "graph", "rel", "req", "inc", "pol", "export", "draw", "misc", "copyq"]


def drawn(r, m, kind):
    q = dict(f="draw", kind="cid" if kind == "cid" else "macid")
    if r.random() < 0.35:
        q["vs"] = r.sample(sorted(m.N), r.randint(0, len(m.N)))
        if r.random() < 0.5:
            q["color"] = r.choice(["green", "blue"])
    return q


def read_question(s, m, kind, cheap=False):
    """any read-only question, including ones that fail"""
    r = s.r
    N, cod = sorted(m.N), s.g.codecs
    D, U = sorted(m.dec), sorted(m.util)
    slow = {"qvoi", "qvoc", "solve", "ne", "spe", "subgame", "optpol"} if cheap else ()
    opts = ["query", "ev", "graph", "graph", "scm", "sample"]
    if kind != "cbn":
        opts += ["eu", "graph", "relgraph", "sccs", "sccmap", "sccdraw", "mech", "recall", "order", "draw", "rreach"]
        if D:
            opts += ["req", "reqlist", "reqgraph", "rules", "optpol"]
        if D and kind == "cid":
            opts += ["inc", "inc", "inclist", "qvoi", "qvoc", "solve"]
        if D and kind in ("macid", "cid"):
            opts += ["deff", "manip", "sig", "rev"]
        if D and kind == "macid":
            opts += ["subgames", "subgame", "patterns", "efg", "ne", "spe"]
    f = r.choice([x for x in opts if x not in slow])
    if f == "query":
        return q_query(r, m)
    if f == "ev":
        return q_ev(r, m, cod)
    if f == "eu":
        return q_eu(r, m, kind, agents_of(m))
    if f == "graph":
        return graph_questions(r, m, kind, 1)[0]
    if f == "sample":
        return dict(f="sample", seeds=[r.randrange(100)])
    if f == "relgraph":
        return dict(f=f, all=True, ds=[])
    if f == "mech":
        return mech(r, m)
    if f == "recall":
        return dict(f=f, a=r.choice([0] + agents_of(m)))
    if f == "order":
        return dict(f=f, all=False, vs=r.sample(N, r.randint(1, len(N))) + ([0] if r.random() < 0.1 else []))
    if f == "rreach":
        return dict(f=f, ds=r.sample(D, 1) if D else [], vs=r.sample(N, 1)) if D else dict(f="sccs")
    if f == "draw":
        return drawn(r, m, kind)
    if f == "req":
        return dict(f=f, d=r.choice(D), x=r.choice(N))
    if f in ("reqlist",):
        return dict(f=f, d=r.choice(D))
    if f == "rules":
        d = r.choice(D)
        return dict(f=f, d=d) if npol(m, [d]) <= 64 else dict(f="reqgraph")
    if f == "optpol":
        d = r.choice(D)
        return dict(f=f, ds=[d], single=True) if npol(m, [d]) <= 64 else dict(f="reqgraph")
    if f == "inc":
        return dict(f=r.choice(["voi", "ri", "voc", "dvoc", "ivoc", "ici"]), d=r.choice(D), x=r.choice(N + [0]))
    if f == "inclist":
        return dict(f=r.choice(["voilist", "rilist", "voclist", "dvoclist", "ivoclist", "icilist"]), d=r.choice(D))
    if f == "qvoi":
        d = r.choice(D)
        x = r.choice(N)
        if len(D) == 1 and npol(m, D) * len(m.dom[x]) <= 64 and len(m.pvs(d)) * len(m.dom[x]) <= 6:
            return dict(f=f, d=d, x=x, seed=r.randrange(50))
        return dict(f="voilist", d=d)
    if f == "qvoc":
        x = r.choice([v for v in N if v not in m.util] or N)
        if x not in m.util and len(D) == 1 and npol(m, D) <= 16 and (x in m.dec or len(m.dom[x]) ** len(m.pvs(x)) <= 32):
            return dict(f=f, x=x, seed=r.randrange(50)) if x not in m.dec else dict(f="voclist")
        return dict(f="voclist")
    if f == "solve":
        return dict(f=f, seed=r.randrange(50)) if npol(m, D) <= 64 else dict(f="recall", a=0)
    if f in ("deff", "manip", "sig", "rev"):
        return dict(f=f, d=r.choice(D), eff=r.sample(D, r.randint(0, len(D))))
    if f == "subgame":
        return dict(f=f, ds=r.sample(D, r.randint(1, len(D))))
    if f == "patterns" and any(m.ch(u) for u in U):
        return dict(f="sccs")
    if f == "efg":
        return dict(f="subgames")
    if f in ("ne", "spe"):
        if npol(m, D) <= 32 and game_ok(m):
            return dict(f="ne", all=True, ds=[], solver="enumpure") if f == "ne" else dict(f="spe", solver="enumpure")
        return dict(f="subgames")
    return dict(f=f)


def npol(m, ds):
    tot = 1
    for d in ds:
        k = 1
        for p in m.pa(d):
            k *= len(m.dom[p])
        tot *= len(m.dom[d]) ** k if k * len(m.dom[d]) < 60 else 10**9
    return tot


def game_ok(m):
    """every agent has decisions and utilities, with perfect recall"""
    ag = set(m.dec.values())
    if not ag or ag - set(m.util.values()):
        return False
    for d, e in itertools.combinations(m.dec, 2):
        if m.dec[d] == m.dec[e]:
            f, g = {d} | set(m.pa(d)), {e} | set(m.pa(e))
            if not (f <= set(m.pa(e)) or g <= set(m.pa(d))):
                return False
    return True


def gen_C03(s):
    r = s.r
    x, cheap = r.random(), s.g.sid > 240
    if not cheap and x < 0.2:
        return gen_C03_values(s)
    if not cheap and x < 0.4:
        return gen_C03_games(s)
    kind = r.choice(["cbn", "cid", "cid", "cid", "macid", "macid", "macidbase"])
    n = r.choice([2, 3, 4, 4, 5])
    m = s.start(n, kind, ruled=r.choice(["some", "none", "all"]), size=r.choice([2, 2, 3]), acts=(2, 2), budget=10**6,
                diag=dict(maxp=2, density=r.choice([0.2, 0.5])))
    if r.random() < 0.2 and m.full():
        s.do(dict(op="interv", i=1, prs=sample_iv(r, m, p=1, most=1)))
    first = read_question(s, m, kind, cheap)
    s.ask(1, [first])
    for _ in range(r.randint(4, 9)):
        s.ask(1, [read_question(s, m, kind, cheap)])
    s.ask(1, [json_copy(first)])
    return s.script()


def gen_C03_values(s):
    """value measures of a diagram whose decisions mostly have rules"""
    r = s.r
    for _ in range(50):
        s.ev, s.models, s.g.codecs = [], {}, {}
        m = s.start(r.choice([3, 4, 4]), "cid", ruled=r.choice(["all", "all", "none"]), size=2, acts=(2, 2), budget=10**5,
                    diag=dict(maxp=2, nd=(1, 1) if r.random() < 0.8 else (2, 2), density=r.choice([0.4, 0.7])))
        if m.dec and m.util and npol(m, m.dec) <= 16:
            break
    else:
        return None
    D, N = sorted(m.dec), sorted(m.N)
    first = read_question(s, m, "cid")
    s.ask(1, [first])
    for _ in range(r.randint(3, 6)):
        d, x = r.choice(D), r.choice(N)
        y = r.random()
        if y < 0.6:
            if m.pa(d) and r.random() < 0.5:
                x = r.choice(m.pa(d))
            w = m.clone()
            w.E.add((x, d))
            if x in m.desc(d) | {d} or npol(w, D) <= 64:
                s.ask(1, [dict(f="qvoi", d=d, x=x, seed=r.randrange(20))])
        elif y < 0.75 and x not in m.dec and x not in m.util:
            w = m.clone()
            w.dec[x] = 1
            if npol(w, D + [x]) <= 64:
                s.ask(1, [dict(f="qvoc", x=x, seed=r.randrange(20))])
        elif y < 0.9:
            s.ask(1, [dict(f="solve", seed=r.randrange(20))])
        else:
            s.ask(1, [dict(f="optpol", ds=[d], single=r.random() < 0.5)])
    s.ask(1, [json_copy(first)])
    return s.script()


def gen_C03_games(s):
    """equilibria, subgames and exports"""
    r = s.r
    m = game(s, most=64, ruled=r.choice(["none", "some"]), nd=(1, 3))
    if m is None:
        return None
    D = sorted(m.dec)
    first = read_question(s, m, "macid")
    s.ask(1, [first])
    for _ in range(r.randint(2, 5)):
        x = r.random()
        ds = r.sample(D, r.randint(1, len(D)))
        if x < 0.3:
            s.ask(1, [dict(f="subgame", ds=ds)])
        elif x < 0.5:
            s.ask(1, [dict(f="ne", all=True, ds=[], solver=r.choice(["", "enumpure"]))])
        elif x < 0.7:
            s.ask(1, [dict(f="ne", all=False, ds=ds, solver=r.choice(["", "enumpure"]))])
        elif x < 0.85:
            s.ask(1, [dict(f="spe", solver="enumpure")])
        else:
            s.ask(1, [dict(f="efg", all=False, ds=ds, ag=agents_of(m), file=r.random() < 0.5)])
    s.ask(1, [json_copy(first)])
    return s.script()


def json_copy(x):
    import json

    return json.loads(json.dumps(x))


# ------------------------------------------------------------------------------------ C04/C05
def bad_rel(s, m, v):
    """a specification that must be refused, or None"""
    r, g = s.r, s.g
    P = m.pa(v)
    x = r.choice(["args", "domain", "domain", "sum", "range", "neg"])
    others = [w for w in sorted(m.N) if w not in P and w != v]
    if x == "args":
        if not g.ident:
            return None
        args = list(P)
        if args and (r.random() < 0.5 or not others):
            args.pop(r.randrange(len(args)))
        elif others:
            args.append(r.choice(others))
        else:
            return None
        if set(args) == set(P):
            return None
        return rel("fun", args, [1] * len(args), 0, 2, [((0, 1, 1),)], sty="plain")
    if not m.ready(v):
        return None
    coef = [1] * len(P)
    if x == "domain":
        # outcomes outside the given domain, sometimes with probability 0
        a, b = r.choice([(1, 2), (2, 2), (0, 2)])[0], 2
        dss = [((0, 1, 2), (1, 1, 2)), ((2, a, b), (0, b - a, b))]
        if r.random() < 0.5:
            dss = [((0, a, b), (1, b - a, b))]
        out = rel("obj", P, coef, r.randrange(2), 3, dss, vkw=not g.ident, dom=r.choice([[0, 1], [0], [1, 2], [1], [2, 0]]))
        vals = {o for pv in m.pvs(v) for o, _, _ in m.pairs(out, pv)}
        return None if vals <= set(out["dom"]) else out
    if x == "sum":
        return rel("fun", P, coef, 0, 2, [((0, 1, 2), (1, r.choice([1, 2, 7]), 10 if r.random() < 0.5 else 5))][:1], vkw=not g.ident) if True else None
    if x == "range":
        return rel("fun", P, coef, 0, 2, [((0, 6, 5), (1, -1, 5))], vkw=not g.ident)
    if x == "neg":
        return rel("const", dss=[[[0, -1, 2], [1, 3, 2]]], vkw=True)
    return None


def gen_C04(s):
    r, g = s.r, s.g
    kind = r.choice(KINDS)
    n = r.choice([2, 3, 3, 4, 4, 5])
    m = s.start(n, kind, ruled=r.choice(["some", "all", "none"]), size=r.choice([2, 3, 4]), det=0.15, acts=(2, 4),
                diag=dict(maxp=r.choice([2, 3]), density=r.choice([0.5, 0.9]), childless=r.random() < 0.5), order=r.choice(["topo", "random"]))
    for _ in range(r.randint(2, 6)):
        v = r.choice(sorted(m.N))
        if r.random() < 0.35:
            b = bad_rel(s, m, v)
            if b:
                # whether it is wrong is up to the specification; afterwards v is repaired
                keep = m.clone()
                s.ev.append(dict(op="set", i=1, v=v, r=b))
                m.rel.pop(v, None)
                m.tab.pop(v, None)
                m.dom = keep.dom
        if fixed_anywhere_below(m, v):
            keep_domain(s, 1, v)
        else:
            s.do(dict(op="set", i=1, v=v, r=s.edit_rel(m, v)))
        if not m.full():
            break
    return s.script()


def gen_C05(s):
    """histories of partial specification, respecification and edge changes"""
    r, g = s.r, s.g
    kind = r.choice(KINDS)
    n = r.choice([2, 3, 4, 4, 5])
    m, nodes = g.diagram(n, kind, maxp=2, childless=r.random() < 0.5)
    s.kind, s.n = kind, n
    g.pick_codecs(m)
    s.meta = g.meta(n, kind)
    s.ev.append(g.build(m, nodes, kind, []))
    s.models[1] = m
    steps = r.randint(6, 14)
    todo = list(nodes)
    r.shuffle(todo)
    for k in range(steps + len(todo)):
        x = r.random()
        if todo and (x < 0.6 or k >= steps):
            v = todo.pop()
            if v in m.dom and fixed_anywhere_below(m, v):
                if not m.ready(v):
                    todo.insert(0, v)
                    continue
                keep_domain(s, 1, v)
            else:
                s.do(dict(op="set", i=1, v=v, r=hist_rel(s, m, v)))
            continue
        v = r.choice(nodes)
        if x < 0.2 and v in m.rel:
            if not fixed_anywhere_below(m, v):
                s.do(dict(op="set", i=1, v=v, r=hist_rel(s, m, v)))
        elif x < 0.35 and v in m.rel:
            s.do(dict(op="del", i=1, v=v))
            todo.insert(r.randrange(len(todo) + 1), v)
        elif x < 0.5:
            kk = len(s.ev)
            edge_event(s, 1, todo)
        elif x < 0.58:
            vs = [w for w in r.sample(nodes, min(2, len(nodes))) if not fixed_anywhere_below(m, w)]
            prs = []
            for w in vs:
                if fixed_anywhere_below(m, w):
                    continue
                rr = hist_rel(s, m, w)
                prs.append([w, rr])
                apply(m, dict(op="set", v=w, r=rr))
                if w in todo:
                    todo.remove(w)
            if prs:
                s.ev.append(dict(op="setm", i=1, prs=prs))
        elif x < 0.65 and m.full() and m.dec:
            s.do(dict(op=r.choice(["impall", "rmrules"]), i=1))
        elif x < 0.7 and m.full():
            s.ask(1, [q_query(r, m)])
    if m.full() and size_ok(m):
        s.ask(1, [q_query(r, m) for _ in range(2)])
    return s.script()


def fixed_anywhere_below(m, v):
    return any(c in m.rel and m.rel[c]["k"] in ("tab", "obj", "unif") for c in m.desc(v))


def hist_rel(s, m, v):
    r, g = s.r, s.g
    P = m.pa(v)
    if v in m.util:
        return g.util_rel(m, v)
    if v in m.dec:
        dom = list(range(2 if g.codecs.get(v) == "bool" else r.randint(2, 3)))
        r.shuffle(dom)
        if r.random() < 0.6 or (P and not g.ident) or (P and not m.ready(v)):
            return dec_rel(dom)
        return rel("fun", P, [1] * len(P), 0, len(dom), [((0, 1, 1),)], vkw=False)
    x = r.random()
    kinds = ["fun"] * 5 + ["const"] if P else ["const"]
    if x < 0.1 and m.ready(v) and all(p in m.tab for p in P):
        kinds = ["tab"]
    rr = g.chance_rel(m, v, r.choice([2, 3, 4]), det=0.35, kinds=kinds)
    if rr["k"] == "fun" and rr["mod"] == 0:
        rr["mod"] = 3
        rr["base"] %= 3
        if not g.completes(m, v, rr, m.ready(v)):
            rr["dss"] = [[[0, 1, 1]]]
    return safe_later(rr)


def safe_later(rr):
    """the parents' domains may still change: leave no probability mass open that could have
    nowhere to go"""
    if rr["k"] == "fun":
        for ds in rr["dss"]:
            if not (all(d for _, _, d in ds) and abs(sum(n / d for _, n, d in ds) - 1) < 1e-9):
                rr["dss"], rr["sty"] = [[[0, 1, 1]]], ""
                break
    return rr


def edge_event(s, i, todo):
    """add or remove an edge; the head is respecified straight away unless it is a constant"""
    r, m = s.r, s.models[i]
    order = m.topo()
    if m.E and r.random() < 0.5:
        u, v = r.choice(sorted(m.E))
        op = "rmedge"
    else:
        a = r.randrange(len(order))
        v = order[a]
        cand = [x for x in order if x != v and (x, v) not in m.E and x not in m.desc(v)]
        if not cand or len(m.pa(v)) > 2:
            return
        u = r.choice(cand)
        op = "addedge"
    if fixed_anywhere_below(m, v) or (v in m.rel and m.rel[v]["k"] in ("tab", "obj", "unif")):
        return
    if v in m.rel and m.rel[v]["k"] == "fun":
        # a function names its parents, so it has to be given again
        if r.random() < 0.5:
            s.do(dict(op="del", i=i, v=v))
            s.do(dict(op=op, i=i, u=u, v=v))
            if r.random() < 0.5:
                s.do(dict(op="set", i=i, v=v, r=hist_rel(s, m, v)))
            else:
                todo.append(v)
        else:
            s.do(dict(op=op, i=i, u=u, v=v))
            s.do(dict(op="set", i=i, v=v, r=hist_rel(s, m, v)))
    else:
        s.do(dict(op=op, i=i, u=u, v=v))


# ------------------------------------------------------------------------------------ C06-C09
def random_edit(s, i, kind):
    """some change to instance i"""
    r, m = s.r, s.models[i]
    x = r.random()
    N = sorted(m.N)
    if x < 0.2:
        s.do(dict(op="interv", i=i, prs=sample_iv(r, m, p=1)))
    elif x < 0.4 and kind != "cbn":
        role_event(s, i, kind)
    elif x < 0.55:
        fix_fun_edge(s, i)
    elif x < 0.75:
        v = r.choice(N)
        if fixed_anywhere_below(m, v):
            keep_domain(s, i, v)
        else:
            s.do(dict(op="set", i=i, v=v, r=safe_later(s.edit_rel(m, v, kinds=None if v in m.dec or v in m.util else (["fun", "const"] if m.pa(v) else ["const"])))))
    elif x < 0.85 and m.dec and all(d in m.dom for d in m.dec):
        s.do(dict(op=r.choice(["impall", "rmrules"]), i=i))
    elif x < 0.92 and m.dec:
        d = r.choice(sorted(m.dec))
        s.do(dict(op="impr", i=i, d=d))
    else:
        v = s.n + 1
        if v <= 9 and v not in m.N:
            pass
        s.ask(i, [graph_questions(r, m, kind, 1)[0]])


def role_event(s, i, kind):
    r, m = s.r, s.models[i]
    v = r.choice(sorted(m.N) + ([0] if r.random() < 0.15 else []))
    op = r.choice(["mkdec", "mkutil", "mkchance"])
    e = dict(op=op, i=i, v=v)
    if op != "mkchance":
        e["a"] = r.choice([1, 2, 3])
        if kind == "cid" and r.random() < 0.7:
            e["a"], e["default"] = 1, True
    s.do(e)


def numeric_ok(s, m):
    return all(s.g.codecs.get(u, "int") in ("int", "half", "float") for u in m.util)


def copyable(m):
    """every specification is in effect, or waits for a parent that has never been specified"""
    for v in m.N:
        x = m.rel.get(v)
        if x is None:
            if v in m.dom:
                return False
        elif v in m.tab:
            if m.tab[v] != frozenset(m.pa(v)):
                return False
        elif m.ready(v) or v in m.dom or x["k"] not in ("const", "fun", "dec") or not x["vkw"] and set(x["args"]) != set(m.pa(v)):
            return False
    return True


def gen_C06_partial(s):
    """copies of models that are only partly specified; both are completed afterwards"""
    r, g = s.r, s.g
    kind = r.choice(KINDS)
    n = r.choice([2, 3, 4, 4])
    m, nodes = g.diagram(n, kind, maxp=2, nd=(0, 2), nu=(0, 2), childless=r.random() < 0.5)
    s.kind, s.n = kind, n
    g.pick_codecs(m)
    s.meta = g.meta(n, kind)
    s.ev.append(g.build(m, nodes, kind, []))
    s.models[1] = m
    todo = list(nodes)
    r.shuffle(todo)
    first = {}
    for v in todo[: r.randint(1, n)]:
        first[v] = hist_rel(s, m, v)
        if first[v]["k"] == "tab":
            continue
        s.do(dict(op="set", i=1, v=v, r=first[v]))
    made = 1
    for _ in range(r.choice([1, 2])):
        i = r.choice(sorted(s.models))
        if copyable(s.models[i]):
            made += 1
            s.do(dict(op="copybare" if r.random() < 0.1 else "copy", i=i, j=made))
    for j in sorted(s.models, key=lambda x: r.random()):
        mj = s.models[j]
        left = [v for v in nodes if v not in mj.rel]
        r.shuffle(left)
        for v in left:
            if not fixed_anywhere_below(mj, v):
                s.do(dict(op="set", i=j, v=v, r=hist_rel(s, mj, v)))
        if kind != "cbn" and r.random() < 0.3:
            role_event(s, j, kind)
        if mj.full() and size_ok(mj, 10**6):
            s.ask(j, [q_query(r, mj)])
    return s.script()


def gen_C06_shared(s):
    """the same table objects given to two models, whose variables have other outcomes"""
    r, g = s.r, s.g
    kind = r.choice(KINDS)
    n = r.choice([2, 3, 3, 4])
    m, nodes = g.diagram(n, kind, maxp=2, nd=(0, 1), nu=(0, 1))
    s.kind, s.n = kind, n
    g.pick_codecs(m)
    s.meta = g.meta(n, kind)
    for i in (1, 2):
        s.models[i] = m.clone()
        s.ev.append(dict(g.build(m, nodes, kind, []), i=i))
    tabs = {}
    for i in (1, 2):
        mi = s.models[i]
        for v in mi.topo():
            pa = mi.pa(v)
            padom = [list(mi.dom[p]) for p in pa]
            if v in tabs:  # the object the first model was given
                x = dict(tabs[v], padom=padom)
            else:
                dom = r.sample(range(2 if g.codecs.get(v) in ("str", "pre", "bool") else 4), 2)
                cols = [[[a, 4], [4 - a, 4]] for a in [r.randint(0, 4) for _ in range(2 ** len(pa))]]
                x = rel("tab", vkw=True, dom=dom, pa=pa, padom=padom, cols=cols)
                if pa and r.random() < 0.8:
                    x.update(share=v, names="own")
                    tabs[v] = x
            s.do(dict(op="set", i=i, v=v, r=dict(x, how=r.choice(["kw", "obj", "item"]))))
    for j, mj in s.models.items():
        s.ask(j, [q_query(r, mj), q_query(r, mj)])
    for _ in range(r.randint(1, 3)):
        j = r.choice([1, 2])
        if s.models[j].full():
            random_edit(s, j, kind)
    for j, mj in s.models.items():
        if mj.full() and size_ok(mj, 10**7):
            s.ask(j, [q_query(r, mj), q_query(r, mj)])
    return s.script()


def gen_C06(s):
    r = s.r
    if r.random() < 0.25:
        return gen_C06_partial(s) if r.random() < 0.7 else gen_C06_shared(s)
    kind = r.choice(["cbn", "cid", "cid", "macid", "macid", "macidbase"])
    n = r.choice([2, 3, 4, 4])
    m = s.start(n, kind, ruled=r.choice(["some", "none", "all"]), size=r.choice([2, 3]), budget=10**5,
                diag=dict(maxp=2, density=r.choice([0.2, 0.5]), nu=(0, 2), nd=(0, 2), agents=3, relevant=False))
    made = 1
    for k in range(r.randint(2, 4)):
        i = r.choice(sorted(s.models))
        if not s.models[i].full():
            continue
        made += 1
        s.do(dict(op="copybare" if r.random() < 0.15 else "copy", i=i, j=made))
        for _ in range(r.randint(1, 4)):
            j = r.choice(sorted(s.models))
            mj = s.models[j]
            if not mj.full():
                if mj.rel:
                    continue
                v = r.choice(sorted(mj.N))
                if r.random() < 0.5 and kind != "cbn":
                    role_event(s, j, kind)
                else:
                    s.do(dict(op="set", i=j, v=v, r=hist_rel(s, mj, v)))
                continue
            random_edit(s, j, kind)
            if mj.full() and size_ok(mj, 10**7) and r.random() < 0.4:
                s.ask(j, [q_query(r, mj)])
    for j, mj in s.models.items():
        if mj.full() and size_ok(mj, 10**7):
            s.ask(j, [q_query(r, mj)])
    return s.script()


def gen_C07(s):
    r = s.r
    kind = r.choice(["cid", "macid", "macid", "macidbase"])
    n = r.choice([1, 2, 3, 4, 5])
    if n == 1:
        s.graph_of(Model([1]), [1], kind, 1)
    else:
        s.graph(n, kind, nd=(0, 2), nu=(0, 2), agents=3, relevant=False, childless=False, maxp=2)
    made = 1
    for _ in range(r.randint(4, 10)):
        i = r.choice(sorted(s.models))
        x = r.random()
        if x < 0.7:
            role_event(s, i, kind)
        elif x < 0.8 and made < 3:
            made += 1
            s.do(dict(op=r.choice(["copy", "copybare"]), i=i, j=made))
        elif x < 0.9:
            s.ask(i, [drawn(r, s.models[i], kind)])
        else:
            m = s.models[i]
            s.ask(i, [dict(f="order", all=True, vs=[])])
    for i in s.models:
        s.ask(i, [drawn(r, s.models[i], kind)])
    return s.script()


def gen_C08(s):
    r = s.r
    kind = r.choice(["cbn", "cbn", "cid", "macid", "macidbase"])
    n = r.choice([2, 3, 4, 4, 5])
    m = s.start(n, kind, ruled=r.choice(["all", "some"]), size=r.choice([2, 3]), budget=10**6,
                diag=dict(maxp=3, density=r.choice([0.4, 0.7]), childless=r.random() < 0.6))
    made = 1
    for _ in range(r.randint(2, 4)):
        i = r.choice(sorted(s.models))
        mi = s.models[i]
        if not mi.full():
            break
        if r.random() < 0.3 and made < 3:
            made += 1
            s.do(dict(op="copy", i=i, j=made))
            i = made
            mi = s.models[i]
        s.do(dict(op="interv", i=i, prs=sample_iv(r, mi, p=1, most=3)))
        if r.random() < 0.35:
            random_edit(s, i, kind)
        if mi.full() and size_ok(mi):
            s.ask(i, [q_query(r, mi) for _ in range(r.randint(1, 3))])
    return s.script()


def gen_C09(s):
    r = s.r
    kind = r.choice(["cid", "macid", "macid", "macidbase"])
    n = r.choice([2, 3, 4, 5, 5, 6])
    m = s.start(n, kind, ruled=r.choice(["none", "some", "some", "most"]), size=2, acts=(2, 2), budget=10**6,
                diag=dict(maxp=3, nd=(1, 3), nu=(0, 2), density=r.choice([0.3, 0.5, 0.7]), childless=r.random() < 0.5, relevant=False))
    cod = s.g.codecs
    for k in range(r.choice([1, 2])):
        qs = []
        for _ in range(r.randint(4, 8)):
            x = r.random()
            if x < 0.75:
                qs.append(q_query(r, m))
            elif x < 0.9:
                qs.append(q_ev(r, m, cod))
            else:
                qs.append(q_eu(r, m, kind, agents_of(m)))
        s.ask(1, qs)
        if k == 0:
            un = sorted(m.unruled())
            if un and r.random() < 0.6:
                s.do(dict(op="impr", i=1, d=r.choice(un)))
            elif r.random() < 0.5:
                s.do(dict(op="interv", i=1, prs=sample_iv(r, m, p=1, most=1)))
            else:
                s.do(dict(op="rmrules", i=1))
    return s.script()


# ------------------------------------------------------------------------------------ C10-C13, C19
def gen_C10(s):
    r = s.r
    kind = r.choice(["cbn", "cid", "macid", "macid", "macidbase"])
    n = r.choice([2, 3, 4, 5, 5, 6, 6, 7, 8])
    m = s.graph(n, kind, nd=(0, 3), nu=(0, 2), maxp=4, density=r.choice([0.2, 0.3, 0.5, 0.7] if n < 7 else [0.2, 0.3, 0.4, "ring"]), childless=r.random() < 0.3, relevant=False)
    qs = graph_questions(r, m, kind, r.randint(10, 24))
    s.ask(1, qs)
    if n < 8 and r.random() < 0.3:  # the same questions about another graph
        rewire(s, 1)
        if kind != "cbn" and r.random() < 0.3:
            role_event(s, 1, kind)
        qs = [q for q in qs if "p" not in q or is_path(m, q["p"])]
        s.ask(1, qs + graph_questions(r, m, kind, 4))
    return s.script()


def is_path(m, p):
    return all((a, b) in m.E or (b, a) in m.E for a, b in zip(p, p[1:]))


def mech(r, m):
    N = sorted(m.N)
    return dict(f="mech", s=r.choice(N), z=r.sample(N, r.randint(0, min(3, len(N)))))


def rel_questions(s, m, kind):
    r = s.r
    N, D = sorted(m.N), sorted(m.dec)
    qs = [dict(f="relgraph", all=True, ds=[]), dict(f="sccs"), dict(f="sccorder"), dict(f="recall", a=0), dict(f="order", all=True, vs=[])]
    qs += [dict(f="sccmap"), dict(f="sccdraw")]
    qs += [mech(r, m) for _ in range(2)]
    if kind == "macid":
        qs.append(dict(f="subgames"))
    qs += [dict(f="recall", a=a) for a in agents_of(m) + ([9] if r.random() < 0.2 else [])]
    for d in D:
        for v in N:
            if r.random() < 0.7:
                qs.append(dict(f="rreach", ds=[d], vs=[v], sreach=r.random() < 0.5))
    if len(D) > 1:
        qs.append(dict(f="relgraph", all=False, ds=r.sample(D, r.randint(1, len(D)))))
        qs.append(dict(f="rreach", ds=r.sample(D, 2), vs=r.sample(N, min(2, len(N)))))
    qs.append(dict(f="order", all=False, vs=r.sample(N, r.randint(1, len(N)))))
    if r.random() < 0.1:
        qs.append(dict(f="order", all=False, vs=r.sample(N, 1) + [0]))
    return qs


def gen_C11(s):
    r = s.r
    kind = r.choice(["cid", "macid", "macid", "macid", "macidbase"])
    n = r.choice([2, 3, 4, 5, 6, 6, 7, 8])
    m = s.graph(n, kind, nd=(1, 4), nu=(1, 3), agents=r.choice([1, 2, 3]), maxp=4, density=r.choice([0.3, 0.5, 0.7]), childless=r.random() < 0.5)
    s.ask(1, rel_questions(s, m, kind))
    if r.random() < 0.4:
        if r.random() < 0.5:
            rewire(s, 1)
        else:
            role_event(s, 1, kind)
        if m.dec:
            s.ask(1, rel_questions(s, m, kind))
    return s.script()


def gen_C12(s):
    r = s.r
    kind = r.choice(["cid", "cid", "macid", "macid", "macidbase"])
    n = r.choice([3, 4, 5, 6, 6, 7, 8])
    m = s.graph(n, kind, nd=(1, 4), nu=(1, 3), agents=r.choice([1, 2]), maxp=4, density=r.choice([0.4, 0.6, 0.8]), childless=r.random() < 0.6)
    D, N = sorted(m.dec), sorted(m.N)
    qs = [dict(f="reqgraph")]
    for d in D:
        qs.append(dict(f="reqlist", d=d))
        qs += [dict(f="req", d=d, x=x) for x in N if x in m.pa(d) or r.random() < 0.1]
    s.ask(1, qs)
    if r.random() < 0.25:
        rewire(s, 1)
        s.ask(1, qs)
    return s.script()


def inc_questions(s, m):
    r = s.r
    D, N = sorted(m.dec), sorted(m.N)
    qs = []
    for d in D:
        qs += [dict(f=f, d=d) for f in ("voilist", "rilist", "ivoclist", "icilist") if r.random() < 0.8]
    qs += [dict(f="voclist"), dict(f="dvoclist")]
    for _ in range(8):
        f = r.choice(["voi", "ri", "voc", "dvoc", "ivoc", "ici"])
        q = dict(f=f, x=r.choice(N + ([0] if r.random() < 0.2 else [])))
        if f not in ("voc", "dvoc"):
            q["d"] = r.choice(D + ([0] if r.random() < 0.05 else []))
        qs.append(q)
    return qs


def gen_C13(s):
    r = s.r
    n = r.choice([2, 3, 4, 5, 5, 6, 6, 7, 8])
    few = r.random() < 0.4
    if r.random() < 0.3:
        md = woven(r, r.choice(INCENTIVES), dict(D=1), dict(U=1), r.choice([4, 5, 6, 6, 7, 8]))
        m = s.graph_of(md, sorted(md.N), "cid", len(md.N))
    else:
        m = s.graph(n, "cid", nd=(1, 1) if few else (1, 3), nu=(1, 1) if few else (1, 3), maxp=4, density=r.choice([0.3, 0.4, 0.5, 0.7]),
                    childless=r.random() < 0.6)
    if not m.dec:
        return None
    qs = inc_questions(s, m)
    s.ask(1, qs)
    x = r.random()
    if x < 0.2:
        rewire(s, 1)
        s.ask(1, qs)
    elif x < 0.35:  # roles and edges change, perhaps to several agents
        named = {1}  # pycid goes on counting an agent whose nodes have all been given to others
        for _ in range(r.choice([1, 2])):
            role_event(s, 1, "cid")
            named |= set(m.dec.values()) | set(m.util.values())
        if m.dec and named == set(m.dec.values()) | set(m.util.values()):
            s.ask(1, inc_questions(s, m))
    return s.script()


def woven(r, core, dec, util, n):
    """a random diagram of at most n nodes containing the given edges between labels, some of them
    stretched into paths; dec and util give agents to labels"""
    labels = list(dict.fromkeys(x for e in core for x in e))
    ids = list(range(1, n + 1))
    r.shuffle(ids)
    at = dict(zip(labels, ids))
    free = ids[len(labels):]
    r.shuffle(free)
    E, new = set(), []
    for a, b in core:
        if free and r.random() < 0.25:
            c = free.pop()
            new.append(c)
            E |= {(at[a], c), (c, at[b])}
        else:
            E.add((at[a], at[b]))
    new += [free.pop() for _ in range(r.randint(0, len(free)))]
    dec, util = {at[x]: a for x, a in dec.items()}, {at[x]: a for x, a in util.items()}
    m = Model(list(at.values()) + new, E, dec, util)
    for v in new:
        x = r.random()
        if x < 0.15 and m.ch(v):
            m.dec[v] = r.choice(sorted(dec.values()))
        elif x < 0.3 and not m.ch(v):
            m.util[v] = r.choice(sorted(set(dec.values()) | set(util.values())))
    for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
        a, b = r.sample(sorted(m.N), 2)
        if a not in m.desc(b) and a not in m.util:
            m.E.add((a, b))
    if r.random() < 0.12:
        m.E.discard(r.choice(sorted(m.E)))
    # names 1..k
    to = dict(zip(sorted(m.N, key=lambda v: r.random()), range(1, n + 1)))
    return Model(to.values(), {(to[a], to[b]) for a, b in m.E}, {to[v]: a for v, a in m.dec.items()}, {to[v]: a for v, a in m.util.items()})


# what makes an intervention on C (not D) worthwhile although D reacts to it
INCENTIVES = [
    ["CX", "CU", "XD", "DU"],  # D observes a consequence of C and reacts to it
    ["CX", "CU", "XD", "DY", "YU"],
    ["CD", "CU", "DU"],
    ["DX", "XU", "DU"],
    ["DX", "XU", "CX", "CD"],
    ["CX", "XD", "SX", "SU", "DU", "CU"],
    ["CU", "XC", "XD", "DU"],
]

# reasoning patterns of decision D of agent 1
PATTERNS = {
    "manip": (["DE", "EU", "DV"], dict(D=1, E=2), dict(U=1, V=2)),
    "manip2": (["DE", "EU", "DV", "EV"], dict(D=1, E=2), dict(U=1, V=2)),
    "sig": (["CD", "CV", "DE", "EU", "EV", "CU"], dict(D=1, E=2), dict(U=1, V=2)),
    "rev": (["DX", "CX", "CV", "XE", "EU", "EV"], dict(D=1, E=2), dict(U=1, V=2)),
    "rev2": (["DX", "CX", "CV", "XE", "EU", "EV", "CE", "CD"], dict(D=1, E=2), dict(U=1, V=2)),
    "sigchance": (["CD", "CX", "XV", "DE", "EU", "EV", "CY", "YU"], dict(D=1, E=2), dict(U=1, V=2)),
    "sigvia": (["CD", "CV", "DE", "EF", "FU", "EV", "FV", "CU"], dict(D=1, E=2, F=2), dict(U=1, V=2)),
    "sigdec": (["CD", "CG", "GV", "DE", "EU", "EV", "CU", "GU"], dict(D=1, E=2, G=2), dict(U=1, V=2)),
    "revdec": (["DX", "CX", "CG", "GV", "XE", "EU", "EV"], dict(D=1, E=2, G=2), dict(U=1, V=2)),
    "revlate": (["DX", "CX", "CV", "XY", "YE", "EU", "EV", "CU"], dict(D=1, E=2), dict(U=1, V=2)),
    "manipdec": (["DE", "EF", "FU", "DG", "GV", "FV"], dict(D=1, E=2, F=2, G=1), dict(U=1, V=2)),
    "chain": (["CD", "CV", "DE", "EF", "EV", "FU", "FW", "CW"], dict(D=1, E=2, F=3), dict(U=1, V=2, W=3)),
    "sig3": (["CD", "CW", "DE", "EF", "FU", "FW", "CU", "CV", "EV"], dict(D=1, E=2, F=3), dict(U=1, V=2, W=3)),
    # decisions that are only worthwhile if the next one is, which it is not
    "fade3": (["AB", "BC", "AV", "BU", "BW", "CV"], dict(A=1, B=2, C=3), dict(U=1, V=2, W=3)),
    "fade4": (["AB", "BC", "CD", "AV", "BU", "BW", "CV", "CT", "DW"], dict(A=1, B=2, C=3, D=1), dict(U=1, V=2, W=3, T=1)),
}


def strategic(s, n):
    """a chain of decisions that observe each other, and utilities that depend on some of them"""
    r = s.r
    k = r.choice([2, 2, 3]) if n > 4 else 2
    nodes = list(range(1, n + 1))
    r.shuffle(nodes)
    us, rest = nodes[:k], nodes[k:]
    ds = rest[: r.randint(2, min(4, len(rest)))]
    cs = rest[len(ds):]
    E = set()
    for a, b in zip(ds, ds[1:]):
        if r.random() < 0.75:
            E.add((a, b))
    for c in cs:
        i = r.randrange(len(ds) + 1)
        for d in ds[i:]:
            if r.random() < 0.5:
                E.add((c, d))
        for d in ds[:i]:
            if r.random() < 0.3:
                E.add((d, c))
        for u in us:
            if r.random() < 0.5:
                E.add((c, u))
    for u in us:
        for d in ds:
            if r.random() < 0.4:
                E.add((d, u))
    agent = {u: i + 1 for i, u in enumerate(us)}
    dec = {d: r.randint(1, k) for d in ds}
    return Model(nodes, E, dec, agent)


def gen_C19(s):
    r = s.r
    n = r.choice([4, 5, 6, 6, 7, 7, 8])
    x = r.random()
    if x < 0.5:
        core, dec, util = r.choice(list(PATTERNS.values()))
        swap = r.sample([1, 2, 3], 3)
        md = woven(r, core, {d: swap[a - 1] for d, a in dec.items()}, {u: swap[a - 1] for u, a in util.items()}, r.randint(len(set("".join(core))), 9))
        m = s.graph_of(md, sorted(md.N), "macid", len(md.N))
    elif x < 0.62:  # mostly decisions
        m = s.graph(n, "macid", nd=(3, 5), nu=(2, 3), agents=r.choice([2, 3]), maxp=3, density=r.choice([0.3, 0.4, 0.5]), childless=True)
    elif x < 0.8:
        m = s.graph_of(strategic(s, n), list(range(1, n + 1)), "macid", n)
    else:
        m = s.graph(n, "macid", nd=(2, 4), nu=(2, 3), agents=r.choice([2, 2, 3]), maxp=3, density=r.choice([0.3, 0.4, 0.5]), childless=True)
    D = sorted(m.dec)
    qs = [dict(f="patterns")]
    for d in D:
        for f in ("deff", "manip", "sig", "rev"):
            x = r.random()
            eff = D if x < 0.5 else [e for e in D if e != r.choice(D)] if x < 0.8 else r.sample(D, r.randint(0, len(D)))
            qs.append(dict(f=f, d=d, eff=eff))
    if r.random() < 0.05:
        qs.append(dict(f="manip", d=D[0], eff=[0]))
    s.ask(1, qs)
    if r.random() < 0.2:
        rewire(s, 1, 3)
        s.ask(1, qs)
    return s.script()


# ------------------------------------------------------------------------------------ C14/C15
def small_cid(s, n=None, acts=(2, 2), nd=(1, 2), nu=(1, 2), ruled="none", big=False, maxp=2, **kw):
    """big: utilities that differ by little compared with their size"""
    r = s.r
    n = n or r.choice([3, 4, 4, 5])
    return s.start(n, "cid", ruled=ruled, size=r.choice([2, 2, 3]), acts=acts, budget=200 if big else 100_000,
                   ubase=r.choice([1000, 100_000, -50_000]) if big else 0,
                   diag=dict(maxp=maxp, nd=nd, nu=nu, density=r.choice([0.4, 0.6]), **kw))


def informed(s, nd=1, nc=2):
    """a decision problem in which information matters: states of the world, perhaps signals of them,
    decisions that see some of it, perhaps consequences, and a utility of all these"""
    r = s.r
    k = nd + nc + r.randint(1, 2)
    nodes = list(range(1, k + 1))
    r.shuffle(nodes)
    cs, ds, us = nodes[:nc], nodes[nc:nc + nd], nodes[nc + nd:]
    E, pa = set(), lambda v: sum(1 for e in E if e[1] == v)
    for i, c in enumerate(cs[1:], 1):
        if r.random() < 0.6:
            E.add((r.choice(cs[:i]), c))
    used = [r.choice(cs)] + ([r.choice(cs)] if r.random() < 0.3 else [])
    for i, d in enumerate(ds):
        for c in cs:
            if r.random() < 0.35 and pa(d) < 2:
                E.add((c, d))
        if i and r.random() < 0.3:
            E.add((ds[i - 1], d))
    x = used[0]
    if len(us) > 1 and r.random() < 0.5:  # a consequence instead of a second utility
        y = us.pop()
        cs.append(y)
        E.add((r.choice(ds), y))
        if r.random() < 0.5:
            E.add((x, y))
        used.append(y)
    for u in us:
        via = {a for a, b in E if b in used}  # acts through a consequence
        for d in ds:
            if u == us[0] and d not in via or r.random() < 0.3:
                E.add((d, u))
        for c in set(used):
            if u == us[0] or r.random() < 0.5:
                E.add((c, u))
    nodes.sort(key=lambda v: (cs + ds + us).index(v))
    m = Model(nodes, E, {d: 1 for d in ds}, {u: 1 for u in us})
    return s.start(len(nodes), "cid", model=(m, m.topo()), ruled=r.choice(["none", "none", "all"]), size=r.choice([2, 2, 3]), acts=(2, 3),
                   det=0.15, singles=0, match=True, budget=100_000)


def sequence(s, nd=None, x=0.3):
    """decisions that follow and observe each other; what is best now depends on what will be done later"""
    r = s.r
    nd = nd or r.choice([2, 2, 2, 3])
    lab = [f"D{i}" for i in range(nd)]
    E, used = set(), {}
    for i in range(nd - 1):
        if r.random() < 0.25 and "C" not in used:  # sees a consequence of it, too
            used["C"] = 1
            E |= {(lab[i], "C"), ("C", lab[i + 1])}
        E.add((lab[i], lab[i + 1]))
        E |= {(lab[i], "U"), (lab[i + 1], "U")} if i == 0 or r.random() < 0.3 else {(lab[i], "V"), (lab[i + 1], "V")}
        if i and r.random() < 0.5:
            E.add((lab[i - 1], lab[i + 1]))
    if r.random() < x + 0.3:  # a state of the world
        E.add(("X", r.choice(["U"] + [b for _, b in E if b[0] in "UV"])))
        if r.random() < 0.5:
            E.add(("X", r.choice(lab)))
    if r.random() < 0.3:
        E.add((r.choice(lab), "W"))
    names = sorted({v for e in E for v in e})
    k = len(names)
    at = dict(zip(names, r.sample(range(1, k + 1), k)))
    for i in range(12):
        s.ev, s.models, s.g.codecs = [], {}, {}
        m = Model(sorted(at.values()), {(at[a], at[b]) for a, b in E}, {at[v]: 1 for v in lab}, {at[v]: 1 for v in names if v[0] in "UVW"})
        m = s.start(k, "cid", model=(m, m.topo()), ruled=r.choice(["none", "none", "all"]), size=2, acts=(2, 2) if nd > 2 or k > 4 else (2, 3),
                    det=0.15, singles=0, match=True, budget=100_000)
        if i == 11 or foresight(m, 64):
            return m


def foresight(m, limit):
    """whether choosing the rules one after the other, first things first, misses the best policy"""
    order = m.topo()
    ds = [v for v in order if v in m.dec]
    if npol(m, ds) > limit * 4:
        return False

    def value(rules):
        def go(i, w, p):
            if i == len(order):
                return p * sum(w[u] for u in m.util)
            v = order[i]
            pv = {a: w[a] for a in m.pa(v)}
            if v not in m.dec:
                D = {o: x for o, x in m.dist(v, pv).items() if x}
            elif v in rules:
                D = {rules[v][tuple(sorted(pv.items()))]: 1}
            else:
                D = {o: 1 / len(m.dom[v]) for o in m.dom[v]}
            return sum(go(i + 1, {**w, v: o}, p * x) for o, x in D.items())
        return go(0, {}, 1)

    def settle(ds):
        rules = {}
        for d in ds:
            ctx = [tuple(sorted(pv.items())) for pv in m.pvs(d)]
            rules[d] = {c: m.dom[d][0] for c in ctx}
            for c in ctx:
                rules[d][c] = max(m.dom[d], key=lambda o: value({**rules, d: {**rules[d], c: o}}))
        return value(rules)

    return settle(ds) < settle(ds[::-1]) - 1e-6


def gen_C14(s):
    r = s.r
    info = r.random() < 0.65
    for _ in range(50):
        s.ev, s.models, s.g.codecs = [], {}, {}
        m = sequence(s, 2, 0.7) if r.random() < 0.15 else informed(s, r.choice([1, 1, 1, 2]), r.choice([1, 2, 2, 3])) if info else small_cid(s, nd=(1, 1) if r.random() < 0.75 else (1, 2), ruled=r.choice(["none", "none", "all"]), big=r.random() < 0.15)
        if m.dec and m.util and npol(m, m.dec) <= 64:
            break
    D = sorted(m.dec)
    qs = []
    for x in r.sample(sorted(m.N), len(m.N)):
        d = r.choice(D)
        if x in m.desc(d) | {d}:
            if r.random() < 0.15:
                qs.append(dict(f="qvoi", d=d, x=x, seed=1))
        else:
            w = m.clone()
            w.E.add((x, d))
            if npol(w, D) <= 300:
                qs.append(dict(f="qvoi", d=d, x=x, seed=r.randrange(20)))
        if x not in m.dec and x not in m.util:
            w = m.clone()
            w.dec[x] = 1
            if npol(w, D + [x]) <= 300:
                qs.append(dict(f="qvoc", x=x, seed=r.randrange(20)))
    if r.random() < 0.1:
        qs.append(dict(f="qvoi", d=D[0], x=0, seed=1))
        qs.append(dict(f="qvoc", x=0, seed=1))
    s.ask(1, qs)
    if r.random() < 0.15:
        retable(s, 1)
        s.ask(1, qs)
    return s.script()


def gen_C15_rules(s):
    """decisions with several observations, of different sizes"""
    r = s.r
    for _ in range(300):
        s.ev, s.models, s.g.codecs = [], {}, {}
        kind = r.choice(["cid", "macid"])
        m = s.start(r.choice([4, 5, 5, 6]), kind, ruled=r.choice(["none", "all"]), size=3, acts=(1, 3), budget=1000, singles=0.25,
                    diag=dict(maxp=3, nd=(1, 1), nu=(1, 1), agents=1, density=r.choice([0.6, 0.8])))
        if m.dec and len(m.pa(min(m.dec))) >= 2 and len({len(m.dom[p]) for p in m.pa(min(m.dec))}) > 1 and npol(m, m.dec) <= 81:
            break
    else:
        return None
    d = min(m.dec)
    qs = [dict(f="rules", d=d)]
    if m.util and r.random() < 0.5:
        qs.append(dict(f="optpol", ds=[d], single=True))
    s.ask(1, qs)
    return s.script()


def gen_C15(s):
    r = s.r
    if r.random() < 0.12:
        return gen_C15_rules(s)
    for _ in range(80):
        s.ev, s.models, s.g.codecs = [], {}, {}
        x = r.random()
        if x < 0.3:
            kind = "cid"
            m = sequence(s)
        elif x < 0.45:
            kind = "cid"
            m = informed(s, r.choice([1, 2, 2, 3]), r.choice([1, 1, 2]))
        elif x < 0.65:
            kind = "cid"
            m = small_cid(s, nd=r.choice([(1, 2), (1, 2), (2, 3)]), nu=(1, 3), n=r.choice([3, 4, 4, 5, 6]), acts=(2, 3), big=r.random() < 0.15,
                          ruled=r.choice(["none", "none", "none", "all"]))
        else:
            kind = r.choice(["macid", "macid", "macidbase"])
            m = s.start(r.choice([3, 4, 5]), kind, ruled=r.choice(["some", "all", "none"]), size=2, acts=(2, 2), budget=100_000,
                        diag=dict(maxp=2, nd=(1, 3), nu=(1, 3), density=r.choice([0.4, 0.6])))
        if m.dec and npol(m, m.dec) <= 128:
            break
    D = sorted(m.dec)
    qs = [dict(f="rules", d=d) for d in D if npol(m, [d]) <= 64]
    if kind == "macid" and r.random() < 0.9:
        ds = r.sample(D, r.randint(min(2, len(D)), len(D)))
        if npol(m, ds) <= 64:
            qs.append(dict(f="joint", ds=ds, k=r.randrange(64)))
    ds = r.sample(D, r.randint(min(2, len(D)), len(D)))
    if npol(m, ds) <= 64:
        qs.append(dict(f="policies", ds=ds))
    by = {}
    for d in D:
        by.setdefault(m.dec[d], []).append(d)
    for d in D:
        if npol(m, [d]) <= 64 and m.dec[d] in m.util.values() and (r.random() < 0.4 or not others_matter(m, d)):
            qs.append(dict(f="optpol", ds=[d], single=r.random() < 0.7))
    for a, ds in by.items():
        if a in m.util.values():
            qs.append(dict(f="optpol", ds=ds, all=kind == "cid" and r.random() < 0.7))
    if r.random() < 0.1:
        qs.append(dict(f="optpol", ds=[]))
    if len(by) > 1 and r.random() < 0.5:
        qs.append(dict(f="optpol", ds=[v[0] for v in by.values()]))
    if kind == "cid":
        qs.append(dict(f="solve", seed=r.randrange(20)))
    s.ask(1, qs)
    x = r.random()
    if kind == "cid" and x < 0.35:
        if separate(m, m.util):
            return s.script()  # refused; nothing is promised about the model afterwards
        s.do(dict(op="imppol", i=1, seed=r.randrange(20)))
        s.ask(1, [dict(f="eu", a=1, c=[], iv=[])])
    elif x < 0.7:
        if r.random() < 0.6:  # fix the rules of all decisions but one
            d0 = r.choice(D)
            for d in D:
                if d != d0 and d in m.unruled() and set(m.dom[d]) == set(range(len(m.dom[d]))):
                    s.do(dict(op="set", i=1, v=d, r=keep_dom(s.g, m, d)))
        cand = [d for d in D if has_util(m, d) and not others_matter(m, d) and not separate(m, own_below(m, d))]
        if cand:
            s.do(dict(op="impopt", i=1, d=r.choice(cand)))
            if r.random() < 0.5:
                s.do(dict(op="rmrules", i=1))
            elif r.random() < 0.5:
                s.do(dict(op="copy", i=1, j=2))
    elif x < 0.9:
        num = [v for v in sorted(m.N) if s.g.codecs.get(v, "int") in ("int", "half", "float")]
        cand = [(d, y) for d in D for y in num if y != d and y not in m.desc(d) and not others_matter(m, d) and s.g.codecs.get(y) == s.g.codecs.get(d, "int")]
        cand = [(d, y) for d, y in cand if d not in m.unruled() or True]
        if cand:
            d, y = r.choice(cand)
            s.ev.append(dict(op="impcond", i=1, d=d, y=y))
    return s.script()


def keep_dom(g, m, d):
    for _ in range(20):
        x = g.rule_rel(m, d, m.dom[d], 2)
        if x["k"] in ("obj", "unif", "tab") or m.dom[d] == sorted(m.dom[d]) and x["k"] == "const":
            return x
    return rel("unif", vkw=True, dom=m.dom[d])


def own_below(m, d):
    return {u for u in m.desc(d) & set(m.util) if m.util[u] == m.dec[d]}


def has_util(m, d):
    return bool(own_below(m, d))


def separate(m, vs):
    return any(w not in m.component(v) for v in vs for w in vs)


def others_matter(m, d):
    """other decisions without rules"""
    return bool(m.unruled() - {d})


# ------------------------------------------------------------------------------------ C16-C18
def game_diagram(r, agents, ndec, nchance, nutil, childless=True):
    """decisions and chance nodes in some order, utilities mostly at the end; decisions of one
    agent remember what it knew and did before"""
    n = ndec + nchance + nutil
    ids = list(range(1, n + 1))
    r.shuffle(ids)
    D, C, U = ids[:ndec], ids[ndec:ndec + nchance], ids[ndec + nchance:]
    order = D + C
    r.shuffle(order)
    for u in U:
        order.insert(len(order) if childless or r.random() < 0.6 else r.randint(1, len(order)), u)
    dec = {d: 1 + (i % agents if r.random() < 0.9 else r.randrange(agents)) for i, d in enumerate(sorted(D, key=order.index))}
    util = {u: 1 + (i % agents if r.random() < 0.9 else r.randrange(agents)) for i, u in enumerate(U)}
    E = set()
    dens = r.choice([0.3, 0.5, 0.7])
    pos = {v: i for i, v in enumerate(order)}
    own = {}
    for v in order:
        before = [x for x in order[: pos[v]] if not (childless and x in util)]
        known = set()
        if v in dec:
            for e in own.get(dec[v], []):
                known |= {e} | {x for x, y in E if y == e}
            own.setdefault(dec[v], []).append(v)
        cand = [x for x in before if r.random() < (dens if v not in util else max(dens, 0.5))]
        r.shuffle(cand)
        if v in util and r.random() < 0.8:  # the owner's decisions usually matter
            mine = [d for d in dec if dec[d] == util[v] and pos[d] < pos[v]]
            if mine:
                cand.insert(0, r.choice(mine))
        cap = 3 if v in util else 2
        for x in list(dict.fromkeys(cand))[: max(0, cap - len(known))]:
            known.add(x)
        E |= {(x, v) for x in known}
    return Model(ids, E, dec, util), order


def with_signal(r, md):
    """a decision without effect reads a signal about something a utility depends on"""
    m, order = md
    ds = [d for d in sorted(m.dec) if len(m.pa(d)) < 2 and not any(c in m.dec for c in m.ch(d))]
    if not ds:
        return md
    d, u = r.choice(ds), r.choice(sorted(m.util))
    h, sg = max(m.N) + 1, max(m.N) + 2
    E = {(x, y) for x, y in m.E if x != d} | {(h, sg), (sg, d), (h, u)}
    return Model(sorted(m.N) + [h, sg], E, m.dec, m.util), [h, sg] + order


def game(s, agents=None, ruled="none", most=256, acts=(2, 2), nd=(1, 3), udet=0.9, ties=None, nc=(0, 3), size=2, most_ctx=16, signal=0.0):
    """ties: utilities with few values, so that there are many equilibria"""
    r = s.r
    ties = r.random() < 0.5 if ties is None else ties
    k = agents or r.choice([1, 2, 2, 2, 2, 3])
    nd, nc = max(r.randint(*nd), k if r.random() < 0.8 else 1), r.randint(*nc)
    childless = r.random() < 0.8
    for _ in range(300):
        s.ev, s.models, s.g.codecs = [], {}, {}
        md = game_diagram(r, k, nd, nc, k + (r.random() < 0.25), childless)
        if signal and r.random() < signal:
            md = with_signal(r, md)
        m = s.start(0, "macid", ruled=ruled, size=size, acts=acts, budget=20_000, udet=udet, det=0.3,
                    order="topo" if r.random() < 0.5 else "random", ties=ties, model=md)
        if npol(m, m.dec) <= most and game_ok(m) and leaves(m, m.dec) <= 80 and math.prod(max(1, len(m.pvs(d))) for d in m.dec) <= most_ctx:
            return m
    return None


def gen_C16(s):
    r = s.r
    m = game(s, most=128)
    if m is None:
        return None
    nag = len(set(m.dec.values()))
    solvers = ["", "enumpure", "enumpure"]
    if nag == 2:
        solvers += ["enummixed", "lcp"]
    if nag != 2:
        solvers += ["", r.choice(["enummixed", "lcp", "lp"])]
    if nag >= 2:
        solvers += ["simpdiv"]
    if r.random() < 0.05:
        solvers = ["nosuch", "enumpure"]
    qs = [dict(f="ne", all=True, ds=[], solver=sv) for sv in dict.fromkeys(r.sample(solvers, 2))]
    s.ask(1, qs)
    if r.random() < 0.15:
        retable(s, 1)
        s.ask(1, qs[:1])
    if len(m.dec) > 1 and r.random() < 0.6:
        # fix one decision's rule and ask for equilibria of the others
        d = r.choice(sorted(m.dec))
        dom = list(m.dom[d])
        if set(dom) == set(range(len(dom))):
            x = s.g.rule_rel(m, d, dom, 4)
            if x["k"] not in ("obj", "unif", "tab") and dom != sorted(dom) and fixed_anywhere_below(m, d):
                x = keep_dom(s.g, m, d)
            s.do(dict(op="set", i=1, v=d, r=x))
            rest = [x for x in sorted(m.dec) if x != d]
            s.ask(1, [dict(f="ne", all=False, ds=rest, solver=r.choice(["enumpure", ""]))])
    return s.script()


def gen_C17(s):
    r = s.r
    m = game(s, most=64, nd=(1, 4))
    if m is None:
        return None
    D = sorted(m.dec)
    qs = [dict(f="spe", solver="enumpure" if r.random() < 0.7 else "")]
    for _ in range(2):
        qs.append(dict(f="subgame", ds=r.sample(D, r.randint(1, len(D)))))
    qs.append(dict(f="subgames"))
    s.ask(1, qs)
    if r.random() < 0.15:
        retable(s, 1)
        s.ask(1, qs)
    return s.script()


def gen_C18(s):
    r = s.r
    for _ in range(100):
        m = game(s, most=4096, ruled=r.choice(["none", "none", "some"]), nd=(1, 3), udet=0.6, acts=(2, 3), size=r.choice([2, 2, 3]), most_ctx=64, signal=0.2)
        if m is None:
            return None
        D = sorted(m.dec)
        # the chance moves are recognised by their action labels
        if distinct_labels(s, m) and leaves(m, D) <= 80:
            break
    else:
        return None
    ag = agents_of(m)
    x = r.random()
    if x < 0.4:
        q = dict(f="efg", all=True, ds=[], ag=ag)
    elif x < 0.6:
        q = dict(f="efg", all=True, ds=[], ag=ag, file=True)
    else:
        ds = r.sample(D, r.randint(1, len(D)))
        q = dict(f="efg", all=False, ds=ds, ag=r.sample(ag, r.randint(1, len(ag))))
        q["ag"] = sorted(set(q["ag"]) | {m.dec[d] for d in ds})
    s.ask(1, [q])
    if r.random() < 0.2:
        retable(s, 1)
        s.ask(1, [q])
    return s.script()


def leaves(m, ds):
    """size of the game tree"""
    return math.prod(len(m.dom[v]) for v in set(ds) | {p for d in ds for p in m.pa(d)})


def distinct_labels(s, m):
    seen = set()
    for v in m.N:
        if not m.ch(v):
            continue
        lab = (s.g.codecs.get(v, "int"), tuple(m.dom[v]))
        lab = tuple(str(__import__("driver_codecs").encode(lab[0], o)) for o in lab[1])
        if lab in seen:
            return False
        seen.add(lab)
    return True


# ------------------------------------------------------------------------------------ C20/C21
def gen_C20(s):
    r = s.r
    s.meta = {"names": {}, "unknown": "zz", "agents": {}, "codecs": {}, "uscale": 1}
    dens = [(0, 1), (1, 5), (1, 4), (2, 5), (1, 2), (3, 4), (1, 1)]
    for _ in range(r.randint(3, 5)):
        x = r.random()
        dn, dd = r.choice(dens)
        if x < 0.35:
            n = r.randint(1, 9)
            s.ev.append(dict(op="rdag", n=n, dn=dn, dd=dd, k=r.choice([1, 2, 3, 4, 4, 6]), seed=r.randrange(10**6)))
        elif x < 0.9:
            kind = r.choice(["cid", "macid", "macid", "macidbase"])
            n = r.randint(4, 10)
            na = 1 if kind == "cid" else r.randint(1, 3)
            nd = [r.randint(1 if r.random() < 0.9 else 0, 2) for _ in range(na)]
            nu = [r.randint(1, 2) for _ in range(na)]
            tries, expect = 5000, ""
            recall = r.random() < 0.5
            k = r.choice([3, 4, 4, 6])
            while sum(nd) + sum(nu) > n - 1:
                n += 1
            dn, dd = r.choice(dens[:4])
            if recall and r.random() < 0.4:  # recall and the in-degree compete
                nd = [2] + nd[1:]
                k, n, (dn, dd) = r.choice([2, 2, 3]), max(n, sum(nd) + sum(nu) + 1), r.choice(dens[:3])
            if r.random() < 0.1:
                if kind != "cid" and r.random() < 0.5:
                    nu = nu + [1]  # lengths do not match
                    expect = "ValueError"
                else:
                    nu = [n] * len(nu)  # more utilities than nodes
                    tries, expect = 20, "ValueError"
            s.ev.append(dict(op="rdiagram", kind=kind, n=n, nd=nd, nu=nu, recall=recall, cpds=r.random() < 0.35 and k < 6 and n <= 8,
                             k=k, dn=dn, dd=dd, tries=tries, seed=r.randrange(10**6), expect=expect))
        else:
            kind = r.choice(["cid", "macid"])
            rd, ru = [1, 2], [1, 2]
            # random.randint includes the upper end, range does not
            rdq, ruq = (rd, ru) if kind == "cid" else ([1, 3], [1, 3])
            s.ev.append(dict(op="rlist", kind=kind, rn=[8, 10] if kind == "cid" else [12, 15], rd=rd, ru=ru, rdq=rdq, ruq=ruq, recall=r.random() < 0.7,
                             cpds=False, dn=1, dd=4, count=r.randint(1, 3), seed=r.randrange(10**6)))
    return s.script()


def gen_C21_scm(s):
    """models that are deterministic up to (perhaps) one small probability"""
    r, g = s.r, s.g
    for _ in range(50):
        s.ev, s.models, s.g.codecs = [], {}, {}
        m, nodes = g.diagram(r.choice([2, 3, 4]), "cbn", maxp=2, density=r.choice([0.5, 0.8]))
        if m.E:
            break
    odd = r.choice([v for v in sorted(m.N) if m.pa(v)]) if r.random() < 0.8 else 0
    s.kind, s.n = "cbn", len(nodes)
    g.pick_codecs(m)
    s.meta = g.meta(s.n, "cbn")
    rels = []
    for v in m.topo():
        P = m.pa(v)
        den = r.choice([50, 100, 200, 1000, 10000])
        if not P:
            x = rel("const", dss=[[[0, 1, 2], [1, 1, 2]]], vkw=True)
        else:
            a = r.choice([0, 0, 1, 2]) if v == odd else 0
            pairs = [[0, den - a, den], [1, a, den]]
            dss = [pairs] if r.random() < 0.5 else [[[0, 1, 1]], pairs]
            x = rel("fun", P, [1] * len(P), r.randrange(2), 2, dss, vkw=not g.ident)
        m.set(v, x)
        rels.append([v, x])
    s.ev.append(g.build(m, nodes, "cbn", rels))
    s.models[1] = m
    s.ask(1, [dict(f="scm")])
    return s.script()


def gen_C21(s):
    r = s.r
    if r.random() < 0.5:
        s.meta = {"names": {}, "unknown": "zz", "agents": {}, "codecs": {}, "uscale": 1}
        for _ in range(3):
            objs = []
            base_seed = r.choice([0, 1, 7, 12345])
            doms = [[], [0, 1], [0, 1, 2], [3, 1], [5, 6, 7, 8], [2]]
            for _ in range(r.randint(2, 4)):
                objs.append([r.choice(doms), r.choice([-1, base_seed, base_seed, r.randrange(1000)]), r.choice([0, 0, 50, 100, 150] if r.random() < 0.85 else [-100])])
            if len(objs) > 1 and r.random() < 0.7:
                objs[1] = list(objs[0])
                objs[1][1] = objs[0][1] = r.choice([0, base_seed])
            ctxs = [[]]
            for _ in range(4):
                k = r.randint(1, 3)
                ctxs.append([[n, r.choice([0, 1, 2, "a", "b", True])] for n in r.sample(["X", "Y", "Z", "pa"], k)])
            keys = []
            for c in ctxs:
                key = sorted((n, str(type(v)), v) for n, v in c)
                keys.append(str(key))
            plan = []
            for _ in range(r.randint(6, 14)):
                j = r.randrange(len(ctxs))
                plan.append([r.randint(1, len(objs)), keys.index(keys[j]) + 1, ctxs[j], r.choice([0, 0, 1, 3])])
            s.ev.append(dict(op="rcpd", objs=objs, plan=plan, seed=r.randrange(10**6)))
        return s.script()
    kind = r.choice(KINDS)
    n = r.choice([1, 2, 3, 4])
    if n == 1:
        n = 2
    if r.random() < 0.3:
        return gen_C21_scm(s)
    rare = r.random() < 0.3
    m = s.start(n, kind, ruled="all", size=2, acts=(2, 2), budget=200_000 if rare else 2000, det=0.7 if rare else 0.5,
                dens=(100, 200, 1000) if rare else (2, 4), rare=rare, diag=dict(maxp=2, density=r.choice([0.3, 0.6])))
    qs = [dict(f="scm")]
    if r.random() < 0.3:
        qs.append(dict(f="sample", seeds=[1000 * s.g.sid % 100000 + x for x in range(150)] ))
    else:
        x = r.randrange(10**6)
        qs.append(dict(f="sample", seeds=[x, x + 1, x, x + 2, x + 1]))
    s.ask(1, qs)
    return s.script()


def gen(P, seed, sid):
    for k in range(20):
        s = Session(f"{P}-{seed}-{sid}-{k}", sid)
        try:
            res = globals()["gen_" + P](s)
        except (ValueError, IndexError, KeyError, AssertionError):
            if os.environ.get("GEN_DEBUG"):
                raise
            continue  # a dead end of the generator: next one
        if res is not None:
            return res
    raise RuntimeError("no session for " + P)
