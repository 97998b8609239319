"""Generates session scripts (see driver.py) for a property.  Everything here only chooses
inputs; what the right outcome is, is decided by the TLA+ specification alone.

The class Model mirrors the structure and the domains of the models a script builds, so that
the generator can choose meaningful contexts, interventions and respecifications.
"""
import itertools
import math
import random

BUDGET = 40_000_000  # bound on (common denominator) * (sum of utilities); TLC integers are 32 bit


# ------------------------------------------------------------------------------------- mirror
class Model:
    def __init__(self, n=(), e=(), dec=None, util=None):
        self.N, self.E = set(n), set(map(tuple, e))
        self.dec, self.util = dict(dec or {}), dict(util or {})
        self.rel, self.dom, self.tab = {}, {}, {}  # tab: node -> parents at instantiation

    def clone(self):
        c = Model(self.N, self.E, self.dec, self.util)
        c.rel, c.dom, c.tab = dict(self.rel), {k: list(v) for k, v in self.dom.items()}, dict(self.tab)
        return c

    def pa(self, v):
        return sorted(a for a, b in self.E if b == v)

    def ch(self, v):
        return sorted(b for a, b in self.E if a == v)

    def desc(self, v):
        res, todo = set(), [v]
        while todo:
            for c in self.ch(todo.pop()):
                if c not in res:
                    res.add(c)
                    todo.append(c)
        return res

    def component(self, v):
        res, todo = {v}, [v]
        while todo:
            x = todo.pop()
            for y in self.pa(x) + self.ch(x):
                if y not in res:
                    res.add(y)
                    todo.append(y)
        return res

    def topo(self):
        res, left = [], set(self.N)
        while left:
            v = min(v for v in left if not set(self.pa(v)) & left)
            res.append(v)
            left.remove(v)
        return res

    def pvs(self, v):
        P = self.pa(v)
        return [dict(zip(P, x)) for x in itertools.product(*[self.dom[p] for p in P])]

    def ready(self, v):
        return all(p in self.dom for p in self.pa(v))

    @staticmethod
    def lin(r, pv):
        return sum(c * pv[a] for a, c in zip(r["args"], r["coef"]))

    def pairs(self, r, pv):
        if not r["dss"]:
            return []
        lin = self.lin(r, pv)
        ds = r["dss"][lin % len(r["dss"])]
        w = (lambda x: x % r["mod"]) if r["mod"] else (lambda x: x)
        return [(w(r["base"] + lin + k), n, d) for k, n, d in ds]

    def domain(self, v, r):
        if r["k"] == "tab" or r["dom"]:
            return list(r["dom"])
        return sorted({o for pv in self.pvs(v) for o, _, _ in self.pairs(r, pv)})

    def dist(self, v, pv):
        """distribution of v (settled, valid) as {outcome: (numerator, denominator)} pairs"""
        r, D = self.rel[v], self.dom[v]
        if r["k"] == "tab":
            i = 0
            for p, d in zip(r["pa"], r["padom"]):
                i = i * len(d) + d.index(pv[p])
            return dict(zip(D, (n / d for n, d in r["cols"][i])))
        given = {o: n / d for o, n, d in self.pairs(r, pv) if d}
        miss = [o for o in D if o not in given]
        mass = 1 - sum(given.values())
        return {o: given.get(o, mass / len(miss) if miss else 0) for o in D}

    def set(self, v, r):
        self.rel[v] = r
        self.tab.pop(v, None)
        if not self.ready(v) and r["k"] != "tab":
            return
        if r["k"] != "tab" and not r["vkw"] and set(r["args"]) != set(self.pa(v)):
            return
        old = self.dom.get(v)
        self.dom[v] = self.domain(v, r)
        self.tab[v] = frozenset(self.pa(v))
        if old != self.dom[v]:
            for c in self.ch(v):
                if c in self.rel and self.rel[c]["k"] in ("const", "fun", "dec"):
                    self.set(c, self.rel[c])
                    if c in self.tab and not self.proper(c):
                        raise ValueError("the change makes another specification invalid")

    def proper(self, v):
        """whether the distributions of v are distributions"""
        if self.rel[v]["k"] == "dec":
            return True
        for pv in self.pvs(v):
            d = self.dist(v, pv)
            if any(p < 0 or p > 1 for p in d.values()) or abs(sum(d.values()) - 1) > 1e-6:
                return False
        return True

    def reset(self, v):
        if v in self.tab and self.rel[v]["k"] in ("const", "dec"):
            self.set(v, self.rel[v])

    def full(self):
        return all(v in self.tab and self.tab[v] == frozenset(self.pa(v)) for v in self.N)

    def unruled(self):
        return {d for d in self.dec if d not in self.rel or self.rel[d]["k"] == "dec"}

    def world(self, rng, iv=None):
        """a possible assignment of all nodes"""
        f = {}
        for v in self.topo():
            if iv and v in iv:
                f[v] = iv[v]
                continue
            d = self.dist(v, f)
            os = [o for o, p in d.items() if p > 1e-12]
            f[v] = rng.choice(os)
        return f

    def chance(self):
        return [v for v in sorted(self.N) if v not in self.dec and v not in self.util]


def rel(k, args=(), coef=(), base=0, mod=0, dss=(), vkw=False, dom=(), **kw):
    return dict(
        k=k, args=list(args), coef=list(coef), base=base, mod=mod,
        dss=[[list(x) for x in d] for d in dss], vkw=vkw, dom=list(dom), **kw,
    )


POINT = ((0, 1, 1),)


def dec_rel(dom):
    return rel("dec", vkw=True, dom=dom)


# -------------------------------------------------------------------------------- ingredients
IDENT = [
    ["X", "Y", "Z", "D", "E", "U", "V", "W", "A", "B"],
    ["X1", "X", "X11", "Ymec", "D", "Zmec", "D1", "U", "U1", "S"],
    ["b", "a", "ab", "B", "A", "aB", "mec", "c_", "_d", "e9"],
    ["D1", "D2", "D10", "U1", "U2", "U10", "T1", "T2", "R", "Q"],
]
FREE = [
    ["D^0_0", "D^0_1", "U^0_0", "U^1_0", "X_0", "X_1", "X_2", "D^1_0", "U^1_1", "X_3"],
    ["a b", "a", "b", "a-b", "1", "2", "10", "x.y", "x,y", "lambda"],
    ["X Y", " ", "if", "do", "%", "D", "U", "X|Y", "X", "Y"],
]
AGENTS = [[0, 1, 2], [1, 0, 2], ["A", "B", "C"], ["p1", "p", "p11"], ["Alice", 7, "x y"], ["employer", "worker", "z"]]


class Gen:
    def __init__(self, rng, sid):
        self.r = rng
        self.sid = sid
        self.ident = True
        self.match = False
        self.codecs = {}
        self.uscale = 1
        self.ubase, self.ties, self.singles, self.rare = 0, False, 0.1, False

    # ----------------------------------------------------------------------------- structure
    def names(self, n, ident=None):
        r = self.r
        self.ident = r.random() < 0.75 if ident is None else ident
        pool = list(r.choice(IDENT if self.ident else FREE))
        r.shuffle(pool)
        return {v: pool[v - 1] for v in range(1, n + 1)}

    def meta(self, n, kind, ident=None, codec="any"):
        r = self.r
        ag = [0, *r.choice([[1, 2], ["a", "b"], [7, "zero"]])] if kind == "cid" else list(r.choice(AGENTS))
        return {
            "names": self.names(n, ident), "unknown": "zz", "uscale": self.uscale,
            "agents": {i + 1: a for i, a in enumerate(ag)}, "codecs": {str(k): v for k, v in self.codecs.items()},
        }

    def dag(self, n, maxp=3, density=None, nodes=None):
        r = self.r
        nodes = list(nodes or range(1, n + 1))
        r.shuffle(nodes)
        if density == "ring":
            return nodes, self.ring(nodes)
        density = r.choice([0.3, 0.5, 0.7]) if density is None else density
        E = []
        for j in range(1, n):
            cand = [nodes[i] for i in range(j) if r.random() < density]
            r.shuffle(cand)
            E += [(p, nodes[j]) for p in cand[:maxp]]
        r.shuffle(E)
        return nodes, E

    def ring(self, nodes):
        """mostly one long undirected cycle, which the moral graph does not shorten much"""
        r, n = self.r, len(nodes)
        k = r.randint(1, n - 2)
        E = []
        for path in (nodes[:k] + nodes[-1:], nodes[:1] + nodes[k:]):
            E += list(zip(path, path[1:]))
        for _ in range(r.choice([0, 0, 1])):
            i, j = sorted(r.sample(range(n), 2))
            E.append((nodes[i], nodes[j]))
        E = sorted(set(E))
        r.shuffle(E)
        return E

    def diagram(self, n, kind, nd=(1, 2), nu=(1, 2), agents=2, maxp=3, density=None, childless=True, relevant=True):
        """a random diagram; utilities mostly late in the order"""
        r = self.r
        nodes, E = self.dag(n, maxp, density)
        if kind == "cbn":
            return Model(nodes, E), nodes
        k_u, k_d = min(r.randint(*nu), n - 1), r.randint(*nd)
        m = Model(nodes, E)
        us = nodes[n - k_u:] if r.random() < 0.8 else r.sample(nodes, k_u)
        rest = [v for v in nodes if v not in us]
        if childless:
            E = [e for e in E if e[0] not in us]
            m = Model(nodes, E)
        ds = r.sample(rest, min(k_d, len(rest)))
        na = 1 if kind == "cid" else agents
        ulist, dlist = list(us), list(ds)
        r.shuffle(ulist)
        r.shuffle(dlist)
        util = {u: 1 + (i % na if r.random() < 0.85 else r.randrange(na)) for i, u in enumerate(ulist)}
        dec = {d: 1 + (i % na if r.random() < 0.85 else r.randrange(na)) for i, d in enumerate(dlist)}
        if relevant:
            indeg = lambda v: sum(1 for e in E if e[1] == v)  # noqa: E731
            pos = {v: i for i, v in enumerate(nodes)}
            for d, a in dec.items():
                own = [u for u in us if util[u] == a and pos[u] > pos[d]]
                if own and not any(u in m.desc(d) for u in own) and r.random() < 0.9:
                    u = r.choice(own)
                    if indeg(u) < maxp + 1:
                        E.append((d, u))
                        m = Model(nodes, E)
        return Model(nodes, E, dec, util), nodes

    # ------------------------------------------------------------------------ distributions
    def split(self, den, k):
        """k nonnegative integers with sum den"""
        if self.match and den >= k and self.r.random() < 0.85:  # nothing is certain
            cuts = sorted(self.r.sample(range(1, den), k - 1)) if k > 1 else []
            return [b - a for a, b in zip([0] + cuts, cuts + [den])]
        r = self.r
        if self.rare and k > 1 and den > 10 and r.random() < 0.8:
            x = [0] * k
            i, j = r.sample(range(k), 2)
            x[j] = r.randint(1, 2)
            x[i] = den - x[j]
            return x
        if r.random() < 0.15:
            x = [0] * k
            x[r.randrange(k)] = den
            return x
        cuts = sorted(r.randint(0, den) for _ in range(k - 1))
        return [b - a for a, b in zip([0] + cuts, cuts + [den])]

    def dists(self, den, mod, count, size):
        """`count` distributions over at most `size` deltas, possibly incomplete"""
        r = self.r
        res = []
        for _ in range(count):
            k = r.randint(min(size, 2) if self.match else 1, size)
            deltas = r.sample(range(mod or size + 1), min(k, mod or size + 1))
            parts = self.split(den, len(deltas))
            res.append([[x, p, den] for x, p in zip(deltas, parts)])
        return res

    def chance_rel(self, m, v, den, size=3, vkw=None, det=0.25, kinds=None, named=None, cap=4):
        """a specification for chance node v in the current state of the mirror"""
        r = self.r
        P = m.pa(v)
        codec = self.codecs.get(v, "int")
        size = 2 if codec == "bool" else size
        ready = m.ready(v)
        kinds = kinds or (["const"] * 4 + ["tab", "obj"] if not P else ["fun"] * 6 + ["const", "tab", "tab", "obj", "obj"])
        kinds = [k for k in kinds if ready or k in ("fun", "const")]
        k = r.choice(kinds)
        if P and k == "tab" and len(m.pvs(v)) > 24:
            k = "fun"
        if k == "tab":
            card = r.randint(2, size)
            dom = r.sample(range(size if codec in ("str", "pre", "bool") else size + 2), card)
            if r.random() < 0.4:
                dom.sort()
            pa = list(P)
            r.shuffle(pa)
            padom = [list(m.dom[p]) for p in pa]
            cols = [[[x, den] for x in self.split(den, card)] for _ in range(math.prod(map(len, padom)))]
            return rel("tab", vkw=True, dom=dom, pa=pa, padom=padom, cols=cols, how=r.choice(["kw", "obj", "item"]))
        if k == "const":
            card = 1 if r.random() < self.singles else r.randint(1 if r.random() < 0.1 else 2, size)
            base = r.choice([0, 0, 0, 1, -1]) if codec in ("int", "half", "float") else 0
            outs = sorted(r.sample(range(size + (0 if codec in ("str", "pre", "bool") else 1)), card))
            parts = self.split(den, card)
            pairs = [[o, p, den] for o, p in zip(outs, parts)]
            sty = ""
            if r.random() < 0.25 and card > 1:  # probability left open
                i = r.randrange(card)
                pairs[i] = [pairs[i][0], 0, 0]
            elif outs == [0, 1] and base == 0 and codec in ("int", "float") and r.random() < 0.4:
                sty = "bern"
            elif r.random() < 0.15:
                pairs, sty = [[o, 1, card] for o in outs], "unif"
            r.shuffle(pairs)
            if sty == "bern":
                pairs.sort()
            return rel("const", base=base, dss=[pairs], vkw=True, sty=sty, how=r.choice(["kw", "item"]))
        # functions
        mod = r.randint(2, size)
        if codec in ("int", "half", "float") and r.random() < 0.15 and ready and P:
            mod = 0
        coef = [r.choice([1, 1, 2, -1, 3]) for _ in P]
        args = list(P)
        r.shuffle(args)
        base = r.randrange(mod) if mod else r.choice([0, -1, 1])
        det_ = r.random() < det or den == 1
        if det_:
            dss, sty = [POINT], r.choice(["plain", ""])
        else:
            sty = ""
            dss = self.dists(den, mod, r.choice([1, 1, 2, 3]), mod or 2)
            if r.random() < 0.35 and mod:  # incomplete: one probability given, the others open or missing
                p, q = (9, 10) if r.random() < 0.2 else (r.randint(0, den), den)  # 9/10: the default of noisy_copy
                dss = [[[0, p, q]] + ([[x, 0, 0] for x in range(1, mod)] if r.random() < 0.6 else [])]
                if len(dss[0]) == 1 and mod and r.random() < 0.5:
                    sty = ""
                else:
                    sty = "noisy"
        use_vkw = (not self.ident or r.random() < 0.1) if vkw is None else vkw
        out = rel("fun", args, coef, base, mod, dss, vkw=use_vkw, sty=sty, how=r.choice(["kw", "item"]))
        if k == "obj":
            vals = {o for pv in m.pvs(v) for o, _, _ in m.pairs(out, pv)}
            extra = [o for o in range(size) if o not in vals]
            dom = list(vals) + r.sample(extra, r.randint(0, len(extra)))
            r.shuffle(dom)
            out.update(k="obj", dom=dom if r.random() < 0.75 else [], how=r.choice(["kw", "obj", "item"]))
            if not out["dom"]:
                out["dom"] = []
        if not self.completes(m, v, out, ready):
            out["dss"], out["sty"] = [[list(POINT[0])]], ""
        return out

    def completes(self, m, v, r, ready):
        """unassigned probability mass must have somewhere to go"""
        if all(all(d for _, _, d in ds) and sum(n / d for _, n, d in ds) > 0.999 for ds in r["dss"]):
            return True
        if not ready:
            return False
        D = set(r["dom"]) or {o for pv in m.pvs(v) for o, _, _ in m.pairs(r, pv)}
        for pv in m.pvs(v):
            given = [(o, n / d) for o, n, d in m.pairs(r, pv) if d]
            if sum(p for _, p in given) < 0.999 and not D - {o for o, _ in given}:
                return False
        return True

    def util_rel(self, m, v, den=1, spread=3):
        r = self.r
        P = m.pa(v)
        if not P:
            return rel("const", base=self.ubase + r.randint(-2, 2), dss=[POINT], vkw=True)
        if not self.ubase and den == 1 and r.random() < (0.55 if self.match else 0.2) and all(p in m.dom for p in P):
            x = self.payoff_rel(m, v, P)
            if x:
                return x
        coef = [r.choice([-3, -2, -1, 1, 1, 2, 3, 0]) for _ in P]
        args = list(P)
        order = list(range(len(P)))
        r.shuffle(order)
        args, coef = [args[i] for i in order], [coef[i] for i in order]
        mod = r.choice([0, 0, 3, 4, 5])
        base = r.randint(-2, 2) if mod == 0 else r.randint(0, 2)
        if self.ties and r.random() < 0.7:
            mod, base = 2, r.randrange(2)
        if self.match:
            mod, base = r.choice([2, 2, 3, 4, 5]), r.randint(0, 2)
            coef = [r.choice([-1, 1, 1, 3, 2 if mod > 2 else 1]) for _ in P]
        if self.ubase:
            mod, base = 0, self.ubase + r.randint(-2, 2)
            if r.random() < 0.3:
                coef = [c if i == 0 else 0 for i, c in enumerate(coef)]
        sty, dss = r.choice(["plain", ""]), [POINT]
        if den > 1:
            k = r.randint(1, 2)
            dss = self.dists(den, mod, k, 2)
            sty = ""
        return rel("fun", args, coef, base, mod, dss, vkw=not self.ident or r.random() < 0.1, sty=sty)

    def payoff_rel(self, m, v, P):
        """a payoff table: any number for any outcomes of the parents"""
        r = self.r
        args = r.sample(P, len(P))
        coef, size = [], 1
        for a in args:  # tells all combinations apart
            coef.append(size)
            size *= max(m.dom[a]) - min(m.dom[a]) + 1
        if size > 36:
            return None
        base, top = r.randint(-1, 1), r.choice([1, 2, 3, 4])
        dss = [None] * size
        for pv in m.pvs(v):
            lin = sum(c * pv[a] for a, c in zip(args, coef))
            dss[lin % size] = [[r.randint(0, top) - lin, 1, 1]]
        return rel("fun", args, coef, base, 0, [x or POINT for x in dss], vkw=not self.ident or r.random() < 0.1)

    def rule_rel(self, m, d, dom, den):
        """a decision rule with the given actions"""
        r = self.r
        P = m.pa(d)
        x = r.random()
        if x < 0.15:
            return rel("unif", vkw=True, dom=dom)
        if x < 0.25:
            return rel("const", dss=[[[o, p, den] for o, p in zip(sorted(dom), self.split(den, len(dom)))]], vkw=True)
        if x < 0.5 and m.ready(d) and len(m.pvs(d)) <= 16:
            padom = [list(m.dom[p]) for p in P]
            cols = [[[x, den] for x in self.split(den, len(dom))] for _ in range(math.prod(map(len, padom)))]
            return rel("tab", vkw=True, dom=dom, pa=P, padom=padom, cols=cols, how=r.choice(["kw", "obj", "item"]))
        coef = [r.choice([1, 1, 2]) for _ in P]
        mod = len(dom)
        # actions are 0..k-1 in some order, so that values modulo k are actions
        dss = [POINT] if r.random() < 0.6 else self.dists(den, mod, r.choice([1, 2]), mod)
        obj = m.ready(d)
        out = rel("obj" if obj else "fun", P, coef, r.randrange(mod), mod, dss, vkw=not self.ident, dom=dom if obj else [])
        out["how"] = r.choice(["kw", "obj"]) if obj else "kw"
        return out

    def pick_codecs(self, m, numeric=()):
        """outcome types"""
        r = self.r
        plain = r.random() < 0.35
        self.uscale = 2 if r.random() < 0.3 else 1
        for v in m.N:
            if v in m.util:
                self.codecs[v] = "half" if self.uscale == 2 else r.choice(["int", "float"])
            elif plain:
                self.codecs[v] = "int"
            elif v in m.dec:
                self.codecs[v] = r.choice(["int", "str", "pre", "half", "bool"] if v not in numeric else ["int", "half", "float"])
            else:
                self.codecs[v] = r.choice(
                    ["int", "int", "float", "half", "str", "pre", "bool"] if v not in numeric else ["int", "half", "float"]
                )

    def parameterise(self, m, nodes, budget=BUDGET, ruled="some", size=3, det=0.25, acts=(2, 3), udet=0.8,
                     kinds=None, dens=(2, 3, 4, 5, 8, 10), vkw=None, ubase=0, ties=False, singles=0.1, rare=False, match=False):
        """specifications for all nodes in topological order; returns the list of (v, rel)

        ubase: offset of the utilities; ties: utilities take few values; singles: how often a
        chance node has one outcome; rare: outcomes with small probabilities;
        match: all parents of a utility matter, each the more or less depending on the others"""
        r = self.r
        self.ubase, self.ties, self.singles, self.rare, self.match = ubase, ties, singles, rare, match
        total = 1
        out = []
        for v in m.topo():
            if total > budget // 40:
                den = 1
            else:
                den = r.choice(dens)
            if v in m.util:
                den_u = 1 if r.random() < udet else den
                rr = self.util_rel(m, v, den_u)
            elif v in m.dec:
                k = min(r.randint(*acts), 2 if self.codecs.get(v) == "bool" else 9)
                dom = list(range(k))
                if r.random() < 0.4:
                    r.shuffle(dom)
                has = {"all": 1, "none": 0, "some": 0.5, "most": 0.8}[ruled]
                rr = self.rule_rel(m, v, dom, den) if r.random() < has else dec_rel(dom)
            else:
                rr = self.chance_rel(m, v, den, size, det=det, kinds=kinds, vkw=vkw)
            m.set(v, rr)
            assert v in m.tab, (v, rr)
            total *= self.den_of(m, v)
            if total > budget:  # too fine: make it deterministic
                total //= self.den_of(m, v)
                D = m.dom[v]
                if v in m.dec:
                    rr = dec_rel(D)
                elif rr["k"] == "tab":
                    rr["cols"] = [[[int(j == i % len(D)), 1] for j in range(len(D))] for i, _ in enumerate(rr["cols"])]
                elif rr["k"] == "const" or not m.pa(v):
                    rr = rel("const", base=D[0], dss=[POINT], vkw=True)
                else:
                    rr.update(k="fun", dss=[[list(POINT[0])]], dom=[], sty="", how="kw")
                m.set(v, rr)
                total *= self.den_of(m, v)
            out.append([v, rr])
        return out

    def den_of(self, m, v):
        from fractions import Fraction

        den = 1
        for pv in m.pvs(v):
            for p in m.dist(v, pv).values():
                den = math.lcm(den, Fraction(p).limit_denominator(1000).denominator)
        return den

    # ------------------------------------------------------------------------------ building
    def build(self, m, nodes, kind, rels, i=1, how=None, order=None):
        r = self.r
        rels = [list(x) for x in rels]
        fixed = any(x[1]["k"] in ("obj", "tab", "unif") for x in rels)
        if order == "random" or (order is None and r.random() < 0.5):
            rels = self.shuffle_rels(m, rels)
        n = list(nodes)
        r.shuffle(n)
        e = [list(x) for x in m.E]
        r.shuffle(e)
        dec, util = [list(x) for x in m.dec.items()], [list(x) for x in m.util.items()]
        r.shuffle(dec)
        r.shuffle(util)
        return dict(
            op="build", i=i, kind=kind, n=n, e=e, dec=dec, util=util, rels=rels,
            how=how or r.choice(["ctor", "ctor", "inc"] if kind != "cbn" else ["ctor", "inc"]),
            batch=bool(r.random() < 0.3 and not fixed), scribble=bool(r.random() < 0.2),
        )

    def shuffle_rels(self, m, rels):
        """any order in which fixed objects come after their parents"""
        r = self.r
        left, res, done = list(rels), [], set()
        kinds = {v: x["k"] for v, x in rels}
        while left:
            # a table or object needs the domains of its parents, which are known once all their
            # ancestors are specified
            ok = [x for x in left if x[1]["k"] not in ("obj", "tab", "unif") or self.known(m, x[0], done)]
            x = r.choice(ok)
            left.remove(x)
            res.append(x)
            done.add(x[0])
        assert len(kinds) == len(res)
        return res

    def known(self, m, v, done):
        anc, todo = set(), m.pa(v)
        while todo:
            x = todo.pop()
            if x not in anc:
                anc.add(x)
                todo += m.pa(x)
        return anc <= done

    def script(self, ev, n, kind, **kw):
        return {"sid": self.sid, "meta": self.meta(n, kind, **kw), "ev": ev}


# -------------------------------------------------------------------------------- questions
def sample_ctx(rng, m, avoid=(), iv=None, most=2, odd=0.05):
    """a context with positive probability (mostly)"""
    vs = [v for v in sorted(m.N) if v not in avoid]
    k = min(len(vs), rng.choice([0, 0, 1, 1, 2, most]))
    f = m.world(rng, iv)
    c = rng.sample(vs, k)
    return [[v, f[v] if rng.random() > odd else rng.choice(m.dom[v])] for v in c]


def sample_iv(rng, m, avoid=(), p=0.5, most=2):
    vs = [v for v in sorted(m.N) if v not in avoid]
    if rng.random() > p or not vs:
        return []
    return [[v, rng.choice(m.dom[v])] for v in rng.sample(vs, min(len(vs), rng.randint(1, most)))]


def together(rng, m, vs, k, iv, p=0.85):
    """k of vs, mostly connected in the graph without the edges into iv"""
    x = {v for v, _ in iv}
    if rng.random() < p and vs:
        w = m.clone()
        w.E = {e for e in w.E if e[1] not in x}
        comp = w.component(rng.choice(vs))
        vs = [v for v in vs if v in comp]
    return rng.sample(vs, min(len(vs), k))


def q_query(rng, m, maxq=2):
    iv = sample_iv(rng, m)
    q = together(rng, m, sorted(m.N), rng.choice([1, 1, 1, 2, maxq]), iv)
    c = sample_ctx(rng, m, avoid=q, iv=dict(iv))
    return dict(f="query", q=q, c=c, iv=iv)


def numeric_nodes(m, codecs):
    return [v for v in sorted(m.N) if codecs.get(v, "int") in ("int", "half", "float")]


def q_ev(rng, m, codecs):
    num = numeric_nodes(m, codecs)
    iv = sample_iv(rng, m)
    vs = together(rng, m, num, rng.choice([0, 1, 1, 2, 2, 3]), iv)
    return dict(f="ev", vs=vs, c=sample_ctx(rng, m, avoid=vs if rng.random() < 0.85 else (), iv=dict(iv)), iv=iv)


def q_eu(rng, m, kind, agents):
    for _ in range(3):  # mostly with utilities in one component
        iv = sample_iv(rng, m)
        a = rng.choice(agents)
        U = [u for u, b in m.util.items() if b == a]
        if len(set(together(rng, m, U, 9, iv, p=1))) == len(U):
            break
    q = dict(f="eu", a=a, c=sample_ctx(rng, m, avoid=U if rng.random() < 0.85 else (), iv=dict(iv)), iv=iv)
    if kind == "cid" and rng.random() < 0.7:
        q["default"] = True
    return q


def graph_questions(rng, m, kind, count, fs=None):
    """path and d-separation questions"""
    N = sorted(m.N)
    fs = fs or ["dirpaths", "undirpaths", "motifs", "active", "findactive", "backdoor", "frontdoor", "decfree", "trail", "dconn"]
    if kind == "cbn":
        fs = [f for f in fs if f not in ("trail", "dconn", "decfree")] or ["dirpaths"]
    qs = []
    for _ in range(count):
        f = rng.choice(fs)
        if len(N) < 2:
            f = "trail" if kind != "cbn" else "dirpaths"
        s, t = (rng.sample(N, 2) if len(N) > 1 else (N[0], N[0]))
        odd = rng.random() < 0.04
        z = rng.sample(N, rng.choice([0, 0, 1, 1, 2, min(3, len(N))]) if len(N) > 2 else 0)
        if rng.random() < 0.5 and len(N) > 2:
            p = max((random_path(rng, m, stop=0.05) for _ in range(3)), key=len)
            if len(p) > 1:
                s, t, z = p[0], p[-1], opening(rng, m, p)
        if f in ("dirpaths", "undirpaths", "decfree"):
            if rng.random() < 0.05 and f != "decfree":
                t = s
            q = dict(f=f, s=s, t=t)
            if odd:
                q[rng.choice("st")] = 0
        elif f in ("motifs", "active"):
            p = random_path(rng, m)
            if len(p) < 2:
                continue
            if rng.random() < 0.6:
                z = opening(rng, m, p)
            q = dict(f=f, p=p, z=z)
            if odd and f == "active":
                q["z"] = z + [0]
        elif f in ("findactive", "backdoor", "frontdoor"):
            z = [x for x in z if x != s]
            if rng.random() < (0.8 if f == "findactive" else 0.5):
                z = [x for x in z if x != t]
            q = dict(f=f, s=s, t=t, z=z)
            if odd:
                q[rng.choice("st")] = 0
        elif f == "trail":
            q = dict(f=f, s=s, z=[x for x in z if x != s])
        else:
            q = dict(f=f, s=s, t=t, z=[x for x in z if x not in (s, t)])
        qs.append(q)
    return qs


def opening(rng, m, p):
    """observations that (nearly) make the path active, and sometimes others"""
    z = set()
    for a, b, c in zip(p, p[1:], p[2:]):
        if (a, b) in m.E and (c, b) in m.E and rng.random() < 0.9:
            z.add(rng.choice([b, *sorted(m.desc(b))]))
    if rng.random() < 0.3:
        z.add(rng.choice(sorted(m.N)))
    return sorted(z)


def random_path(rng, m, stop=0.15):
    p = [rng.choice(sorted(m.N))]
    while True:
        nxt = [x for x in m.pa(p[-1]) + m.ch(p[-1]) if x not in p]
        if not nxt or (len(p) > 1 and rng.random() < stop):
            return p
        p.append(rng.choice(nxt))
