"""Executes session scripts on the real pycid and records what happened.

usage: driver.py SCRIPTS.ndjson OUT.ndjson     (PYTHONPATH must start with the tree under test)

A script is {sid, meta, ev}: meta names the nodes, agents and outcome codecs, ev is a list of
events with arguments in specification terms (integers).  The output has one line per script,
{sid, ev}, where every event additionally carries err, its results, and ps, the projections of
all models that changed (always including the one operated on).  Nothing is judged here.
"""
import contextlib
import itertools
import json
import math
import os
import random
import resource
import signal
import sys
import tempfile
import warnings
from fractions import Fraction

warnings.filterwarnings("ignore")
import networkx as nx  # noqa: E402
import numpy as np  # noqa: E402

import matplotlib  # noqa: E402

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import pygambit  # noqa: E402
from pgmpy.factors.discrete import TabularCPD  # noqa: E402

import pycid  # noqa: E402
from pycid import analyze as an  # noqa: E402
from pycid.core import get_paths as gp  # noqa: E402
from pycid.core.cpd import DecisionDomain, StochasticFunctionCPD, bernoulli, discrete_uniform, noisy_copy  # noqa: E402
from pycid.core.macid_base import MACIDBase, MechanismGraph  # noqa: E402
from pycid.core.relevance_graph import CondensedRelevanceGraph, RelevanceGraph  # noqa: E402
from pycid.export.gambit import macid_to_efg, macid_to_gambit_file  # noqa: E402
import pycid.random as prandom  # noqa: E402

sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
from driver_codecs import UNKNOWN, decode, encode  # noqa: E402


class Unsolved(Exception):
    """gambit's numerical solver does not end on this game"""


def ending(solver, seconds=20):
    """simplicial subdivision need not end, which is not pycid's doing: a child process tries first"""
    def solve(game):
        pid = os.fork()
        if pid == 0:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_CPU, (seconds, seconds))
            try:
                solver(game)
            finally:
                os._exit(0)
        if os.WIFSIGNALED(os.waitpid(pid, 0)[1]):
            raise Unsolved
        return solver(game)
    return solve


pygambit.nash.simpdiv_solve = ending(pygambit.nash.simpdiv_solve)

EVENT_SECONDS = int(os.environ.get("DRIVER_EVENT_SECONDS", "25"))


@contextlib.contextmanager
def drawing():
    """nothing is rendered; -> {node: (shape, colour)} of what is drawn last"""
    got = {}

    def nodes(g, *args, **kw):
        vs = list(kw.get("nodelist") or g.nodes)
        c, s = kw.get("node_color", "#1f78b4"), kw.get("node_shape", "o")
        each = not isinstance(c, str) and len(c) == len(vs) and all(isinstance(x, str) or np.ndim(x) == 1 for x in c)
        for k, x in enumerate(vs):
            got[x] = (s, c[k] if each else c)

    names = ["draw", "draw_networkx", "draw_networkx_nodes", "draw_networkx_edges", "draw_networkx_labels", "kamada_kawai_layout"]
    keep, show = [getattr(nx, x) for x in names], plt.show
    nx.draw = nx.draw_networkx = nx.draw_networkx_nodes = nodes
    nx.draw_networkx_edges = nx.draw_networkx_labels = plt.show = lambda *a, **k: None
    nx.kamada_kawai_layout = lambda g, *a, **k: {x: np.array([0.0, 0.0]) for x in g.nodes}
    try:
        yield got
    finally:
        for x, f in zip(names, keep):
            setattr(nx, x, f)
        plt.show = show


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def num(x):
    """number -> [integer part, fraction in 1e-8]"""
    try:
        x = float(x)
    except (TypeError, ValueError):
        return [0, -2]
    if math.isnan(x) or math.isinf(x) or abs(x) > 1e9:
        return [0, -1]
    hi = math.floor(x)
    lo = round((x - hi) * 10**8)
    if lo == 10**8:
        hi, lo = hi + 1, 0
    return [hi, lo]


def rat(x, limit=2000):
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        return [0, 0], False
    f = Fraction(x).limit_denominator(limit)
    return [f.numerator, f.denominator], abs(float(f) - x) < 1e-9


class Session:
    def __init__(self, script):
        self.meta = meta = script["meta"]
        self.name = {int(k): v for k, v in meta["names"].items()}
        self.name[0] = meta.get("unknown", "no such node")
        self.node = {v: k for k, v in self.name.items() if k != 0}
        self.codec = {int(k): v for k, v in meta.get("codecs", {}).items()}
        self.agent = {int(k): v for k, v in meta.get("agents", {}).items()}
        self.agent_id = {v: k for k, v in self.agent.items()}
        self.models = {}
        self.last = {}
        self.kinds = {}
        self.colors, self.shared, self.lent = {}, {}, []
        self.states = {}

    # ------------------------------------------------------------------------ conversions
    def nid(self, name):
        return self.node.get(name, UNKNOWN)

    def aid(self, label):
        return self.agent_id.get(label, UNKNOWN)

    def out(self, v, code):
        return encode(self.codec.get(v, "int"), code)

    def cod(self, v, value):
        return decode(self.codec.get(v, "int"), value)

    def ctx(self, pairs):
        return self.lend({self.name[v]: self.out(v, o) for v, o in pairs})

    def lend(self, x):
        """an argument that the call has to leave as it is"""
        self.lent.append((x, x.copy()))
        return x

    def some(self, l, ordered=False):
        """nodes, as one of the many things that can be iterated over"""
        names, k = self.names(l), (3 * len(l) + sum(l)) % (5 if ordered else 7)
        if k < 2:
            return self.lend(names)
        return self.lend(set(names)) if k > 4 else [tuple, iter, lambda x: dict.fromkeys(x).keys()][k - 2](names)

    def scale(self, v):
        return 2 if self.codec.get(v) == "half" else 1

    # ------------------------------------------------------------------------- projection
    def project(self, m):
        p = {"n": sorted(self.nid(x) for x in m.nodes), "e": sorted([self.nid(a), self.nid(b)] for a, b in m.edges)}
        if isinstance(m, MACIDBase):
            p["dl"] = sorted([self.aid(a), sorted(map(self.nid, l))] for a, l in m.agent_decisions.items())
            p["ul"] = sorted([self.aid(a), sorted(map(self.nid, l))] for a, l in m.agent_utilities.items())
            p["da"] = sorted([self.nid(d), self.aid(a)] for d, a in m.decision_agent.items())
            p["ua"] = sorted([self.nid(d), self.aid(a)] for d, a in m.utility_agent.items())
            p["ag"] = sorted(self.aid(a) for a in m.agents)
        else:
            p.update(dl=[], ul=[], da=[], ua=[], ag=[])
        p["ks"] = sorted(self.nid(k) for k in m.model.keys())
        cpds = m.get_cpds()
        p["un"] = sorted(self.nid(c.variable) for c in cpds if isinstance(c, DecisionDomain))
        p["dom"] = sorted(
            [self.nid(v), [self.cod(self.nid(v), o) for o in dom]] for v, dom in m.model.domain.items() if v in m.nodes
        )
        p["tab"] = sorted(self.table(m, c) for c in cpds)
        return p

    def axes(self, m, cpd):
        """outcomes of every variable of cpd, in the order of its array axes"""
        res = []
        for var, card in zip(cpd.variables, np.shape(cpd.values)):
            names = (cpd.state_names or {}).get(var)
            if names is None or len(names) != card:
                names = m.model.domain.get(var, [])
            if len(names) != card:
                names = [None] * card
            res.append(list(names))
        return res

    def table(self, m, cpd):
        v = self.nid(cpd.variable)
        pa = [self.nid(x) for x in cpd.variables[1:]]
        axes = self.axes(m, cpd)
        dom = m.model.domain.get(cpd.variable, axes[0])
        values = np.asarray(cpd.values, dtype=float)
        rows = []
        for idx in itertools.product(*[range(len(a)) for a in axes[1:]]):
            col = {axes[0][j]: values[(j, *idx)] for j in range(len(axes[0]))}
            rows.append(
                [
                    [self.cod(w, axes[i + 1][k]) for i, (w, k) in enumerate(zip(pa, idx))],
                    [num(col[o]) if o in col else [0, -2] for o in dom],
                ]
            )
        return [v, pa, sorted(rows)]

    def rule(self, m, cpd, pure=False):
        """a decision rule as [d, pa, rows, domain], exactly if possible"""
        d = self.nid(cpd.variable)
        pa = [self.nid(x) for x in cpd.variables[1:]]
        axes = [
            [o for o in (m.model.domain.get(x) or [None] * c)] for x, c in zip(cpd.variables, np.shape(cpd.values))
        ]
        own = (cpd.state_names or {}).get(cpd.variable, axes[0])
        values = np.asarray(cpd.values, dtype=float)
        rows, exact, proper = [], True, True
        for idx in itertools.product(*[range(s) for s in np.shape(values)[1:]]):
            ctx = [self.cod(w, axes[i + 1][k]) for i, (w, k) in enumerate(zip(pa, idx))]
            col = [values[(j, *idx)] for j in range(np.shape(values)[0])]
            if not (all(-1e-9 <= x <= 1 + 1e-9 for x in col) and abs(sum(col) - 1) < 1e-6):
                proper = False
            if pure:
                ones = [j for j, x in enumerate(col) if abs(x - 1) < 1e-9]
                rows.append([ctx, self.cod(d, own[ones[0]]) if len(ones) == 1 else UNKNOWN])
            else:
                rs = [rat(x) for x in col]
                exact = exact and all(r[1] for r in rs)
                if sum(Fraction(*r[0]) if r[0][1] else Fraction(0) for r in rs) != 1:
                    exact = False
                rows.append([ctx, [r[0] for r in rs]])
        return [d, pa, sorted(rows), [self.cod(d, o) for o in own]], exact, proper

    # ---------------------------------------------------------------- building relationships
    def function(self, r, v):
        args, coef, dss, base, mod = r["args"], r["coef"], r["dss"], r["base"], r["mod"]
        plain = r.get("sty") == "plain"
        noisy = r.get("sty") == "noisy"

        def impl(kw):
            pv = {a: self.cod(a, kw[self.name[a]]) for a in args}
            lin = sum(c * pv[a] for a, c in zip(args, coef))
            if not dss:
                return {}
            ds = dss[lin % len(dss)]
            wrap = (lambda x: x % mod) if mod else (lambda x: x)
            pairs = [(self.out(v, wrap(base + lin + k)), None if d == 0 else n / d) for k, n, d in ds]
            if plain and len(pairs) == 1 and pairs[0][1] == 1:
                return pairs[0][0]
            if noisy and sum(p is not None for _, p in pairs) == 1:
                ((val, prob),) = [(o, p) for o, p in pairs if p is not None]
                dom = [o for o, _ in pairs]
                if prob == 0.9:
                    return noisy_copy(val, domain=dom) if len(dom) > 1 else noisy_copy(val)
                return noisy_copy(val, prob, dom) if len(dom) > 1 else noisy_copy(val, prob)
            return dict(pairs)

        if r["vkw"]:
            return lambda **pv: impl(pv)
        names = [self.name[a] for a in args]
        src = "lambda {0}: impl(dict({1}))".format(", ".join(names), ", ".join(f"{n}={n}" for n in names))
        return eval(src, {"impl": impl, "dict": dict})

    def relationship(self, m, v, r):
        k = r["k"]
        name = self.name[v]
        if k == "dec":
            return [self.out(v, o) for o in r["dom"]]
        if k == "const":
            ds = r["dss"][0]
            pairs = [(self.out(v, (r["base"] + x) % r["mod"] if r["mod"] else r["base"] + x), n, d) for x, n, d in ds]
            if r.get("sty") == "bern" and [p[0] for p in pairs] == [0, 1] and pairs[1][2]:
                return bernoulli(pairs[1][1] / pairs[1][2])
            if r.get("sty") == "unif":
                return discrete_uniform([p[0] for p in pairs])
            return {o: (None if d == 0 else n / d) for o, n, d in pairs}
        if k == "fun":
            return self.function(r, v)
        if k in ("obj", "unif"):
            dom = [self.out(v, o) for o in r["dom"]] or None
            cpd = StochasticFunctionCPD(name, self.function(r, v), m, domain=dom)
            if dom and r.get("scribble"):
                dom.append("scribble")
            return cpd
        if k == "tab":
            if r.get("share") in self.shared:  # the object that another model was given
                return self.shared[r["share"]]
            states = {name: [self.out(v, o) for o in r["dom"]]}
            if r.get("names") == "none" and states[name] == list(range(len(r["dom"]))):
                states = None
            elif r.get("names", "all") == "all":
                for p, d in zip(r["pa"], r["padom"]):
                    states[self.name[p]] = [self.out(p, o) for o in d]
            values = np.array([[n / d for n, d in col] for col in r["cols"]]).T
            kw = {"state_names": states} if states else {}
            if r["pa"]:
                cpd = TabularCPD(name, len(r["dom"]), values, [self.name[p] for p in r["pa"]], [len(d) for d in r["padom"]], **kw)
            else:
                cpd = TabularCPD(name, len(r["dom"]), values, **kw)
            if "share" in r:
                self.shared[r["share"]] = cpd
            return cpd
        raise ValueError(k)

    def assign(self, m, v, r):
        rel = self.relationship(m, v, r)
        how = r.get("how", "kw")
        if how == "obj" and hasattr(rel, "variable"):
            m.add_cpds(rel)
        elif how == "item":
            m.model[self.name[v]] = rel
        else:
            m.add_cpds(**{self.name[v]: rel})
        if r.get("scribble"):  # what the caller does with its own objects afterwards
            if isinstance(rel, list):
                rel.append("scribble")
            elif isinstance(rel, dict):
                rel["scribble"] = rel.pop(next(iter(rel)), 0)
            elif type(rel) is TabularCPD and "share" not in r:
                rel.values[...] = 1 / rel.variable_card
                rel.variables.append("scribble")
                for l in rel.state_names.values():
                    l.append("scribble")

    # ------------------------------------------------------------------------------ events
    def new_model(self, e):
        kind = e["kind"]
        edges = [(self.name[a], self.name[b]) for a, b in e["e"]]
        nodes = [self.name[v] for v in e["n"]]
        decs, utils = {}, {}
        for d, a in e["dec"]:
            decs.setdefault(self.agent[a], []).append(self.name[d])
        for u, a in e["util"]:
            utils.setdefault(self.agent[a], []).append(self.name[u])
        incremental = e.get("how") == "inc"
        cls = {
            "cbn": pycid.CausalBayesianNetwork,
            "cid": pycid.CID,
            "macid": pycid.MACID,
            "macidbase": MACIDBase,
        }[kind]
        if incremental:
            m = cls()
            for n in nodes:
                m.add_node(n)
            for a, b in edges:
                m.add_edge(a, b)
            for d, a in e["dec"]:
                m.make_decision(self.name[d], self.agent[a])
            for u, a in e["util"]:
                m.make_utility(self.name[u], self.agent[a])
            return m
        if kind == "cbn":
            m = cls(edges)
        elif kind == "cid":
            m = cls(
                edges,
                decisions=[x for l in decs.values() for x in l],
                utilities=[x for l in utils.values() for x in l],
            )
        else:
            m = cls(edges, agent_decisions=decs, agent_utilities=utils)
        for n in nodes:
            if n not in m.nodes:
                m.add_node(n)
        if e.get("scribble"):  # the caller's own containers change afterwards
            for l in (*decs.values(), *utils.values()):
                l.append("scribble")
            decs["scribble"] = ["scribble"]
        return m

    def do(self, e):
        op, way = e["op"], e.get("way", "")
        if op == "build":
            m = self.models[e["i"]] = self.new_model(e)
            self.kinds[e["i"]] = e["kind"]
            if e.get("batch"):
                m.add_cpds(**{self.name[v]: self.relationship(m, v, r) for v, r in e["rels"]})
            else:
                for v, r in e["rels"]:
                    self.assign(m, v, r)
            return
        if op in ("rdag", "rdiagram", "rlist", "rcpd"):
            return getattr(self, op)(e)
        m = self.models[e["i"]]
        name = self.name
        if op == "ask":
            for k, q in enumerate(e["qs"]):
                signal.alarm(EVENT_SECONDS)
                try:
                    self.ask(m, q)
                except Timeout:
                    q["err"] = "Timeout"
                    q.pop("val", None)
                    del e["qs"][k + 1 :]
                    raise
        elif op == "set":
            self.assign(m, e["v"], e["r"])
        elif op == "setm":
            prs = {name[v]: self.relationship(m, v, r) for v, r in e["prs"]}
            if way == "many":
                m.model.update(prs)
            else:
                m.add_cpds(**prs)
        elif op == "del":
            x = name[e["v"]]
            if way == "item":
                del m.model[x]
            elif way == "many":
                m.model.pop(x)
            elif way == "cpd" and m.get_cpds(x) is not None:
                m.remove_cpds(m.get_cpds(x))
            else:
                m.remove_cpds(x)
        elif op in ("addnode", "rmnode"):
            if way == "many":
                (m.add_nodes_from if op == "addnode" else m.remove_nodes_from)([name[e["v"]]])
            else:
                (m.add_node if op == "addnode" else m.remove_node)(name[e["v"]])
        elif op in ("addedge", "rmedge"):
            x = name[e["u"]], name[e["v"]]
            if way == "many":
                (m.add_edges_from if op == "addedge" else m.remove_edges_from)([x])
            else:
                (m.add_edge if op == "addedge" else m.remove_edge)(*x)
        elif op == "mkchance":
            m.make_chance(name[e["v"]])
        elif op == "mkdec":
            if e.get("default"):
                m.make_decision(name[e["v"]])
            else:
                m.make_decision(name[e["v"]], self.agent[e["a"]])
        elif op == "mkutil":
            if e.get("default"):
                m.make_utility(name[e["v"]])
            else:
                m.make_utility(name[e["v"]], self.agent[e["a"]])
        elif op == "impr":
            m.impute_random_decision(name[e["d"]])
        elif op == "impall":
            if e.get("how") == "policy" and isinstance(m, pycid.CID):
                m.impute_random_policy()
            else:
                m.impute_fully_mixed_policy_profile()
        elif op == "rmrules":
            m.remove_all_decision_rules()
        elif op == "interv":
            m.intervene(self.ctx(e["prs"]))
        elif op == "copy":
            self.models[e["j"]] = m.copy()
            self.kinds[e["j"]] = self.kinds[e["i"]]
        elif op == "copybare":
            self.models[e["j"]] = m.copy_without_cpds()
            self.kinds[e["j"]] = self.kinds[e["i"]]
        elif op == "impopt":
            e["rules"] = []
            m.impute_optimal_decision(name[e["d"]])
            e["rules"] = [self.rule(m, m.get_cpds(name[e["d"]]))[0]]
        elif op == "imppol":
            e["rules"] = []
            random.seed(e.get("seed", 0))
            m.impute_optimal_policy()
            e["rules"] = [self.rule(m, m.get_cpds(d))[0] for d in m.decisions]
        elif op == "impcond":
            e["rows"], e["pa"] = [], []
            d, y = e["d"], e["y"]
            m.impute_conditional_expectation_decision(name[d], name[y])
            cpd = m.get_cpds(name[d])
            axes = self.axes(m, cpd)
            pa = [self.nid(x) for x in cpd.variables[1:]]
            values = np.asarray(cpd.values, dtype=float)
            rows = []
            for idx in itertools.product(*[range(len(a)) for a in axes[1:]]):
                ctx = [self.cod(w, axes[i + 1][k]) for i, (w, k) in enumerate(zip(pa, idx))]
                ex = sum(float(axes[0][j]) * values[(j, *idx)] for j in range(len(axes[0])))
                rows.append([ctx, num(ex * self.scale(y))])
            e["pa"], e["rows"] = pa, sorted(rows)
        else:
            raise AssertionError(op)

    def run(self, events):
        for e in events:
            e["err"], self.lent = "", []
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(EVENT_SECONDS)
            try:
                self.do(e)
            except Timeout:
                e["err"] = "Timeout"
            except Exception as ex:
                e["err"] = type(ex).__name__
                if os.environ.get("DRIVER_DEBUG"):
                    import traceback

                    traceback.print_exc()
            finally:
                signal.alarm(0)
            if any(x != y or (not isinstance(x, set) and list(x) != list(y)) for x, y in self.lent):
                e["args"] = "changed"
            ps = []
            main = e.get("j") if e["op"] in ("copy", "copybare") else e.get("i")
            for i, m in self.models.items():
                p = self.safe_project(m)
                if (i == main and e["op"] != "ask") or self.last.get(i) != p:
                    ps.append([i, p])
                    self.last[i] = p
            e["ps"] = ps
            yield e
            if e["err"] == "Timeout" or (e["op"] in ("build", "copy", "copybare") and e["err"]):
                break  # nothing to work with

    def safe_project(self, m):
        try:
            return self.project(m)
        except Exception:
            if os.environ.get("DRIVER_DEBUG"):
                raise
            return dict(n=[UNKNOWN], e=[], dl=[], ul=[], da=[], ua=[], ag=[], ks=[], un=[], dom=[], tab=[])

    # --------------------------------------------------------------------------- questions
    def ask(self, m, q):
        q["err"] = ""
        try:
            q["val"] = getattr(self, "q_" + q["f"])(m, q)
        except Timeout:
            raise
        except Exception as ex:
            q["err"] = type(ex).__name__
            q.pop("val", None)
            if os.environ.get("DRIVER_DEBUG"):
                import traceback

                traceback.print_exc()

    def names(self, l):
        return [self.name[v] for v in l]

    def ids(self, l):
        return [self.nid(x) for x in l]

    def kw(self, q):
        """an empty intervention can be expressed in three ways"""
        if q["iv"]:
            return {"intervention": self.ctx(q["iv"])}
        return [{}, {"intervention": None}, {"intervention": {}}][len(q.get("c", [])) % 3]

    def q_query(self, m, q):
        f = m.query(self.some(q["q"]), self.ctx(q["c"]), **self.kw(q))
        with np.errstate(all="ignore"):
            f.normalize()
        axes = [f.state_names[v] for v in f.variables]
        order = [f.variables.index(n) for n in self.names(q["q"])]
        return [
            [[self.cod(v, axes[k][idx[k]]) for v, k in zip(q["q"], order)], num(f.values[idx])]
            for idx in itertools.product(*[range(len(a)) for a in axes])
        ]

    def q_ev(self, m, q):
        vals = m.expected_value(self.some(q["vs"], True), self.ctx(q["c"]), **self.kw(q))
        return [num(x * self.scale(v)) for v, x in zip(q["vs"], vals)] + [[0, -2]] * abs(len(q["vs"]) - len(vals))

    def q_eu(self, m, q):
        scale = self.meta.get("uscale", 1)
        args = [] if q.get("default") else [self.agent[q["a"]]]
        kw = self.kw(q)
        if args:
            kw["agent"] = args[0]
        return num(m.expected_utility(self.ctx(q["c"]), **kw) * scale)

    def q_te(self, m, q):
        return num(an.total_effect(m, self.name[q["a"]], self.name[q["x"]], *self.compared(q)) * self.scale(q["x"]))

    def q_ite(self, m, q):
        kw = {} if q["adapt"] else {"adapt_marginalized": False}
        nodes = [self.name[q[k]] for k in "ady"]
        return num(an.introduced_total_effect(m, *nodes, *self.compared(q), **kw) * self.scale(q["y"]))

    def compared(self, q):
        """the two settings of q["a"]; 0 and 1 are left to the defaults"""
        two = (self.out(q["a"], q["a0"]), self.out(q["a"], q["a1"]))
        return () if two == (0, 1) else two

    # graph questions
    def q_dirpaths(self, m, q):
        return [self.ids(p) for p in gp.find_all_dir_paths(m, self.name[q["s"]], self.name[q["t"]])]

    def q_undirpaths(self, m, q):
        return [self.ids(p) for p in gp.find_all_undir_paths(m, self.name[q["s"]], self.name[q["t"]])]

    def q_motifs(self, m, q):
        p = self.lend(self.names(q["p"]))
        res = gp.get_motifs(m, p)
        # asking for a single position must give the same
        for i in range(1, len(p)):
            if gp.get_motif(m, p, i) != res[i]:
                return res + ["get_motif differs"]
        return res

    def q_active(self, m, q):
        z = self.lend(set(self.names(q["z"])))
        return bool(gp.is_active_path(m, self.names(q["p"]), z) if z or len(q["p"]) % 2 else gp.is_active_path(m, self.names(q["p"])))

    def q_findactive(self, m, q):
        z = self.lend(set(self.names(q["z"])))
        if z:
            return self.ids(gp.find_active_path(m, self.name[q["s"]], self.name[q["t"]], z))
        return self.ids(gp.find_active_path(m, self.name[q["s"]], self.name[q["t"]]))

    def q_backdoor(self, m, q):
        z = self.lend(set(self.names(q["z"])))
        args = [z] if z else []
        return bool(gp.is_active_backdoor_trail(m, self.name[q["s"]], self.name[q["t"]], *args))

    def q_frontdoor(self, m, q):
        z = self.lend(set(self.names(q["z"])))
        args = [z] if z else []
        return bool(gp.is_active_indirect_frontdoor_trail(m, self.name[q["s"]], self.name[q["t"]], *args))

    def q_decfree(self, m, q):
        return bool(gp.directed_decision_free_path(m, self.name[q["s"]], self.name[q["t"]]))

    def z(self, q):
        return self.some(q["z"])

    def q_trail(self, m, q):
        n = self.name[q["s"]]
        if not q["z"] and q["s"] % 2:
            return sorted(self.ids(m.active_trail_nodes(n)[n]))
        return sorted(self.ids(m.active_trail_nodes(n, self.z(q))[n]))

    def q_dconn(self, m, q):
        return bool(m.is_dconnected(self.name[q["s"]], self.name[q["t"]], self.z(q)))

    def q_rreach(self, m, q):
        ds, vs = self.names(q["ds"]), self.names(q["vs"])
        if len(ds) == len(vs) == 1 and vs[0] in m.decisions and q.get("sreach"):
            return bool(m.is_s_reachable(ds[0], vs[0]))
        return bool(m.is_r_reachable(ds[0] if len(ds) == 1 else self.some(q["ds"]), vs[0] if len(vs) == 1 else self.some(q["vs"])))

    def q_relgraph(self, m, q):
        g = RelevanceGraph(m) if q["all"] else RelevanceGraph(m, self.some(q["ds"]))
        return {
            "n": sorted(self.ids(g.nodes)),
            "e": sorted([self.nid(a), self.nid(b)] for a, b in g.edges),
            "acyclic": bool(g.is_acyclic()),
        }

    def q_mech(self, m, q):
        """the mechanism graph: node n's mechanism is numbered 50 + n"""
        g = MechanismGraph(m)
        num = {**{self.name[i]: i for i in self.name}, **{self.name[i] + "mec": 50 + i for i in self.name}}
        own = lambda d: sorted([num[x], self.aid(a)] for x, a in d.items())
        s = self.name[q["s"]] + "mec"
        out = {
            "n": sorted(num[x] for x in g.nodes),
            "e": sorted([num[a], num[b]] for a, b in g.edges),
            "da": own(g.decision_agent),
            "ua": own(g.utility_agent),
            "r": sorted(num[x] for x in g.active_trail_nodes(s, self.z(q))[s]),
            "c": [num[x] for x in sorted(g.nodes) if g.is_dconnected(s, x, self.z(q))],
        }
        # it is a graph of its own: what is done to it stays in it
        for d in list(g.decisions):
            g.make_chance(d)
        for e in list(g.edges):
            g.remove_edge(*e)
        return out

    def q_sccs(self, m, q):
        return [sorted(self.ids(s)) for s in RelevanceGraph(m).get_sccs()]

    def q_sccorder(self, m, q):
        return [sorted(self.ids(s)) for s in CondensedRelevanceGraph(m).get_scc_topological_ordering()]

    def q_sccmap(self, m, q):
        g = CondensedRelevanceGraph(m)
        got = g.get_decisions_in_scc()
        ks = sorted(got)
        num = {k: i + 1 for i, k in enumerate(ks)}
        return {"l": [sorted(self.ids(got[k])) for k in ks], "e": sorted([num[a], num[b]] for a, b in g.edges), "n": len(g.nodes)}

    def q_sccdraw(self, m, q):
        g = RelevanceGraph(m)
        with drawing() as got:
            g.draw_sccs()
        return sorted([self.nid(x), self.color(c)] for x, (_, c) in got.items())

    def q_subgames(self, m, q):
        return [sorted(self.ids(s)) for s in m.decs_in_each_maid_subgame()]

    def q_recall(self, m, q):
        if q["a"] == 0:
            return bool(m.sufficient_recall())
        return bool(m.sufficient_recall(self.agent.get(q["a"], "no such agent")))

    def q_order(self, m, q):
        return self.ids(m.get_valid_order() if q["all"] else m.get_valid_order(self.some(q["vs"])))

    def q_req(self, m, q):
        return bool(an.requisite(m, self.name[q["d"]], self.name[q["x"]]))

    def q_reqlist(self, m, q):
        return self.ids(an.requisite_list(m, self.name[q["d"]]))

    def q_reqgraph(self, m, q):
        p = self.project(an.requisite_graph(m))
        return {k: p[k] for k in ("n", "e", "da", "ua")}

    def q_voi(self, m, q):
        return bool(an.admits_voi(m, self.name[q["d"]], self.name[q["x"]]))

    def q_ri(self, m, q):
        return bool(an.admits_ri(m, self.name[q["d"]], self.name[q["x"]]))

    def q_voc(self, m, q):
        return bool(an.admits_voc(m, self.name[q["x"]]))

    def q_dvoc(self, m, q):
        return bool(an.admits_dir_voc(m, self.name[q["x"]]))

    def q_ivoc(self, m, q):
        return bool(an.admits_indir_voc(m, self.name[q["d"]], self.name[q["x"]]))

    def q_ici(self, m, q):
        return bool(an.admits_ici(m, self.name[q["d"]], self.name[q["x"]]))

    def q_voilist(self, m, q):
        return self.ids(an.admits_voi_list(m, self.name[q["d"]]))

    def q_rilist(self, m, q):
        return self.ids(an.admits_ri_list(m, self.name[q["d"]]))

    def q_voclist(self, m, q):
        return self.ids(an.admits_voc_list(m))

    def q_dvoclist(self, m, q):
        return self.ids(an.admits_dir_voc_list(m))

    def q_ivoclist(self, m, q):
        return self.ids(an.admits_indir_voc_list(m, self.name[q["d"]]))

    def q_icilist(self, m, q):
        return self.ids(an.admits_ici_list(m, self.name[q["d"]]))

    def q_qvoi(self, m, q):
        random.seed(q.get("seed", 0))
        return num(an.quantitative_voi(m, self.name[q["d"]], self.name[q["x"]]) * self.meta.get("uscale", 1))

    def q_qvoc(self, m, q):
        random.seed(q.get("seed", 0))
        return num(an.quantitative_voc(m, self.name[q["x"]]) * self.meta.get("uscale", 1))

    def q_rules(self, m, q):
        return [self.rule(m, r, pure=True)[0] for r in m.pure_decision_rules(self.name[q["d"]])]

    def q_policies(self, m, q):
        return [[self.rule(m, r, pure=True)[0] for r in p] for p in m.pure_policies(self.some(q["ds"], True))]

    def q_joint(self, m, q):
        ps = m.joint_pure_policies(self.some(q["ds"], True))
        one = ps[q["k"] % len(ps)]
        pp = m.policy_profile_assignment(one)
        given = {r.variable: r for r in one}
        return {
            "l": [[self.rule(m, r, pure=True)[0] for r in p] for p in ps],
            "pp": [[self.nid(d), 0 if r is None else 1 if r is given.get(d) else 2] for d, r in pp.items()],
        }

    def q_optpol(self, m, q):
        ds = self.names(q["ds"])
        if len(ds) == 1 and q.get("single"):
            return [[self.rule(m, r, pure=True)[0]] for r in m.optimal_pure_decision_rules(ds[0])]
        if q.get("all") and isinstance(m, pycid.CID):
            return [[self.rule(m, r, pure=True)[0] for r in p] for p in m.optimal_policies()]
        return [[self.rule(m, r, pure=True)[0] for r in p] for p in m.optimal_pure_policies(self.some(q["ds"]))]

    def q_solve(self, m, q):
        random.seed(q.get("seed", 0))
        res = []
        for d, cpd in m.solve().items():
            r = self.rule(m, cpd)[0]
            res.append(r if self.nid(d) == r[0] else [UNKNOWN, [], [], []])
        return res

    def profiles(self, m, profiles):
        res = []
        for prof in profiles:
            rules = [self.rule(m, r) for r in prof]
            x = all(r[1] for r in rules)
            den = 1
            for r in rules:
                for row in r[0][2]:
                    den = max(den, math.lcm(*[p[1] or 1 for p in row[1]]))
            if den > 400:
                x = False
            res.append({"x": x, "pr": all(r[2] for r in rules), "l": [r[0] for r in rules]})
        return res

    def q_ne(self, m, q):
        kw = {"solver": q["solver"]} if q["solver"] else {}
        if q["all"]:
            return self.profiles(m, m.get_ne(**kw))
        return self.profiles(m, m.get_ne_in_sg(self.some(q["ds"]), **kw))

    def q_spe(self, m, q):
        kw = {"solver": q["solver"]} if q["solver"] else {}
        return self.profiles(m, m.get_spe(**kw))

    def q_subgame(self, m, q):
        return self.project(m.create_subgame(self.some(q["ds"])))

    def q_efg(self, m, q):
        if q.get("file"):
            with tempfile.TemporaryDirectory() as tmp:
                path = os.path.join(tmp, "g.efg")
                macid_to_gambit_file(m, path)
                game = pygambit.Game.read_game(path)
        elif q["all"]:
            game, _ = macid_to_efg(m)
        else:
            game, _ = macid_to_efg(m, self.lend(set(self.names(q["ds"]))), (list, iter, tuple)[sum(q["ds"]) % 3]([self.agent[a] for a in q["ag"]]))
        return self.tree(m, game)

    def tree(self, m, game):
        label_agent = {str(a): self.aid(a) for a in m.agents}
        players = [label_agent.get(p.label, UNKNOWN) for p in game.players]
        by_labels = {}
        for x in m.nodes:
            v = self.nid(x)
            if not list(m.successors(x)):
                continue  # not observed by any decision
            by_labels[tuple(str(o) for o in m.model.domain.get(x, []))] = v
        scale = self.meta.get("uscale", 1)
        moves, leaves, info = [], [], []

        def walk(node, path):
            if node.is_terminal:
                out = node.outcome
                pay = [[a, num(float(out[i]) * scale) if out is not None else [0, -2]] for i, a in enumerate(players)]
                leaves.append([path, pay])
                return
            infoset = node.infoset
            labels = [a.label for a in infoset.actions]
            if node.player.is_chance:
                v = by_labels.get(tuple(labels), UNKNOWN)
                pl, typ = 0, "c"
                probs = [num(float(a.prob)) for a in infoset.actions]
                iid = 0
            else:
                v = self.nid(infoset.label)
                pl, typ = label_agent.get(node.player.label, UNKNOWN), "d"
                probs = []
                if infoset not in info:
                    info.append(infoset)
                iid = info.index(infoset) + 1
            lab = {str(o): self.cod(v, o) for o in m.model.domain.get(self.name.get(v), [])}
            acts = [lab.get(x, UNKNOWN) for x in labels]
            moves.append([path, typ, v, pl, iid, acts, probs])
            for a, child in zip(acts, node.children):
                walk(child, path + [[v, a]])

        walk(game.root, [])
        return {"mv": moves, "lf": leaves}

    def q_deff(self, m, q):
        return bool(an.direct_effect(m, self.name[q["d"]]))

    def q_manip(self, m, q):
        return bool(an.manipulation(m, self.name[q["d"]], self.lend(set(self.names(q["eff"])))))

    def q_sig(self, m, q):
        return bool(an.signaling(m, self.name[q["d"]], self.lend(set(self.names(q["eff"])))))

    def q_rev(self, m, q):
        return bool(an.revealing_or_denying(m, self.name[q["d"]], self.lend(set(self.names(q["eff"])))))

    def q_patterns(self, m, q):
        return [[k, self.nid(d)] for k, l in an.get_reasoning_patterns(m).items() for d in l]

    def q_scm(self, m, q):
        return bool(m.is_structural_causal_model())

    def q_sample(self, m, q):
        res = []
        for s in q["seeds"]:
            d = m.sample(seed=s)
            res.append(sorted([self.nid(x), self.cod(self.nid(x), o)] for x, o in d.items()))
        return res

    def q_draw(self, m, q):
        with drawing() as got:
            if "vs" in q:
                vs = set(self.names(q["vs"]))
                if q.get("color"):
                    m.draw_property(lambda x: x in vs, color=q["color"])
                else:
                    m.draw_property(lambda x: x in vs)
            else:
                m.draw(layout=lambda g: {x: np.array([0.0, 0.0]) for x in g.nodes})
        want = q.get("color", "")
        return sorted([self.nid(x), s, 0 if isinstance(c, str) and c == want else self.color(c)] for x, (s, c) in got.items())

    def color(self, c):
        key = c if isinstance(c, str) else tuple(np.round(np.asarray(c, dtype=float).flatten(), 6))
        return self.colors.setdefault(key, len(self.colors) + 1)

    # --------------------------------------------------------------------- random generators
    def seed(self, e):
        random.seed(e["seed"])
        np.random.seed(e["seed"])

    def number(self, m):
        """name the nodes and agents of a generated diagram"""
        self.name = dict(enumerate(m.nodes, start=1))
        self.node = {v: k for k, v in self.name.items()}
        if isinstance(m, MACIDBase):
            self.agent_id = {a: a + 1 for a in m.agents}
        return m

    def rdag(self, e):
        self.seed(e)
        d = self.number(prandom.random_dag(e["n"], e["dn"] / e["dd"], e["k"]))
        e["val"] = {"n": sorted(self.ids(d.nodes)), "e": sorted([self.nid(a), self.nid(b)] for a, b in d.edges)}

    def rdiagram(self, e):
        self.seed(e)
        kw = dict(
            number_of_nodes=e["n"], add_cpds=e["cpds"], sufficient_recall=e["recall"],
            edge_density=e["dn"] / e["dd"], max_in_degree=e["k"], max_resampling_attempts=e["tries"],
        )
        nd, nu = tuple(e["nd"]), tuple(e["nu"])
        if e["kind"] == "cid":
            m = prandom.random_cid(number_of_decisions=nd[0], number_of_utilities=nu[0], **kw)
        elif e["kind"] == "macid":
            m = prandom.random_macid(agent_decisions_num=nd, agent_utilities_num=nu, **kw)
        else:
            m = prandom.random_macidbase(agent_decisions_num=nd, agent_utilities_num=nu, **kw)
        e["val"] = self.project(self.number(m))

    def rlist(self, e):
        self.seed(e)
        kw = dict(
            total_nodes_range=tuple(e["rn"]), num_decs_range=tuple(e["rdq"]), num_utils_range=tuple(e["ruq"]),
            add_cpds=e["cpds"], sufficient_recall=e["recall"], edge_density=e["dn"] / e["dd"],
        )
        if e["kind"] == "cid":
            ms = prandom.random_cids(n_cids=e["count"], **kw)
        else:
            ms = prandom.random_macids(n_macids=e["count"], **kw)
        e["val"] = [self.project(self.number(m)) for m in ms]

    def state_id(self):
        s = np.random.get_state()
        key = (random.getstate(), s[0], s[1].tobytes(), s[2:])
        return self.states.setdefault(key, len(self.states) + 1)

    def rcpd(self, e):
        self.seed(e)
        objs, calls = [], []
        for dom, seed, smooth in e["objs"]:
            kw = {}
            if dom:
                kw["domain"] = list(dom)
            if seed != -1:
                kw["seed"] = seed
            if smooth != 0:
                kw["smoothness"] = smooth / 100
            objs.append(prandom.RandomCPD(**kw))
        for k, cid, ctx, noise in e["plan"]:
            for _ in range(noise):
                random.random()
                np.random.rand()
            kw = {n: (tuple(v) if isinstance(v, list) else v) for n, v in ctx}
            if len(calls) % 2:
                kw = dict(reversed(list(kw.items())))
            s0 = self.state_id()
            try:
                res, err = objs[k - 1](**kw), ""
            except ValueError as ex:
                res, err = {}, type(ex).__name__
            s1 = self.state_id()
            calls.append([k, cid, s0, s1, [[o, num(p)] for o, p in res.items()], err])
        e["calls"] = calls
        e["objs"] = [[list(d) or [0, 1], s, sm] for d, s, sm in e["objs"]]


def main():
    src, dst = sys.argv[1:3]
    print("START", file=sys.stderr, flush=True)
    devnull = open(os.devnull, "w")
    out, sys.stdout = sys.stdout, devnull
    slow = 0
    with open(src) as f, open(dst, "w") as g:
        for line in f:
            if slow >= 3:
                break  # the sessions left over are not judged
            script = json.loads(line)
            s = Session(script)
            ev = list(s.run(script["ev"]))
            g.write(json.dumps({"sid": script["sid"], "ev": ev}) + "\n")
            g.flush()
            slow += any(e["err"] == "Timeout" for e in ev)
    sys.stdout = out


if __name__ == "__main__":
    main()
