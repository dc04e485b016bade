"""Histories in which the same request is made again: later, after other
requests, on a copy built in another order, in another process."""
import hashlib, os, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from common import CORES, hx, run_harness
import graphs as G
import replay
from replay import History, run_cmd

QUERIES = ["retained", "idoms", "domtree", "preds"]


def short(s):
    return s if len(s) < 120 else "%s… %d bytes, sha256 %s" % (
        s[:40], len(s), hashlib.sha256(s.encode("utf-8", "surrogatepass")).hexdigest())


def same(key, val, what):
    return {"op": "same", "g": 1, "g2": 1, "err": "", "bad": "", "key": key, "val": val, "what": what}


def outcome(r):
    """Everything a reply to a request contains, as one string."""
    if "out" in r:
        return " | ".join("%s:%s" % (f, short(str(o))) for f, o in sorted(r["out"].items()))
    return short(str(r))


class Asks(History):
    """A history all of whose requests are `same` events; the key is the
    request as it would be made of a fresh copy."""

    def ask(self, cmd, key, what):
        self.add(cmd, lambda r: same(key, outcome(r), what))


def fixed_requests(g):
    nm = g.name[0]
    return {
        "top": ["top", "in"], "top-retained": ["top", "in", "--retained"],
        "dominators": ["dominators", "in"], "dominators-item": ["dominators", "in", "--regex", "a|b|1"],
        "paths": ["paths", "in"], "paths-desc": ["paths", "in", "--descending"],
        "garbage": ["garbage", "in"], "monos": ["monos", "in"]}


def small(rng, hi=9, cap=60):
    pool = G.tie_names if rng.random() < 0.3 else None
    while True:
        g = G.random_graph(rng, 3, hi, pool=pool)
        if G.simple_paths(g.succ, cap) < cap and G.simple_paths(G.reversed_graph(g.succ), cap) < cap:
            return g


def schedules(rng, scheds):
    """Every schedule on its own copy of the graph, in one session."""
    g = small(rng)
    reqs = fixed_requests(g)
    h = Asks("schedules")
    for s in scheds:
        for c in g.build("A", rng):
            h.add(c)
        for x in s:
            if x in QUERIES:
                h.ask("%s A" % x, x, "schedule." + x)
            else:
                h.ask(run_cmd("A", "-", reqs[x]), x, "schedule." + x)
    return h


def random_asks(rng, steps):
    """Two processes' worth of requests on two binaries, each in two copies."""
    g = small(rng, 12)
    g2 = G.derived_graph(rng, g)
    pool = []
    for _ in range(rng.randint(3, 6)):
        op = rng.choice(["top", "garbage", "dominators", "paths", "monos", "diff", "diff"])
        argv, _ = G.request(rng, op, g, g2)
        pool.append((op, argv))
    res = []
    for part in range(2):
        h = Asks("asks")
        slots = ["A", "C"]
        for s in slots:
            for c in g.build(s, rng):
                h.add(c)
        for s in ("B", "D"):
            for c in g2.build(s, rng):
                h.add(c)
        for _ in range(steps):
            s = rng.choice(slots)
            if rng.random() < 0.2:
                q = rng.choice(QUERIES)
                h.ask("%s %s" % (q, s), q, "repeated." + q)
            else:
                op, argv = rng.choice(pool)
                other = rng.choice(["B", "D"]) if op == "diff" else "-"
                h.ask(run_cmd(s, other, argv), " ".join(argv), "repeated." + op)
        res.append(h)
    return res


def cli_outputs(exe, jobs, cwd):
    """[(argv, stdout, stderr, status)] of many runs of the real command."""
    def one(argv):
        p = subprocess.run([exe] + argv, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=120)
        return argv, p.stdout, p.stderr, p.returncode
    with ThreadPoolExecutor(CORES) as ex:
        return list(ex.map(one, jobs))
