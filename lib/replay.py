"""Histories that are run against the real code through the harness, and
recorded as sessions for the trace specification."""
import random
from common import Nm, hx, session
import project
import graphs as G


def run_cmd(slot, other, argv, fmts="text,json,csv"):
    return "run %s %s %s %s" % (slot, other, fmts, " ".join(hx(a) for a in argv))


class History:
    """Commands for one harness session and how to read the replies."""

    def __init__(self, what):
        self.what = what
        self.cmds = []
        self.graphs = []
        self.readers = []          # (command index, function(reply) -> event or None)
        self.unit = 1              # what the sizes in the graphs are multiples of

    def add(self, cmd, reader=None):
        self.cmds.append(cmd)
        if reader:
            self.readers.append((len(self.cmds) - 1, reader))

    def graph(self, g, slot, rng=None):
        self.graphs.append(g)
        for c in g.build(slot, rng, self.unit):
            self.add(c)

    def request(self, op, argv, extra, slot="A", other="-", pos=None):
        self.add(run_cmd(slot, other, argv),
                 lambda r: project.event(op, r, extra, pos))

    def formats(self, op, extra, pos, limit=3000):
        """Also judge the raw outputs of the request added last."""
        def f(r):
            e = project.formats_event(op, r, project.event(op, r, dict(extra), pos))
            return e if e and sum(map(len, e["raw"].values())) <= limit else None
        self.readers.append((len(self.cmds) - 1, f))

    def session(self, replies):
        ev = []
        project.UNIT = self.unit
        for i, f in self.readers:
            e = f(replies[i])
            if e is not None:
                e["cmd"] = i
                ev.append(e)
        project.UNIT = 1
        return session([g.record() for g in self.graphs], ev)


# ---------------------------------------------------------------- graph queries

def failed(r):
    if "panic" in r or "crash" in r:
        return "PANIC"
    return r.get("err", "")


def base(op, r, **more):
    ev = {"op": op, "g": 1, "g2": 1, "err": failed(r), "bad": ""}
    if ev["err"]:
        ev["note"] = str(r)[:300]
    ev.update(more)
    return ev


def ident(p):
    return (p[0] << 32) | p[1]


def read_dump(g):
    pos = g.serial()

    def f(r):
        ev = base("dump", r)
        if not ev["err"]:
            items = r["items"]
            ev.update(n=len(items), size=project.units(r["size"]), name=[Nm(i[3]) for i in items],
                      sz=[project.units(i[2]) for i in items], kind=[i[1] for i in items],
                      gen=[Nm(i[4]) if i[4] is not None else 0 for i in items],
                      succ=[[pos.get(ident(x), 0) for x in e] for e in r["edges"]])
            if [pos.get(ident(i[0]), 0) for i in items] != list(range(1, g.n + 1)):
                ev["n"] = -1                       # not the items in identifier order
        return ev
    return f


def read_retained(g):
    def f(r):
        ev = base("retained", r)
        if not ev["err"]:
            ev["r"] = [project.units(x) for x in r["retained"]]
        return ev
    return f


def read_idoms(g):
    pos = g.serial()

    def f(r):
        ev = base("idoms", r)
        if not ev["err"]:
            ev["i"] = [0 if x is None else pos.get(ident(x), -1) for x in r["idoms"]]
        return ev
    return f


def read_lists(g, op, key, field):
    pos = g.serial()

    def f(r):
        ev = base(op, r)
        if not ev["err"]:
            ev[field] = [[pos.get(ident(x), -1) for x in e] for e in r[key]]
        return ev
    return f


def query(h, g, slot, which, rng=None):
    if which == "dump":
        h.add("dump " + slot, read_dump(g))
    elif which == "retained":
        h.add("retained " + slot, read_retained(g))
    elif which == "idoms":
        h.add("idoms " + slot, read_idoms(g))
    elif which == "domtree":
        h.add("domtree " + slot, read_lists(g, "domtree", "domtree", "t"))
    elif which == "preds":
        h.add("preds " + slot, read_lists(g, "preds", "preds", "p"))
    elif which == "byname":
        nm = rng.choice(g.name + ["nosuch"])
        pos = g.serial()

        def f(r):
            ev = base("byname", r, n=Nm(nm))
            if not ev["err"]:
                ev["v"] = 0 if r["id"] is None else pos.get(ident(r["id"]), -1)
            return ev
        h.add("byname %s %s" % (slot, hx(nm)), f)


# ------------------------------------------------------------------- histories

def ir_history(rng, ops, lo, hi, reqs, style=None, queries=(), cap=500, pool=None,
               select=False, formats=False, huge=False):
    h = History("builder")
    while True:
        g = G.random_graph(rng, lo, hi, style, pool=pool)
        if "paths" not in ops:
            break
        if G.simple_paths(g.succ, cap) < cap and G.simple_paths(G.reversed_graph(g.succ), cap) < cap:
            break
    g2 = None
    if "diff" in ops:
        g2 = G.derived_graph(rng, g)
    if huge:
        h.unit = G.huge(rng, [g] + ([g2] if g2 else []))
    h.graph(g, "A", rng)
    if g2:
        h.graph(g2, "B", rng)
    pos = g.serial()
    todo = [("q", q) for q in queries] + [("r", rng.choice(ops)) for _ in range(reqs)]
    rng.shuffle(todo)
    for t, x in todo:
        if t == "q":
            query(h, g, "A", x, rng)
        else:
            argv, ex = G.request(rng, x, g, g2, select)
            h.request(x, argv, ex, "A", "B" if x == "diff" else "-", pos)
            if formats:
                h.formats(x, ex, pos)
    return h


def model_history(rng, em, op, reqs, queries=()):
    """Requests about a graph of the model MCGraph."""
    h = History("model")
    g = G.model_graph(rng, em)
    h.graph(g, "A", rng)
    for q in ("dump",) + tuple(queries):
        query(h, g, "A", q, rng)
    for _ in range(reqs):
        argv, ex = G.request(rng, op, g)
        h.request(op, argv, ex, "A", "-", g.serial())
    return h


def parsed_history(rng, g, g2, op, reqs, queries=()):
    """Requests about what the parser made of a module."""
    h = History("parsed")
    h.graph(g, "A")
    if op == "diff":
        h.graph(g2, "B")
    for q in ("dump",) + tuple(queries):
        query(h, g, "A", q, rng)
    for _ in range(reqs):
        argv, ex = G.request(rng, op, g, g2)
        h.request(op, argv, ex, "A", "B" if op == "diff" else "-", g.serial())
    return h


def far_history(rng):
    """Reference chains of more items than fit in a byte."""
    h = History("far")
    n = rng.choice([260, 290])
    g = G.random_graph(rng, n, n, "deep", pool=lambda r, n: [("f%d" % i, None) for i in range(n)])
    if sum(map(len, g.succ)) > n + 60 or G.simple_paths(g.succ, 60000) >= 60000:
        return far_history(rng)
    h.graph(g, "A", rng)
    for _ in range(4):
        desc = rng.random() < 0.5
        some = [g.name[rng.randrange(n)] for _ in range(rng.choice([1, 1, 2]))]
        d = rng.choice([255, 256, 257, 300, 4294967295])
        argv = ["paths", "in.wasm"] + some + ["-d", str(d)] + (["--descending"] if desc else [])
        ex = {"sel": {"regex": False, "bad": False, "args": some}, "d": G.lim(d), "r": 10, "desc": desc}
        h.request("paths", argv, ex, "A", "-", g.serial())
    return h


def select_history(rng, ps, ops):
    """Requests that select by the given patterns, one each."""
    n = rng.randint(6, 12)
    while True:
        g = G.random_graph(rng, n, n, "sparse", pool=G.model_words)
        if G.simple_paths(g.succ, 300) < 300 and G.simple_paths(G.reversed_graph(g.succ), 300) < 300:
            break
    g2 = G.derived_graph(rng, g)
    h = History("patterns")
    h.graph(g, "A", rng)
    h.graph(g2, "B", rng)
    for k, p in enumerate(ps):
        op = rng.choice(ops)
        two = [p] if rng.random() < 0.6 else [p, rng.choice(ps)]
        argv, ex = G.request(rng, op, g, g2, G.model_selection(rng, two))
        h.request(op, argv, ex, "A", "B" if op == "diff" else "-", g.serial())
    return h


def names_history(rng, names, ops, reqs):
    """Items with the given names, and some of them as instantiations."""
    def pool(rng, n):
        return [(w + "::h0123456789abcdef", w) if w and rng.random() < 0.25 else (w, None)
                for w in names]
    return ir_history(rng, ops, len(names), len(names), reqs, cap=60, pool=pool, formats=True)


def inventory_history(rng, em, op, reqs):
    h = History("model")
    g, g2 = G.inventory_graph(rng, em["old"]), G.inventory_graph(rng, em["new"])
    h.graph(g, "A", rng)
    h.graph(g2, "B", rng)
    for _ in range(reqs):
        argv, ex = G.request(rng, op, g, g2)
        h.request(op, argv, ex, "A", "B" if op == "diff" else "-", g.serial())
    return h


# --------------------------------------------------------------------- modules

def wasm_session(data, replies, focus):
    """replies: to `parse` and `dump`."""
    p, d = replies[0], replies[1]
    o = {"err": "", "size": 0, "sz": [], "nm": [], "kind": [], "succ": []}
    bad = failed(p) or failed(d)
    if bad:
        o["err"] = bad
    else:
        items = d["items"]
        pos = {tuple(it[0]): i + 1 for i, it in enumerate(items)}
        o.update(size=project.clamp(d["size"]), sz=[project.clamp(i[2]) for i in items],
                 nm=[list(i[3].encode("utf-8")) for i in items], kind=[i[1] for i in items],
                 succ=[sorted({pos.get(tuple(x), 0) for x in e}) for e in d["edges"]])
    return {"bytes": list(data), "obs": o, "focus": list(focus)}


def wasm_cmds(data):
    return ["parse A x" + data.hex(), "dump A"]
