"""Random command lines and setter histories."""
import random
from common import hx
import graphs as G
import project
from replay import History, base, failed

SETTERS = {
    "top": [("max_items", "num"), ("retaining_paths", "flag"), ("retained", "flag")],
    "dominators": [("max_depth", "num"), ("max_rows", "num"), ("regex", "flag")],
    "paths": [("add_function", "str"), ("max_depth", "num"), ("max_paths", "num"),
              ("descending", "flag"), ("regex", "flag")],
    "monos": [("only_generics", "flag"), ("max_generics", "num"), ("max_monos", "num")],
    "diff": [("max_items", "num"), ("regex", "flag")],
    "garbage": [("max_items", "num")],
}
# name(s), kind; only what may be written, not what it means
WRITABLE = {
    "top": [(["-n"], "num"), (["-r", "--retaining-paths"], "flag"), (["--retained"], "flag")],
    "dominators": [(["-d"], "num"), (["-r"], "num"), (["--regex"], "flag")],
    "paths": [(["-d"], "num"), (["-r"], "num"), (["--descending"], "flag"), (["--regex"], "flag")],
    "monos": [(["-g", "--only-generics"], "flag"), (["-m", "--max-generics"], "num"),
              (["-n", "--max-monos"], "num"), (["-a", "--all"], "flag"),
              (["--all-generics"], "flag"), (["--all-monos"], "flag"), (["--regex"], "flag"),
              (["-d"], "mode")],
    "diff": [(["-n"], "num"), (["-a", "--all"], "flag"), (["--regex"], "flag")],
    "garbage": [(["-n"], "num"), (["-a", "--all"], "flag"), (["--show-data-segments"], "flag")],
}
COMMON = [(["--mode"], "mode"), (["-o"], "dest"), (["-f", "--format"], "fmt")]
CMDS = list(SETTERS)
NUMS = ["0", "1", "2", "3", "4", "7", "10", "20", "+2", "007", "4294967295", "4294967294",
        "2147483648", "300", "1000000000"]
BADNUMS = ["4294967296", "-1", "x", "", "1.5", "0x10", "99999999999", "+", "1 ", "١"]


def value(rng, kind, bad):
    if kind == "num":
        return rng.choice(BADNUMS if bad else NUMS)
    if kind == "mode":
        return rng.choice(["Auto", "elf", "WASM", "wasm32", "", "auto "] if bad else ["auto", "wasm", "dwarf"])
    if kind == "fmt":
        return rng.choice(["JSON", "html", "yaml", "", "txt"] if bad else ["text", "json", "csv"])
    return rng.choice(["-", "out.txt", "dir/o.json", "o=1", "a b"])


def words(rng, cmd, items, odd=0.1, common=True):
    fl = list(WRITABLE[cmd]) + (COMMON if common else [])
    p = rng.choice([0.15, 0.35, 0.7])
    out = []
    shorts = []
    for names, kind in fl:
        for _ in range(1 if rng.random() > odd / 6 else 2):
            if rng.random() > p:
                continue
            nm = rng.choice(names)
            if kind == "flag":
                if len(nm) == 2 and rng.random() < 0.5:
                    shorts.append(nm[1])
                else:
                    out.append([nm])
                continue
            bad = rng.random() < odd / 4
            v = value(rng, kind, bad)
            if v.startswith("-") and v != "-" and not nm.startswith("--"):
                out.append([nm, v])
            elif nm.startswith("--"):
                out.append([nm + "=" + v] if rng.random() < 0.5 and v else [nm, v])
            elif v and rng.random() < 0.5:
                w = nm + rng.choice(["", "="]) + v
                if shorts and rng.random() < 0.5:
                    w = "-" + "".join(shorts) + w[1:]
                    shorts = []
                out.append([w])
            else:
                out.append([nm, v])
    if shorts:
        rng.shuffle(shorts)
        out.append(["-" + "".join(shorts)])
    r = rng.random()
    if r < odd / 5:
        out.append([rng.choice(["--nosuch", "-z", "--all", "--regex", "-x3", "--max-items=3"])])
    rng.shuffle(out)
    pos = ["in.wasm"] + (["new.wasm"] if cmd == "diff" else [])
    pos += items if "items" in POS[cmd] else []
    r = rng.random()
    if r < odd / 5 and pos:
        pos.pop()
    elif r < odd / 3:
        pos.append("more")
    res = [cmd]
    chunks = [("f", w) for w in out]
    # positional arguments keep their order; where they go among flags is free
    at = sorted(rng.randint(0, len(chunks)) for _ in pos)
    k = 0
    for i in range(len(chunks) + 1):
        while k < len(pos) and at[k] == i:
            res.append(pos[k])
            k += 1
        if i < len(chunks):
            res += chunks[i][1]
    if rng.random() < odd / 2:
        j = len(res)
        while j > 1 and res[j - 1] in pos and (j < 2 or not res[j - 2].startswith("-")):
            j -= 1
        if j < len(res):
            res.insert(rng.randint(j, len(res) - 1), "--")
    return res


POS = {"top": [], "garbage": [], "dominators": ["items"], "paths": ["items"],
       "monos": ["items"], "diff": ["items"]}


def safe(s):
    return s and not s.startswith("-") and not any(ch in G.META_CHARS for ch in s)


def item_pool(rng, names):
    """[(argument, pattern entry)]: every argument with its reading as a pattern."""
    res = []
    for s in list(names) + ["more"]:
        if safe(s):
            res.append((s, {"s": s, "bad": False,
                            "p": {"l": False, "r": False, "a": [G.lit(ch) for ch in s]}}))
    for _ in range(4):
        p = G.random_pattern(rng, names)
        s = G.rx(p)
        if s and not s.startswith("-"):
            res.append((s, {"s": s, "bad": False, "p": p}))
    if rng.random() < 0.15:
        s = rng.choice(G.BAD_PATTERNS)
        res.append((s, {"s": s, "bad": True, "p": 0}))
    rng.shuffle(res)
    return res


def observed(r):
    """The options as strings and truth values."""
    o = {}
    for k, v in r.items():
        if isinstance(v, bool):
            o[k] = v
        elif v is None:
            o[k] = "-"
        elif isinstance(v, list):
            o[k] = list(v)
        else:
            o[k] = str(v)
    return o


def ev_opt(op, r, **more):
    e = base(op, r, **more)
    e["obs"] = {} if e["err"] else observed(r)
    return e


def history(rng, g, g2, steps, odd=0.1):
    """A history over a few option slots, with requests in between."""
    h = History("options")
    h.graph(g, "A", rng)
    h.graph(g2, "B", rng)
    pos = g.serial()
    cmds = [rng.choice(CMDS) for _ in range(rng.randint(1, 2))]
    slots = [(c, "s%d" % k) for c in cmds for k in range(rng.randint(1, 2))]
    gens = [x for x in g.gen + g2.gen if x]
    pool = item_pool(rng, g.name + g2.name + gens)
    pats = list({p["s"]: p for _, p in pool}.values())
    pool = pool[:40]
    loaded = set()
    for _ in range(steps):
        c, s = rng.choice(slots)
        key = c + "/" + s
        r = rng.random()
        items = [rng.choice(pool)[0] for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))] if pool else []
        if r < 0.25:
            w = words(rng, c, items, odd)
            h.add("optload %s %s" % (s, " ".join(hx(x) for x in w)),
                  lambda rp, w=w, key=key: ev_opt("optload", rp, words=w, slot=key))
            # Whether it loads is for the specification to say.
        elif r < 0.35:
            w = words(rng, c, items, 0.6)
            h.add("optparse %s" % " ".join(hx(x) for x in w),
                  lambda rp, w=w: ev_opt("optparse", rp, words=w))
        elif r < 0.72 or key not in loaded:
            st, kind = rng.choice(SETTERS[c] + [("new", "none")]) if rng.random() < 0.9 else ("new", "none")
            if kind == "num":
                v = rng.choice([x for x in NUMS if x[0] not in "+0"] + ["0"])
                tok = v
            elif kind == "flag":
                v = rng.random() < 0.5
                tok = "1" if v else "0"
            elif kind == "str":
                if not pool:
                    continue
                v = rng.choice(pool)[0]
                tok = hx(v)
            else:
                v, tok = 0, "0"
            h.add("optset %s %s %s %s" % (c, s, st, tok),
                  lambda rp, c=c, key=key, st=st, v=v: ev_opt("optset", rp, kind=c, slot=key, key=st, v=v))
            loaded.add(key)
        else:
            h.add("runopt A %s text,json,csv %s %s" % ("B" if c == "diff" else "-", c, s),
                  lambda rp, c=c, key=key: optrun(rp, c, key, pos, pats))
    return h


def optrun(rp, c, key, pos, pats):
    e = project.event(c, rp, {}, pos)
    e.update(op="optrun", slot=key, pats=pats)
    if c == "diff":
        e.update(g=1, g2=2)
    return e


def lines(ws):
    """One history that parses every one of the command lines."""
    h = History("lines")
    for w in ws:
        h.add("optparse %s" % " ".join(hx(x) for x in w),
              lambda rp, w=w: ev_opt("optparse", rp, words=w))
    return h
