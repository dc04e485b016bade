"""Random item graphs, built through the real builder, and random requests."""
import random
from common import Nm, hx
from project import BIG

SEC = "s"
ALPHA = "abcdefg"


class Graph:
    """The abstract graph: what the harness is told to build."""

    def __init__(self):
        self.ids = []        # (sec, idx|"s"), in identifier order, meta root last
        self.name = []       # shown names
        self.raw = []        # names handed to the builder
        self.gen = []        # generic or None
        self.sz = []
        self.kind = []
        self.root = []
        self.succ = []       # lists of positions (0-based), sorted
        self.size = 0

    @property
    def n(self):
        return len(self.ids)

    def record(self):
        return {"n": self.n, "size": self.size, "name": [Nm(x) for x in self.name],
                "sz": list(self.sz), "kind": list(self.kind),
                "gen": [Nm(x) if x is not None else 0 for x in self.gen],
                "succ": [[j + 1 for j in s] for s in self.succ]}

    def serial(self):
        """serialized identifier -> position (1-based)"""
        m = {}
        for i, (a, b) in enumerate(self.ids):
            m[(a << 32) | (0xffffffff if b == SEC else b)] = i + 1
        return m

    def build(self, slot, rng=None, unit=1):
        """Builder commands; with an rng, in a random order."""
        items, edges = [], []
        for i in range(self.n - 1):
            a, b = self.ids[i]
            items.append("item %s %d %s %s %d %s %d" % (
                slot, a, b, self.kind[i], self.sz[i] * unit, hx(self.raw[i]), self.root[i]))
            for j in self.succ[i]:
                c, d = self.ids[j]
                edges.append("edge %s %d %s %d %s" % (slot, a, b, c, d))
        if rng:
            rng.shuffle(items)
            rng.shuffle(edges)
            if edges and rng.random() < 0.5:       # the same edge twice is one edge
                edges += rng.sample(edges, min(3, len(edges)))
        return ["new %s %d" % (slot, self.size * unit)] + items + edges + ["finish %s" % slot]


META = ((1 << 32) - 1, SEC)


class Parsed(Graph):
    """A graph the real parser made of a module, as the harness reports it."""

    def __init__(self, data, dump):
        super().__init__()
        self.data = data
        items = dump["items"]
        at = {tuple(it[0]): k for k, it in enumerate(items)}
        self.ids = [tuple(SEC if j == 1 and x == 0xffffffff else x for j, x in enumerate(it[0]))
                    for it in items]
        self.kind = [it[1] for it in items]
        self.sz = [it[2] for it in items]
        self.name = self.raw = [it[3] for it in items]
        self.gen = [it[4] for it in items]
        self.succ = [sorted({at[tuple(x)] for x in e}) for e in dump["edges"]]
        self.size = dump["size"]

    def build(self, slot, rng=None, unit=1):
        return ["parse %s x%s" % (slot, self.data.hex())]


def names_pool(rng, n):
    """(raw, generic) pairs; short words over a small alphabet, so that
    patterns and sorting have something to bite on, and a few that look like
    instantiations."""
    r = rng.random()
    if r < 0.15:
        return tie_names(rng, n)
    if r < 0.27:
        return special_names(rng, n)
    res = []
    k = rng.random()
    gens = rng.sample(["vec", "map::get", "a::b", "core::fmt", "Box", "zip", "alloc::x"],
                      rng.randint(1, 4))
    for i in range(n):
        if rng.random() < 0.03:
            res.append(symbol(rng, ["a", "vec", "new", "core", "b1", "f_x"]))
            continue
        r = rng.random()
        if k < 0.45 and r < 0.55 or r < 0.12:
            g = rng.choice(gens)
            if rng.random() < 0.6:
                raw = "%s::h%016x" % (g, rng.getrandbits(16))
            else:
                raw = "%s<%s>" % (g, rng.choice(["u8", "T", "i32, u8", "a<b>", "str"]))
                if rng.random() < 0.3:
                    raw += rng.choice(["::new", "(int)", "::push"])
            res.append((raw, g))
        else:
            w = "".join(rng.choice(ALPHA) for _ in range(rng.randint(1, 4)))
            r = rng.random()
            if r < 0.12:
                w = w + rng.choice(["::", "$", "_", "[0]", ".", "(", " ", "*", "é", "→", "日本"]) + w[:1]
            elif r < 0.16:
                w = w * rng.choice([10, 40, 70])
            elif r < 0.2:
                w = 'data segment ".%s"' % w
            elif r < 0.23:
                w = w + rng.choice(["::hash", "::h", "::h12::g", "::help<u8>", "::h0f::"])
                res.append((w, w[:w.index("<")] if "<" in w else None))
                continue
            res.append((w, None))
    for i in range(n):                             # some names are shared
        if i and rng.random() < 0.07:
            res[i] = res[rng.randrange(i)]
    return res


def tie_names(rng, n):
    """Names that only differ in parts one might want to ignore: letter case,
    suffixes, hashes, parameters, digits, length."""
    stem = rng.choice(["core::fmt", "ab", "a::b::c", "x", "é"])
    res = []
    for _ in range(n):
        k = rng.randint(0, 99)
        x = rng.choice([stem, stem + ".llvm.%d" % k, stem + ".%d" % k, stem + "%d" % k,
                        stem + "::h%016x" % k, stem + "<%d>" % k, stem + " " * (k % 4),
                        stem.upper() if k % 2 else stem.title(), stem + "[%d]" % k,
                        stem + "_%d" % k, stem + "::h%016x.llvm.%d" % (k % 3, k),
                        stem * (k % 3 + 1), stem + "::" + chr(97 + k % 26), stem + "$%d" % k])
        g = None
        if "::h0" in x:
            g = x[:x.index("::h0")]
        elif "<" in x:
            g = x[:x.index("<")]
        res.append((x, g))
    return res


SPECIAL = ["<meta root>", "<meta root>", "garbage", "...", "... and 1 more.", "... and 2 more.",
           "Σ [1 Total Rows]", "Σ [2 Total Rows]", "Σ [0 Total Rows]", "Σ", "[1 Unreachable Items]",
           "[1 Unreachable Root]", "2 potential false-positive data segments", "summary", "name",
           "data[0]", "code[0]", "type[0]", "import x::y", 'export "f"', "wasm magic bytes",
           "code section headers", 'custom section \'name\'', "data", "0", "-", "--", "-1", "None", "null",
           "true", "Item", "Shallow Bytes", "Retained %", "items", "\"function names\" subsection",
           "arbitrary", "T", "a" * 31, "b" * 32, "c" * 63, "d" * 64, "e" * 127, "f" * 128,
           "g" * 255, "h" * 256, "i" * 400, "j" * 1000, "k" * 1025, "l" * 4100, "é" * 300]


def special_names(rng, n):
    """Names that the program uses itself, and lengths around round numbers."""
    res = rng.sample(SPECIAL, min(n, len(SPECIAL)))
    res += ["%s %d" % (rng.choice(SPECIAL[:12]), i) for i in range(n - len(res))]
    rng.shuffle(res)
    return [(x, None) for x in res]


SYMBOLS = {}        # what a symbol is shown as, when it names a function
SYMBOL = {}         # and back


def symbol(rng, words):
    """(symbol, generic) of a function with one of these words in its name."""
    a = [rng.choice(words) or "q" for _ in range(rng.randint(1, 3))]
    pre = "".join("%d%s" % (len(x), x) for x in a)
    k = rng.random()
    if k < 0.6:
        h = "h%016x" % rng.getrandbits(rng.choice([1, 64]))
        raw, gen = "_ZN" + pre + "17" + h + "E", "::".join(a)
        SYMBOLS[raw] = gen + "::" + h
    elif k < 0.8:
        raw, gen = "_ZN" + pre + "Ev" if len(a) > 1 else "_Z" + pre + "v", None
        SYMBOLS[raw] = "::".join(a) + "()"
    else:
        raw, gen = "_Z" + "%d%s" % (len(a[0]), a[0]) + "IiEvv", "void " + a[0]
        SYMBOLS[raw] = "void %s<int>()" % a[0]
    SYMBOL[SYMBOLS[raw]] = raw
    return raw, gen


def shown(raw, kind):
    return SYMBOLS.get(raw, raw) if kind == "code" else raw


def near_names(rng, n):
    """Names that are prefixes, suffixes, patterns and variations of each other."""
    w = "".join(rng.choice(ALPHA) for _ in range(rng.randint(1, 3)))
    v = "".join(rng.choice(ALPHA) for _ in range(2))
    all_ = [w, w + v, v + w, w.upper(), w + ".", w + ".*", "^" + w, w + "$", "^" + w + "$",
            w + "(", "(" + w + ")", w + "[0]", "[" + w + "]", w + "|" + v, v, w + "+", w + "?",
            w + "*", "\\" + w, w + "\\d", ".*", ".", w + "{1,2}", w + " ", " " + w, w + "\n" + v,
            "é" + w, w + "é", w + "::" + v, w + "<T>", w + "<" + v + ">", v + "<T>",
            w + "::h0000000000000001", w + "::h0000000000000002", "(?i)" + w, w[:1] + "." + w[2:]]
    res = []
    for _ in range(n):
        if rng.random() < 0.1:
            res.append(symbol(rng, [w, v]))
            continue
        x = rng.choice(all_)
        g = None
        if "::h0" in x:
            g = x[:x.index("::h0")]
        elif "<" in x:
            g = x[:x.index("<")]
        res.append((x, g))
    return res


HOSTILE = ['"', "\\", ",", "\n", "\r", "\t", "\0", "\x01", "\x1f", "\x7f", "\x80", "\u2028", "\ufeff",
           "😀", "é", "日本", "'", ";", "/", "\\n", "\\u0041", '""', '","', "{", "}", "[", "]", ":",
           " ", "  ", "\b", "\f", "\v", "│", "─", "┊", "%", "#", "=", "->", "...", "\r\n"]


def hostile_names(rng, n):
    res = []
    for _ in range(n):
        k = rng.random()
        parts = [rng.choice(HOSTILE) if rng.random() < 0.6 else rng.choice(ALPHA)
                 for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6]))]
        w = "".join(parts)
        if k < 0.25 and w:
            res.append((w + "::h%016x" % rng.getrandbits(8), w))
        elif k < 0.3:
            res.append(("v<" + w + ">", "v"))
        else:
            res.append((w, None))
    return res


def sizes(rng, n):
    mode = rng.random()
    if mode < 0.08:
        return [rng.randint(0, 40)] * n
    if mode < 0.25:
        pool = [rng.randint(0, 30) for _ in range(max(1, n // 3))]
        return [rng.choice(pool) for _ in range(n)]
    if mode < 0.7:
        return [rng.choice([0, 1, 2, 7, 64, 127, 128, 255, 256, 1000]) + rng.randint(0, 40)
                for _ in range(n)]
    if mode < 0.85:
        return [rng.randint(0, 9000) for _ in range(n)]
    if mode < 0.93:
        return [rng.choice([0, 65535, 65536, 70000, 99999, 10 ** 6, 3]) for _ in range(n)]
    return [rng.choice([0, 2 ** 24 - 1, 2 ** 24, 2 ** 24 + 1, 2 ** 24 + 2, 5]) for _ in range(n)]


def random_graph(rng, lo=1, hi=12, style=None, total=None, pool=None):
    g = Graph()
    n = rng.randint(lo, hi)
    ids = set()
    while len(ids) < n:
        s = rng.choice([0, 1, 2, 3, 10, 11])
        ids.add((s, SEC) if rng.random() < 0.15 else (s, rng.randint(0, max(3, n))))
    g.ids = sorted(ids, key=lambda t: (t[0], 1 << 40 if t[1] == SEC else t[1])) + [META]
    g.kind = [rng.choice(["code"] * 5 + ["data"] * 3 + ["misc", "debug"]) for _ in range(n)]
    pairs = (pool or names_pool)(rng, n)
    for i in range(n):                              # only functions are instantiations
        if pairs[i][1] is not None and rng.random() < 0.9:
            g.kind[i] = "code"
    g.raw = [p[0] for p in pairs]
    g.name = [shown(x, k) for x, k in zip(g.raw, g.kind)] + ["<meta root>"]
    g.gen = [p[1] if k == "code" else None for p, k in zip(pairs, g.kind)] + [None]
    g.kind.append("misc")
    g.sz = sizes(rng, n) + [0]
    if sum(g.sz) > 9 * 10 ** 8:                     # TLC counts in 32 bits
        g.sz = [x // 16 for x in g.sz]
    style = style or rng.choice(["sparse", "sparse", "tree", "chain", "dense", "dag", "layers", "cyc"])
    succ = [set() for _ in range(n)]
    order = list(range(n))
    kind = rng.random()
    if style not in ("deep", "wide", "chain") or kind < 0.25:
        rng.shuffle(order)
    elif kind < 0.5:
        order.reverse()

    def edge(a, b):
        succ[a].add(b)
    if style == "sparse":
        for _ in range(rng.randint(0, 2 * n)):
            edge(rng.randrange(n), rng.randrange(n))
    elif style == "tree":
        for k in range(1, n):
            edge(order[rng.randrange(k)], order[k])
        for _ in range(rng.randint(0, 2)):
            edge(rng.randrange(n), rng.randrange(n))
    elif style == "chain":
        for k in range(1, n):
            edge(order[k - 1], order[k])
        for _ in range(rng.randint(0, 3)):
            edge(rng.randrange(n), rng.randrange(n))
    elif style == "deep":                           # a long chain, entered at the top
        k = n * 5 // 6
        short = rng.choice([0, 0, 0.2])             # shortcuts
        for a, b in zip(order[:k], order[1:k]):
            edge(a, b)
        for x in order[k:]:
            edge(order[rng.randrange(k)], x)
            if rng.random() < short:
                edge(x, order[rng.randrange(k)])
        for _ in range(rng.randint(0, 2)):
            edge(order[rng.randrange(k // 2, k)], order[rng.randrange(k)])
    elif style == "wide":
        hubs = order[:rng.randint(1, 3)]
        for x in order:
            for h in rng.sample(hubs, rng.randint(0, len(hubs))):
                edge(*rng.choice([(h, x), (h, x), (x, h)]))
    elif style == "dense":
        p = rng.uniform(0.15, 0.5)
        for a in range(n):
            for b in range(n):
                if rng.random() < p:
                    edge(a, b)
    elif style == "dag":
        p = rng.uniform(0.1, 0.4)
        for i in range(n):
            for j in range(i + 1, n):
                if rng.random() < p:
                    edge(order[i], order[j])
    elif style == "layers":
        w = rng.randint(1, 4)
        lay = [order[i:i + w] for i in range(0, n, w)]
        for a, b in zip(lay, lay[1:]):
            for x in a:
                for y in rng.sample(b, rng.randint(1, len(b))):
                    edge(x, y)
    else:                                           # cycles, entered in odd places
        k = 0
        while k < n:
            c = order[k:k + rng.randint(1, 5)]
            for x, y in zip(c, c[1:] + c[:1]):
                edge(x, y)
            k += len(c)
        for _ in range(rng.randint(0, n)):
            edge(rng.randrange(n), rng.randrange(n))
    r = rng.random()
    if r < 0.12:
        roots = set()
    elif r < 0.2:
        roots = set(range(n))
    else:
        roots = set(rng.sample(range(n), rng.randint(1, min(n, rng.choice([1, 1, 2, 3])))))
    if style in ("deep", "wide") and rng.random() < 0.8:
        roots = {order[0]}
    elif roots and rng.random() < 0.6:
        roots.add(order[0])
    g.root = [1 if i in roots else 0 for i in range(n)]
    g.succ = [sorted(s) for s in succ] + [sorted(roots)]
    t = sum(g.sz)
    g.size = total or max(1, t + rng.choice([0, 0, 8, 8, rng.randint(0, 500), -(t // 3)]))
    return g


def model_graph(rng, em, pool=None):
    """A graph the model MCGraph printed, with names, sizes and kinds of our own."""
    g = Graph()
    n = len(em["ref"])
    s = rng.choice([[0] * n, sorted(rng.choice([0, 1, 3, 10, 11]) for _ in range(n))])
    g.ids = [(s[i], i) for i in range(n)] + [META]
    pairs = (pool or names_pool)(rng, n)
    g.kind = [rng.choice(["code", "code", "data", "misc", "debug"]) for _ in range(n)] + ["misc"]
    for i in range(n):
        if pairs[i][1] is not None and rng.random() < 0.9:
            g.kind[i] = "code"
    g.raw = [x for x, _ in pairs]
    g.name = [shown(x, k) for x, k in zip(g.raw, g.kind)] + ["<meta root>"]
    g.gen = [x[1] if k == "code" else None for x, k in zip(pairs, g.kind)] + [None]
    g.sz = [rng.choice([0, 1, 2, 3, 5, 20]) for _ in range(n)] + [0]
    g.succ = [[j - 1 for j in x] for x in em["ref"]] + [[j - 1 for j in em["root"]]]
    g.root = [1 if i in g.succ[-1] else 0 for i in range(n)]
    g.size = max(1, sum(g.sz) + rng.choice([0, 8]))
    return g


def inventory_graph(rng, inv, total=None):
    """An inventory the model MCInventory printed. The first two names are
    instantiations when functions have them."""
    g = Graph()
    n = len(inv)
    g.ids = [(0, i) for i in range(n)] + [META]
    order = list(inv)
    rng.shuffle(order)
    words = [("v::h0000000000000001", "v"), ("w<u8>", "w"), ("data", None)]
    g.raw = [words[k - 1][0] for k, _ in order]
    g.kind = ["code"] * n + ["misc"]
    g.name = [shown(x, k) for x, k in zip(g.raw, g.kind)] + ["<meta root>"]
    g.gen = [words[k - 1][1] for k, _ in order] + [None]
    g.sz = [s for _, s in order] + [0]
    g.succ = [[] for _ in range(n + 1)]
    g.root = [0] * n
    g.size = max(1, sum(g.sz))
    return g


def reversed_graph(succ):
    pred = [[] for _ in succ]
    for a, s in enumerate(succ):
        for b in s:
            pred[b].append(a)
    return pred


def simple_paths(succ, cap):
    """Number of simple paths in the graph, up to a cap (paths builds them)."""
    n = len(succ)
    cnt = 0

    def go(v, seen):
        nonlocal cnt
        cnt += 1
        if cnt > cap:
            return
        for w in succ[v]:
            if w not in seen:
                go(w, seen | {w})
                if cnt > cap:
                    return
    for v in range(n):
        go(v, {v})
        if cnt > cap:
            break
    return cnt


# -------------------------------------------------------------------- requests

def limit(rng, n):
    """An -n style limit, or None to leave the flag out."""
    if rng.random() < 0.25:
        return None
    return rng.choice([0, 1, 2, 3, max(0, n - 1), n, n + 1, rng.randint(0, n + 2), 4294967295])


META_CHARS = set("\\.+*?()|[]{}^$#&-~")


def lit(ch):
    return {"t": "lit", "s": ch, "q": "1"}


def rx(p):
    if "alt" in p:
        return "|".join(rx(q) for q in p["alt"])
    out = "^" if p["l"] else ""
    for a in p["a"]:
        s = a["s"]
        if a["t"] == "lit":
            out += "\\" + s if s in META_CHARS else s
        elif a["t"] == "any":
            out += "."
        else:
            out += "[" + ("^" if a["t"] == "ncls" else "") + s + "]"
        out += "" if a["q"] == "1" else a["q"]
    return out + ("$" if p["r"] else "")


def random_pattern(rng, names):
    s = rng.choice(names)
    a, b = sorted((rng.randint(0, len(s)), rng.randint(0, len(s))))
    sub = s[a:b][:8] if rng.random() < 0.8 else s[:20]
    atoms = []
    for ch in sub:
        r = rng.random()
        if r < 0.75 or ch not in ALPHA:
            atoms.append(lit(ch))
        elif r < 0.83:
            atoms.append({"t": "any", "s": "", "q": "1"})
        elif r < 0.91:
            cs = "".join(sorted(set(ch + rng.choice(ALPHA))))
            atoms.append({"t": "cls", "s": cs, "q": "1"})
        else:
            atoms.append({"t": "ncls", "s": rng.choice(ALPHA), "q": "1"})
        if rng.random() < 0.15:
            atoms[-1] = dict(atoms[-1], q=rng.choice("?*+"))
    return {"l": rng.random() < 0.3, "r": rng.random() < 0.3, "a": atoms}


BAD_PATTERNS = ["(", "[a", "x(?", "*", "a{2,1}", "\\"]


def unlike(rng, plain):
    """Arguments that are not quite the names of items."""
    x = rng.choice(plain)
    raws = [SYMBOL[y] for y in plain if y in SYMBOL]
    res = [x[:-1], x + "x", x.upper(), x.swapcase(), " " + x, x + " ", x.strip(), x + "()", "::" + x, x + "::",
           x.split("::")[-1], x.split("::")[0], x.split("<")[0], x.split("(")[0], '"%s"' % x, "'%s'" % x,
           "`%s`" % x, x + "*", "*" + x, x[1:], x.replace("::", "."), "code[0]", "0", x.rsplit("::", 1)[0]] + raws * 6
    return [y for y in res if y and not y.startswith("-") and "\0" not in y]


def selection(rng, names, never_plain=False, plain_only=False):
    """(sel for the specification, positional arguments, flags)"""
    if callable(never_plain):                       # the caller has chosen
        return never_plain(names)
    if any(len(x) > 150 or any(ord(ch) > 0xffff for ch in x) for x in names):
        plain_only = True                           # long, or two characters to TLC
    r = rng.random() * (0.68 if plain_only else 1)
    plain = [x for x in names if x and not x.startswith("-")]
    if (r < 0.4 and not never_plain) or not plain:
        return {"regex": False, "bad": False, "args": []}, [], (
            ["--regex"] if rng.random() < 0.1 else [])
    if r < 0.68:
        args = [rng.choice(plain) for _ in range(rng.choice([1, 1, 2, 2, 3, 3, 9]))]
        if rng.random() < 0.3:
            args[rng.randrange(len(args))] = rng.choice(
                ["nosuch", "a.c", "(", "[", ".*", "^a"] + unlike(rng, plain))
        return {"regex": False, "bad": False, "args": args}, args, []
    if r < 0.72:
        if rng.random() < 0.3:                     # only well formed together
            return {"regex": True, "bad": True, "args": []}, rng.choice(
                [["(a", "b)"], ["[a", "b]"], ["a{1", "2}("], ["(", ")"]]), ["--regex"]
        args = [rng.choice(BAD_PATTERNS)]
        if rng.random() < 0.5:
            args.insert(rng.randint(0, 1), rng.choice(["a", "b+"]))
        return {"regex": True, "bad": True, "args": []}, args, ["--regex"]
    ps = [random_pattern(rng, names) for _ in range(rng.choice([1, 1, 2, 2, 3, 3, 6]))]
    if rng.random() < 0.2:
        ps[0] = {"alt": [random_pattern(rng, names) for _ in range(2)]}
    ss = [rx(p) for p in ps]
    if any(s.startswith("-") for s in ss):
        return {"regex": False, "bad": False, "args": []}, [], []
    return {"regex": True, "bad": False, "args": ps}, ss, ["--regex"]


WORDS = ["", "a", "b", ".", "aa", "ab", "ba", "bb", "a.", ".b", "b.a", "aba", "abb", "aab", "a\nb", "\n", "c",
         "xaby", "bxa"]


def model_words(rng, n):
    """Names to which the patterns of the model MCSelect mean something."""
    ws = rng.sample(WORDS, n)
    return [(w + "::h0123456789abcdef", w) if w and rng.random() < 0.4 else (w, None) for w in ws]


def model_selection(rng, ps):
    """One or two of the given patterns, or the words they are made of."""
    def sel(names):
        if rng.random() < 0.25 or any(len(x) > 150 for x in names):
            args = [w for w in rng.sample(WORDS, rng.randint(1, 3)) if w] or ["a"]
            return {"regex": False, "bad": False, "args": args}, args, []
        qs = list(ps)
        if len(qs) > 1 and rng.random() < 0.3:
            qs = [{"alt": qs}]
        return {"regex": True, "bad": False, "args": qs}, [rx(q) for q in qs], ["--regex"]
    return sel


def lim(x):
    return BIG if x is None else min(x, BIG)


def request(rng, op, g, g2=None, select=False):
    """A random request: (argv, extra event fields)."""
    names = g.name
    args, ex = [], {}
    tail = []
    if op == "top":
        n = limit(rng, g.n - 1)
        ex = {"n": lim(n), "ret": rng.random() < 0.5, "rp": rng.random() < 0.04}
        if n is not None:
            tail += ["-n", str(n)]
        if ex["ret"]:
            tail.append("--retained")
        if ex["rp"]:
            tail.append(rng.choice(["-r", "--retaining-paths"]))
    elif op == "garbage":
        n = limit(rng, rng.randint(0, g.n))
        ex = {"n": 10 if n is None else lim(n), "show": rng.random() < 0.4}
        if n is not None:
            tail += ["-n", str(n)]
        if rng.random() < 0.2:
            ex["n"] = BIG
            tail.append(rng.choice(["-a", "--all"]))
        if ex["show"]:
            tail.append("--show-data-segments")
    elif op == "dominators":
        sel, args, fl = selection(rng, names, select, g.n > 100)
        tail += fl
        d = rng.choice([None, None, 0, 1, 2, 3, 4, 10])
        r = None if rng.random() < 0.5 else limit(rng, g.n - 1)
        ex = {"sel": sel, "d": lim(d), "r": lim(r)}
        if d is not None:
            tail += ["-d", str(d)]
        if r is not None:
            tail += ["-r", str(r)]
    elif op == "paths":
        sel, args, fl = selection(rng, names, select)
        tail += fl
        d = rng.choice([None, None, 0, 1, 2, 3, 4, 11, 4294967295])
        r = rng.choice([None, None, 0, 1, 2, 3, 11])
        ex = {"sel": sel, "d": 10 if d is None else lim(d), "r": 10 if r is None else lim(r),
              "desc": rng.random() < 0.4}
        if d is not None:
            tail += ["-d", str(d)]
        if r is not None:
            tail += ["-r", str(r)]
        if ex["desc"]:
            tail.append("--descending")
    elif op == "monos":
        gens = [x for x in g.gen if x]
        sel, args, fl = selection(rng, gens + [rng.choice(names)], select)
        tail += fl
        k = len(set(gens))
        mg, mm = limit(rng, k), limit(rng, rng.randint(0, 4))
        ex = {"sel": sel, "only": rng.random() < 0.2, "mg": 10 if mg is None else lim(mg),
              "mm": 10 if mm is None else lim(mm)}
        if mg is not None:
            tail += [rng.choice(["-m", "--max-generics"]), str(mg)]
        if mm is not None:
            tail += [rng.choice(["-n", "--max-monos"]), str(mm)]
        if ex["only"]:
            tail.append(rng.choice(["-g", "--only-generics"]))
        r = rng.random()
        if r < 0.08:
            tail.append(rng.choice(["-a", "--all"]))
            ex["mg"] = ex["mm"] = BIG
        elif r < 0.14:
            tail.append("--all-generics")
            ex["mg"] = BIG
        elif r < 0.2:
            tail.append("--all-monos")
            ex["mm"] = BIG
    elif op == "diff":
        sel, args, fl = selection(rng, names + g2.name, select)
        tail += fl
        n = limit(rng, rng.randint(0, g.n + 2))
        ex = {"sel": sel, "n": 20 if n is None else lim(n), "g": 1, "g2": 2}
        if n is not None:
            tail += ["-n", str(n)]
        if rng.random() < 0.15:
            ex["n"] = BIG
            tail.append(rng.choice(["-a", "--all"]))
    argv = [op, "in.wasm"] + (["new.wasm"] if op == "diff" else [])
    if rng.random() < 0.7:
        argv += list(args) + tail
    else:
        argv = [op] + tail + argv[1:] + list(args)
    return argv, ex


def huge(rng, gs):
    """Give the graphs small sizes and return a unit by which they come close
    to the largest that 32 bits hold. Averages over up to ten items stay whole."""
    for g in gs:
        k = rng.choice([2, 9, 100])
        g.sz = [2520 * rng.randint(0, k) for _ in g.sz[:-1]] + [0]
        if rng.random() < 0.5:                      # one item is most of it
            g.sz[rng.randrange(g.n - 1)] = 2520 * k * g.n
        g.size = max(2520, sum(g.sz) + rng.choice([0, 0, 8, 2520]))
    most = (2 ** 32 - 1) // max(g.size for g in gs)
    return most if rng.random() < 0.6 else rng.randint(1, most)


def derived_graph(rng, g, total=None):
    """A changed copy of g, for diffs."""
    h = random_graph(rng, 1, max(2, g.n), total=total)
    if rng.random() < 0.15:                         # everything changes alike
        by = rng.randint(0, 9)
        for i in range(min(g.n, h.n) - 1):
            h.raw[i], h.name[i], h.kind[i], h.gen[i] = g.raw[i], g.name[i], g.kind[i], g.gen[i]
            h.sz[i] = g.sz[i] + by
        h.size = total or max(1, sum(h.sz))
        return h
    for i in range(h.n - 1):
        r = rng.random()
        if r < 0.75 and g.n > 1:
            j = rng.randrange(g.n - 1)
            h.raw[i] = g.raw[j]
            h.name[i] = g.name[j]
            h.kind[i] = g.kind[j]
            h.gen[i] = g.gen[j]
            if r < 0.25:
                h.sz[i] = g.sz[j]
            elif r < 0.4:
                h.sz[i] = g.sz[j] + rng.choice([1, -1, 5, 100]) if g.sz[j] > 0 else 3
    h.size = total or max(1, sum(h.sz) + rng.choice([0, 8]))
    return h
