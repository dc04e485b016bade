"""The browser interface: histories of its objects, run by node, next to runs
of the command with the same options."""
import json, os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import cli, history, opts, wasm
from common import *
from history import short

# Only what there is to read; what it should be is for the specification.
GETTERS = {
    "top": [("max_items", "num"), ("retaining_paths", "flag"), ("retained", "flag")],
    "dominators": [("max_depth", "num"), ("max_rows", "num"), ("regex", "flag")],
    "paths": [("max_depth", "num"), ("max_paths", "num"), ("descending", "flag"), ("regex", "flag")],
    "monos": [("only_generics", "flag"), ("max_generics", "num"), ("max_monos", "num"),
              ("regex", "flag")],
}
SETTERS = {c: opts.SETTERS[c] for c in GETTERS}


def build_api():
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "api-target")
    e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--locked", "-p", "twiggy-wasm-api",
                        "--target", "wasm32-unknown-unknown"],
                       cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=800)
    if p.returncode != 0:
        raise ToolError("building twiggy-wasm-api failed:\n" + p.stdout[-4000:])
    return os.path.join(e["CARGO_TARGET_DIR"], "wasm32-unknown-unknown", "debug", "twiggy_wasm_api.wasm")


def node(api, jobs, d):
    n = max(1, min(4, len(jobs)))
    js = os.path.join(ROOT, "lib", "browser.js")

    def one(k):
        a, b = os.path.join(d, "jobs%d.json" % k), os.path.join(d, "out%d.json" % k)
        with open(a, "w") as f:
            json.dump(jobs[k::n], f)
        p = subprocess.run(["node", "--stack-size=3000", js, api, a, b], stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=700)
        if p.returncode != 0:
            raise ToolError("node: " + p.stdout.decode("utf-8", "replace")[-2000:])
        with open(b) as f:
            return json.load(f)
    with ThreadPoolExecutor(n) as ex:
        parts = list(ex.map(one, range(n)))
    out = [None] * len(jobs)
    for k in range(n):
        for i, r in enumerate(parts[k]):
            out[k + i * n] = r
    return out


class Session:
    """Events in order: ("api", command for node, event) and ("cli", words)."""

    def __init__(self):
        self.steps = []
        self.now = {}

    def parse(self, mod, file):
        self.steps.append(("api", ["parse", mod, file], None))

    def new(self, cmd, slot):
        self.now[slot] = [cmd, {}, []]
        self.steps.append(("api", ["new", cmd, slot, GETTERS[cmd]],
                           {"op": "new", "slot": slot, "kind": cmd, "key": "", "v": 0}))

    def set(self, cmd, slot, key, v):
        n = self.now[slot]
        if key == "add_function":
            n[2].append(v)
        else:
            n[1][key] = v
        self.steps.append(("api", ["set", cmd, slot, key, v, GETTERS[cmd]],
                           {"op": "set", "slot": slot, "kind": cmd, "key": key, "v": v}))

    def run(self, cmd, slot, mod):
        self.steps.append(("api", ["run", cmd, slot, mod],
                           {"op": "run", "slot": slot, "mod": mod, "key": "", "v": 0}))

    def cli(self, words, mod, file):
        self.steps.append(("cli", words, {"op": "cli", "mod": mod, "slot": "", "words": words,
                                          "key": "", "v": 0, "file": file}))


def words(rng, cmd, setting, items):
    """Some command line with these settings, those that are not there left out."""
    ch = []
    for key, v in setting.items():
        nm = {"max_items": ["-n"], "retaining_paths": ["-r", "--retaining-paths"],
              "retained": ["--retained"], "max_depth": ["-d"], "max_rows": ["-r"],
              "max_paths": ["-r"], "descending": ["--descending"], "regex": ["--regex"],
              "only_generics": ["-g", "--only-generics"], "max_generics": ["-m", "--max-generics"],
              "max_monos": ["-n", "--max-monos"]}[key]
        nm = rng.choice(nm)
        if isinstance(v, bool):
            if v:
                ch.append([nm])
        elif nm.startswith("--"):
            ch.append(rng.choice([[nm, v], [nm + "=" + v]]))
        else:
            ch.append(rng.choice([[nm, v], [nm + v]]))
    rng.shuffle(ch)
    return [cmd] + [w for c in ch for w in c] + ["--", "in.wasm"] + items


def random_session(rng, d, k):
    s = Session()
    files = {}
    for m in ("a", "b"):
        b = wasm.Module(rng, odd=rng.random() < 0.2).encode()
        if rng.random() < 0.06:
            b = wasm.break_bytes(rng, b)
        files[m] = os.path.join(d, "%d%s.wasm" % (k, m))
        with open(files[m], "wb") as f:
            f.write(b)
    names = ["f", "main", "a", "code[0]", "type[0]", "data[0]", "", "a|b", "^c", "(", "é", "f|main", "m.*n",
             "[a-z]", "code.*", "map", "vec"]

    def change(c, sl):
        key, kind = rng.choice(SETTERS[c])
        v = (rng.choice(["0", "1", "2", "3", "5", "10", "4294967295", "2147483648"]) if kind == "num"
             else not s.now[sl][1].get(key, False) if kind == "flag" and rng.random() < 0.7
             else rng.random() < 0.6 if kind == "flag" else rng.choice(names))
        s.set(c, sl, key, v)
    for m in ("a", "b")[:rng.choice([1, 2])]:
        s.parse(m, files[m])
        mods = m
    slots = []
    for _ in range(rng.randint(6, 14)):
        r = rng.random()
        if not slots or r < 0.2:
            c = rng.choice(sorted(GETTERS))
            slots.append((c, "s%d" % rng.randrange(3)))
            slots = [x for x in slots[:-1] if x[1] != slots[-1][1]] + slots[-1:]
            s.new(*slots[-1])
        elif r < 0.6:
            change(*rng.choice(slots))
        else:
            c, sl = rng.choice(slots)
            m = rng.choice("ab"[:1 + (mods == "b")])
            order = rng.random() < 0.5
            if order:
                s.run(c, sl, m)
            s.cli(words(rng, c, s.now[sl][1], s.now[sl][2]), m, files[m])
            if not order or rng.random() < 0.3:
                s.run(c, sl, m)
            # The same again, but for one setting, on what is loaded already.
            for _ in range(rng.choice([0, 1, 2])):
                change(c, sl)
                s.run(c, sl, m)
                s.cli(words(rng, c, s.now[sl][1], s.now[sl][2]), m, files[m])
    return s


def known():
    """A module in which the names that the model selects mean something."""
    u = wasm.Enc(None).u

    def sec(i, b):
        return bytes([i]) + u(len(b)) + b

    def body(b):
        return u(len(b) + 2) + b"\0" + b + b"\x0b"
    names = [b"f", b"a|b", b"a", b"b", b"ff<u8>", b"ff<u16>", b"g<f>", b"g<a|b>"]
    calls = [[1, 2], [3], [4, 5], [4], [6], [7, 0], [2], []]
    n = u(len(names))
    nm = n + b"".join(u(i) + u(len(x)) + x for i, x in enumerate(names))
    return (b"\0asm\1\0\0\0" + sec(1, b"\1\x60\0\0") + sec(3, n + b"\0" * len(names))
            + sec(7, b"\2\1x\0\0\1y\0\5")
            + sec(10, n + b"".join(body(b"".join(b"\x10" + u(c) for c in cs) + b"\1" * (3 * i % 7))
                                   for i, cs in enumerate(calls)))
            + sec(0, b"\4name\1" + u(len(nm)) + nm))


KNOWN = known()


def enumerated(rng, d, emitted, per=25):
    """Every history of the model on one module, with its command line."""
    ss = []
    for k in range(0, len(emitted), per):
        s = Session()
        f = os.path.join(d, "e%d.wasm" % k)
        with open(f, "wb") as o:
            o.write(KNOWN if k % 2 else wasm.Module(rng).encode())
        s.parse("a", f)
        for e in emitted[k:k + per]:
            s.new(e["cmd"], "s")
            for a in e["acts"]:
                s.set(e["cmd"], "s", a["key"], a["v"])
                s.run(e["cmd"], "s", "a")
            s.cli(e["words"], "a", f)
        ss.append(s)
    return ss


def observe(run, ss, d):
    """Run the sessions; (sessions for the specification, their origin)."""
    api, exe = run.api(), run.cli()
    reps = node(api, [[c for how, c, _ in s.steps if how == "api"] for s in ss], d)
    jobs = []
    for s in ss:
        for how, w, e in s.steps:
            if how == "cli":
                at = w.index("in.wasm")
                jobs.append(w[:1] + ["-f", "json", "--mode", "wasm"] + w[1:at] + [e["file"]] + w[at + 1:])
    outs = iter(history.cli_outputs(exe, jobs, d))
    res, origin = [], []
    for s, rep in zip(ss, reps):
        rep = iter(rep)
        ev = []
        dead = False
        for how, w, e in s.steps:
            if how == "cli":
                _, o, err, rc = next(outs)
                val = short(o.decode("utf-8", "replace")) if rc == 0 else "error" if rc == 1 and not o \
                    else "status %d" % rc
                ev.append({k: v for k, v in e.items() if k != "file"} | {"val": val, "obs": {}})
                continue
            r = next(rep)
            if w[0] == "reset":
                dead = False
            if dead:
                continue
            if e is None:                       # parse
                if "err" in r:
                    dead = True
                    bad = w[1]
                    ev.append({"op": "new", "slot": "?", "kind": "top", "key": "", "v": 0, "val": "",
                               "mod": bad, "obs": {"max_items": "4294967295", "retaining_paths": False,
                                                   "retained": False}})
                    ev.append({"op": "run", "slot": "?", "mod": bad, "key": "", "v": 0, "val": "error",
                               "obs": {}})
                    ev.append({"op": "cli", "slot": "", "mod": bad, "key": "", "v": 0, "obs": {},
                               "words": ["top", "in.wasm"], "val": "broken", "file": w[2]})
                continue
            e = dict(e, obs=r.get("obs", {}), val="")
            if w[0] == "run":
                e["val"] = short(bytes.fromhex(r["out"]).decode("utf-8", "replace")) if "out" in r else "error"
                e["note"] = r.get("err", "")
                dead = "err" in r
            elif "err" in r:
                dead = True
            ev.append(e)
        # Modules that the interface did not take must be refused by the command.
        for e in ev:
            if e["op"] == "cli" and e["val"] == "broken":
                f = e.pop("file")
                _, o, err, rc = history.cli_outputs(exe, [["top", "--mode", "wasm", f]], d)[0]
                e["val"] = "error" if rc == 1 and not o else "status %d" % rc
        res.append({"ev": ev})
        origin.append({"steps": [[h, w] for h, w, _ in s.steps]})
    return res, origin


def check(run, rng, n, emitted):
    d = cli.scratch()
    try:
        if emitted:
            res, origin = observe(run, enumerated(rng, d, emitted), d)
            yield "histories of the model", res, origin
        res, origin = observe(run, [random_session(rng, d, k) for k in range(n)], d)
        yield "random histories", res, origin
    finally:
        shutil.rmtree(d, ignore_errors=True)
