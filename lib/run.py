"""Runs of the real command that meet faults: missing, broken and unreadable
inputs, destinations that cannot be opened or filled, bad options."""
import os, resource, shutil, signal, subprocess, tempfile
from concurrent.futures import ProcessPoolExecutor
from common import CORES, hx, run_harness
import dwarf
import replay
import wasm
from cli import scratch

NOBODY = 65534
OPS1 = ["top", "garbage", "dominators", "paths", "monos"]
HEADLEN = 6


def reader(mode, name, head):
    base = name.rsplit("/", 1)[-1]
    ext = base.rsplit(".", 1)[1] if "." in base[1:] and base != ".." else None
    if mode == "wasm":
        return "wasm"
    if mode == "dwarf":
        return "object"
    return "wasm" if ext == "wasm" or head[:4] == b"\0asm" else "object"


class Plan:
    """One run: its directory, what is in it, and what the run meets."""

    def __init__(self, rng, cfg, root, k, denied):
        self.cfg = dict(cfg)
        self.dir = os.path.join(root, str(k))
        os.mkdir(self.dir)
        self.rng, self.user, self.stdin = rng, None, None
        self.links = []
        names, self.blobs = [], []
        for j, i in enumerate(cfg["ins"]):
            nm, b = self.input(j, i, denied)
            names.append(nm)
            self.blobs.append(b)
        self.names = names
        two = len(names) == 2
        fmt = rng.choice(["text", "json", "csv"])
        op = "diff" if two else rng.choice(["paths", "dominators", "monos"] if cfg["ana"] == "bad" else OPS1)
        fl = []
        if cfg["ana"] == "bad":
            fl = [rng.choice(["(", "a[", "*", "x{2"]), "--regex"]
        elif op == "top":
            fl = rng.choice([[], ["--retained"], ["-n", "4"]])
        elif op == "paths":
            fl = ["-d", "2"]
        self.request = [op] + names + fl + ["-f", fmt]
        self.fmt = fmt
        argv = list(self.request)
        self.path = None
        if cfg["dest"] == "path":
            self.path = self.place(cfg["place"], names, denied)
            argv += rng.choice([["-o", self.path], ["-o" + self.path]])
        elif rng.random() < 0.2:
            argv += ["-o", "-"]
        if cfg["mode"] != "auto" or rng.random() < 0.2:
            argv += ["--mode", cfg["mode"]]
        if cfg["opts"] == "bad":
            argv = rng.choice([
                argv + ["--no-such-flag"], ["nosuch"] + argv[1:], [argv[0]], argv[1:],
                argv[:-2] + ["-f", "yaml"] if cfg["dest"] != "path" else argv + ["-Q"],
                argv + (["-n", "many"] if op in ("top", "garbage", "monos", "diff") else ["-d", "x"]),
                argv + ["--regexp"], ["--output"], ["help", "nosuch"], []])
        elif cfg["opts"] == "help":
            argv = rng.choice([["--help"], ["-h"], ["help"], ["--version"], ["-V"], [op, "--help"],
                               ["help", op], argv + ["--help"]])
        self.argv = argv

    def input(self, j, i, denied):
        rng = self.rng
        isw = bytes(i["head"][:4]) == b"\0asm"
        b = self.content(isw)
        nm = "in%d." % j + ("wasm" if bytes(i["name"]).endswith(b"wasm") else rng.choice(["o", "elf", "wasm.o"]))
        if rng.random() < 0.2:
            nm = rng.choice(["in%d.wasm", "in%d", "in%d.WASM", ".in%d", "in%d.wasm.bak", "in%dwasm", "in%d.o",
                             "in.%d.wasm", "in%d.", "in%d. wasm", "é%d.wasm"]) % j
        good = i["wasm"] or i["object"]
        if not good:                                # broken in either way
            b = b[:rng.randint(9, max(10, len(b) - 1))] if rng.random() < 0.5 else b + b"\xff"
        if not i["there"]:
            how = rng.choice(["missing", "directory", "gone"] + (["denied"] if denied else []))
            if how == "directory":
                os.mkdir(os.path.join(self.dir, nm))
            elif how == "denied":
                self.write(nm, b, 0o000)
                self.user = NOBODY
            elif how == "gone":
                nm = "nodir/" + nm
            return nm, None
        if rng.random() < 0.1:
            os.makedirs(os.path.join(self.dir, "sub.wasm"), exist_ok=True)
            nm = "sub.wasm/" + nm
        if rng.random() < 0.15 and "/" not in nm:   # a link to a file of another name
            real = "real%d" % j + rng.choice([".wasm", "", ".o", ".WASM"])
            self.write(real, b, 0o644)
            if self.cfg["place"] != "input":
                os.symlink(real, os.path.join(self.dir, nm))
                return nm, b
        self.write(nm, b, 0o644)
        return nm, b

    def content(self, isw):
        rng = self.rng
        if isw and rng.random() < 0.06:             # a report larger than any buffer
            return chain(rng.choice([300, 700, 1500]))
        return (wasm.Module(rng, small=rng.random() < 0.5).encode() if isw
                else dwarf.encode(rng, dwarf.small_units(rng), plain_elf(rng))[0])

    def write(self, nm, b, perm):
        p = os.path.join(self.dir, nm)
        with open(p, "wb") as f:
            f.write(b)
        os.chmod(p, perm)

    def place(self, p, names, denied):
        rng = self.rng
        if p == "new":
            return "report"
        if p in ("old", "longer"):
            self.write("report", b"old report\n" * (1 if p == "old" else 20000), 0o644)
            return "report"
        if p == "link":
            self.write("target", b"old target\n" * 50, 0o644)
            os.symlink("target", os.path.join(self.dir, "report"))
            return "report"
        if p == "input":
            return names[-1]
        if p == "full":
            # By way of a link, so that whatever replaces it stays in here.
            os.symlink("/dev/full", os.path.join(self.dir, "report"))
            return "report"
        if p == "nodir":
            return "missing/report"
        if p == "isdir":
            os.mkdir(os.path.join(self.dir, "report"))
            return "report"
        if p == "denied" and denied:
            self.write("report", b"precious\n", 0o444)
            self.user = NOBODY
            return "report"
        self.write("plain", b"a file\n", 0o644)     # under-file
        return "plain/report"

    # ---------------------------------------------------------------- running

    def job(self, exe):
        c = self.cfg
        return {"exe": exe, "argv": self.argv, "dir": self.dir, "user": self.user, "path": self.path,
                "sink": c["place"] if c["dest"] == "stdout" else "pipe",
                "cap": c["cap"] if c["place"] not in ("closed", "full") else -1}


def plain_elf(rng):
    return "macho" if rng.random() < 0.1 else None


def snapshot(d):
    res = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            res[os.path.relpath(os.path.join(r, x), d)] = "dir"
        for x in fs:
            p = os.path.join(r, x)
            if os.path.islink(p):
                res[os.path.relpath(p, d)] = "-> " + os.readlink(p)
            else:
                with open(p, "rb") as f:
                    res[os.path.relpath(p, d)] = f.read()
    return res


def go(j):
    """Runs one job; what was observed."""
    d = j["dir"]
    before = snapshot(d)
    cap = j["cap"]
    def limits():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        if cap >= 0:
            resource.setrlimit(resource.RLIMIT_FSIZE, (cap, cap))
    sink = j["sink"]
    more = {}
    if j["user"] is not None:
        more = {"user": j["user"], "group": j["user"], "extra_groups": []}
    stdout, tmp = subprocess.PIPE, None
    if sink == "closed":
        r, w = os.pipe()
        os.close(r)
        stdout = w
    elif sink == "full":
        stdout = os.open("/dev/full", os.O_WRONLY)
    elif sink == "file":
        tmp = tempfile.TemporaryFile()
        stdout = tmp
    try:
        p = subprocess.Popen([j["exe"]] + j["argv"], cwd=d, stdin=subprocess.DEVNULL, stdout=stdout,
                             stderr=subprocess.PIPE, preexec_fn=limits, **more)
        try:
            out, err = p.communicate(timeout=j.get("timeout", 60))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            rc = -99
    finally:
        if isinstance(stdout, int) and stdout >= 0:
            os.close(stdout)
    if tmp:
        tmp.seek(0)
        out = tmp.read()
        tmp.close()
    after = snapshot(d)
    res = {"rc": rc, "out": out or b"", "err": err, "before": before, "after": after}
    return res


def run_jobs(jobs):
    with ProcessPoolExecutor(CORES) as ex:
        return list(ex.map(go, jobs, chunksize=8))


def prefix_len(got, want):
    return len(got) if want[:len(got)] == got else -2


HELP = (b"USAGE:", b"twiggy ", b"twiggy-")


def observe(plan, r, report):
    """The observation, and the size of the report the machine is to know."""
    c = plan.cfg
    o = {"status": r["rc"], "err": bool(r["err"]), "file": -1, "out": 0, "others": 0}
    if c["opts"] == "help":
        report = r["out"] if any(h in r["out"] for h in HELP) else b"help"
    o["out"] = prefix_len(r["out"], report)
    own = set()
    if c["dest"] == "path" and c["place"] == "full":
        own = {"report"}
        o["file"] = 0 if r["after"].get("report") == "-> /dev/full" else -2
    elif c["dest"] == "path":
        own = {plan.path, "target"} if c["place"] == "link" else {plan.path}
        f = "target" if c["place"] == "link" else plan.path
        b, a = r["before"].get(f), r["after"].get(f)
        if a == b:
            # Not touched, unless it holds the report all the same.
            o["file"] = -1
            if isinstance(a, bytes) and a == report and r["rc"] == 0:
                o["file"] = len(a)
        elif isinstance(a, bytes):
            o["file"] = prefix_len(a, report)
        else:
            o["file"] = -2
        if c["place"] == "link" and r["after"].get("report") != "-> target":
            o["file"] = -2
    for x in set(r["before"]) | set(r["after"]):
        if x not in own and r["before"].get(x) != r["after"].get(x):
            o["others"] += 1
    return o, len(report)


def realise(run, rng, cfgs, label):
    """Realise abstract configurations with the real command, and judge."""
    exe, har = run.cli(), run.harness()
    root = tempfile.mkdtemp(prefix="twrun")
    try:
        os.chmod(root, 0o755)
        mine = os.path.join(root, "twiggy")
        shutil.copy(exe, mine)
        os.chmod(mine, 0o755)
        try:
            denied = subprocess.run([mine, "--version"], user=NOBODY, group=NOBODY, extra_groups=[],
                                    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
        except (OSError, subprocess.SubprocessError):
            denied = False
        run.extra["runs as another user"] = denied
        plans = [Plan(rng, c, root, k, denied) for k, c in enumerate(cfgs)]
        # What the library makes of the same contents.
        cmds = []
        for p in plans:
            c = []
            for s, (n, b) in enumerate(zip(p.names, p.blobs)):
                f = os.path.join(p.dir, n)
                c.append("parse W%d %s" % (s, "x" + (b or b"").hex()))
                neutral = os.path.join(root, "o%d" % len(cmds) + str(s))
                with open(neutral, "wb") as g:
                    g.write(b or b"")
                c.append("parsefile O%d %s %s" % (s, hx("dwarf"), hx(neutral)))
            slots = [("W" if b is None or reader(p.cfg["mode"], n, b) == "wasm" else "O") + str(s)
                     for s, (n, b) in enumerate(zip(p.names, p.blobs))]
            c.append(replay.run_cmd(slots[0], slots[1] if len(slots) > 1 else "-", p.request, p.fmt))
            cmds.append(c)
        rep = run_harness(har, cmds)
        # A limit on the destination in terms of the real report.
        reports = []
        for p, r in zip(plans, rep):
            last = r[-1]
            t = last.get("out", {}).get(p.fmt, {}).get("ok") if "out" in last else None
            report = t.encode() if t is not None else b""
            reports.append(report)
            c = p.cfg
            if c["cap"] >= 0 and c["place"] not in ("closed", "full"):
                n, L = len(report), c["len"]
                c["cap"] = (n if c["cap"] >= L else 0 if c["cap"] == 0 or n == 0 else n - 1
                            if c["cap"] == L - 1 else rng.randint(1, n))
        jobs = [p.job(mine) for p in plans]
        seen = run_jobs(jobs)
        ss, origin = [], []
        for p, r, s, report in zip(plans, rep, seen, reports):
            c = p.cfg
            o, c["len"] = observe(p, s, report)
            c["ins"] = [{"there": b is not None, "name": list(n.encode()),
                         "head": list((b or b"")[:HEADLEN]), "wasm": "size" in r[2 * k],
                         "object": "size" in r[2 * k + 1]}
                        for k, (n, b) in enumerate(zip(p.names, p.blobs))]
            o["note"] = s["err"].decode("utf-8", "replace")[:200]
            ss.append({"cfg": c, "obs": o, "depth": 0})
            origin.append({"argv": p.argv, "stdout": s["out"].decode("utf-8", "replace")[:500],
                           "inputs": [b.hex() if b is not None else None for b in p.blobs]})
        run.sessions(ss, label, "TwRunTrace.tla", origin, judged=True)
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ------------------------------------------------- whatever the module contains

def chain(n, name="f%d"):
    """A module whose n functions call one after the other."""
    u = wasm.Enc(None).u
    def sec(i, b):
        return bytes([i]) + u(len(b)) + b
    def body(b):
        b = b"\0" + b + b"\x0b"
        return u(len(b)) + b
    code = b"".join(body(b"\x10" + u(i + 1)) for i in range(n - 1)) + body(b"")
    nm = b"".join(u(i) + u(len(x)) + x for i, x in ((i, (name % i).encode()) for i in range(n)))
    nm = b"\4name\1" + u(len(u(n) + nm)) + u(n) + nm
    return (b"\0asm\1\0\0\0" + sec(1, b"\1\x60\0\0") + sec(3, u(n) + b"\0" * n)
            + sec(7, b"\1\1a\0\0") + sec(10, u(n) + code) + sec(0, nm))


def named_module(symbols):
    """A module with one function per symbol."""
    u = wasm.Enc(None).u
    n = len(symbols)
    def sec(i, b):
        return bytes([i]) + u(len(b)) + b
    nm = b"".join(u(i) + u(len(x)) + x for i, x in enumerate(symbols))
    nm = b"\4name\1" + u(len(u(n) + nm)) + u(n) + nm
    return (b"\0asm\1\0\0\0" + sec(1, b"\1\x60\0\0") + sec(3, u(n) + b"\0" * n)
            + sec(10, u(n) + b"\2\0\x0b" * n) + sec(0, nm))


ANY_REQUEST = [["top"], ["top", "--retained"], ["garbage"], ["garbage", "--all"], ["dominators"], ["paths"],
               ["paths", "--descending"], ["monos"], ["monos", "-g"], ["paths", "-d", "3", "-r", "2"],
               ["dominators", "-d", "2"], ["top", "-n", "0"], ["monos", "-n", "0", "-m", "0"],
               ["dominators", "--regex", "."], ["paths", "--regex", "."], ["monos", "--regex", "."],
               ["dominators", "-r", "0"], ["dominators", "-d", "0"], ["paths", "-d", "0"],
               ["garbage", "--show-data-segments"]]


def survive(run, rng, cases, label):
    """cases: (module, words or None for any, how deep its references go).
    Whatever a readable module contains, every request is answered."""
    exe, har = run.cli(), run.harness()
    root = tempfile.mkdtemp(prefix="twrun")
    try:
        rep = run_harness(har, [["parse A x" + b.hex()] for b, _, _ in cases])
        jobs = []
        for k, (b, words, _) in enumerate(cases):
            d = os.path.join(root, str(k))
            os.mkdir(d)
            with open(os.path.join(d, "in.wasm"), "wb") as f:
                f.write(b)
            w = words or rng.choice(ANY_REQUEST) + ["-f", rng.choice(["text", "json", "csv"])]
            jobs.append({"exe": exe, "argv": w[:1] + ["in.wasm"] + w[1:], "dir": d, "user": None, "path": None,
                         "sink": "pipe", "cap": -1, "timeout": 60})
        seen = run_jobs(jobs)
        ss, origin = [], []
        for (b, w, depth), r, s, j in zip(cases, rep, seen, jobs):
            o = {"status": s["rc"], "err": bool(s["err"]), "file": -1, "out": len(s["out"]), "others": 0,
                 "note": s["err"].decode("utf-8", "replace")[:200]}
            # A report need not be known here: it is what was printed.
            ss.append({"cfg": {"opts": "good", "mode": "auto", "ana": "good", "dest": "stdout", "opens": True,
                               "place": "pipe", "cap": -1, "len": len(s["out"]),
                               "ins": [{"there": True, "name": list(b"in.wasm"), "head": list(b[:HEADLEN]),
                                        "wasm": "size" in r[0], "object": False}]},
                       "obs": o, "depth": depth})
            origin.append({"argv": j["argv"], "input": b.hex() if len(b) < 5000 else len(b)})
        run.sessions(ss, label, "TwRunTrace.tla", origin, judged=True)
    finally:
        shutil.rmtree(root, ignore_errors=True)
