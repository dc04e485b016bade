"""Runs of the real command, in scratch directories."""
import os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from common import BUILD, CORES, hx, run_harness, session
import history
import replay
import surround
import wasm
from history import same, short


def scratch():
    os.makedirs(os.path.join(BUILD, "scratch"), exist_ok=True)
    return tempfile.mkdtemp(dir=os.path.join(BUILD, "scratch"))


def request(rng, names):
    """A request to a WebAssembly file, input file names left out."""
    nm = [x for x in names if x and not x.startswith("-") and "\0" not in x] or ["x"]
    some = [rng.choice(nm) for _ in range(rng.choice([0, 0, 1, 2]))]
    op = rng.choice(["top", "garbage", "dominators", "paths", "monos", "diff"])
    fl = []
    if op == "top":
        some = []
        fl = rng.choice([[], ["--retained"], ["-n", "3"], ["-n2", "--retained"]])
    elif op == "garbage":
        some = []
        fl = rng.choice([[], ["-a"], ["-n", "1"], ["--show-data-segments"]])
    elif op == "dominators":
        fl = rng.choice([[], ["-d", "2"], ["-r", "3"], ["-d1", "-r2"]])
    elif op == "paths":
        fl = rng.choice([["-d", "3"], ["-d2", "-r2"], ["--descending", "-d", "3"]])
    elif op == "monos":
        fl = rng.choice([[], ["-g"], ["-a"], ["-n", "1"], ["-m1"]])
    elif op == "diff":
        fl = rng.choice([[], ["-n", "2"], ["-a"]])
    return op, some, fl


def repeated(run, rng, n, around):
    """Each request three times: plainly, and twice in surroundings of which
    those in `around` take turns."""
    exe, har = run.cli(), run.harness()
    turn = 0
    d = scratch()
    try:
        mods, cmds = [], []
        for k in range(n):
            a, b = (wasm.Module(rng).encode() for _ in range(2))
            for nm, x in (("a", a), ("b", b)):
                with open(os.path.join(d, "%d%s.wasm" % (k, nm)), "wb") as f:
                    f.write(x)
            mods.append((a, b))
            cmds.append(["parse A x" + a.hex(), "parse B x" + b.hex(), "dump A"])
        names = [[it[3] for it in r[2].get("items", [])] for r in run_harness(har, cmds)]
        jobs, hcmds, plan = [], [], []
        for k in range(n):
            reqs = [request(rng, names[k]) for _ in range(3)]
            for op, some, fl in reqs:
                ins = ["%da.wasm" % k] + (["%db.wasm" % k] if op == "diff" else [])
                for f in ("text", "json", "csv"):
                    argv = [op] + ins + some + fl + ["-f", f]
                    plan.append((k, argv))
                    jobs.append((exe, argv, d, surround.PLAIN))
                    for _ in range(2):
                        a = around[turn % len(around)]
                        turn += 1
                        w, nm = None, {}
                        for i in ins:
                            w, nm[i] = surround.spelled(d, i, a["place"])
                        jobs.append((exe, [nm.get(x, x) for x in argv[:1 + len(ins)]] + argv[1 + len(ins):], w, a))
                    cmds[k].append(replay.run_cmd("A", "B" if op == "diff" else "-", argv, f))
        out = surround.run_all(jobs)
        lib = run_harness(har, cmds)
        at = [3] * n
        ss = {}
        for j, (k, argv) in enumerate(plan):
            key = " ".join(argv)
            op = argv[0]
            ev = ss.setdefault(k, [])
            r = lib[k][at[k]]
            at[k] += 1
            fmt = argv[-1]
            if "out" in r and "ok" in r["out"][fmt]:
                v = "status 0: " + short(r["out"][fmt]["ok"])
            elif "err" in r:
                v = "error"
            else:
                v = "crash"
            ev.append(same(key, v, "process." + op))
            for (o, rc), (_, _, _, a) in zip(out[3 * j:3 * j + 3], jobs[3 * j:3 * j + 3]):
                if rc == 0:
                    v = "status 0: " + short(o.decode("utf-8", "replace"))
                elif rc == 1 and not o:
                    v = "error"
                else:
                    v = "status %d" % rc
                ev.append(same(key, v, "process." + op))
                ev[-1]["surroundings"] = a
        return [session([], ev) for k, ev in sorted(ss.items())]
    finally:
        shutil.rmtree(d, ignore_errors=True)
