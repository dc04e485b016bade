"""Shared plumbing: builds, the conformance harness, TLC, evidence, verdicts."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.environ.get("TW_BUILD") or os.path.join(ROOT, "build")
TARGET = os.path.join(BUILD, "target")
SPEC = os.path.join(ROOT, "spec")
TLC_CP = ("/opt/veriftools/tla/tla2tools.jar:"
          "/opt/veriftools/tla/CommunityModules-deps.jar")
CORES = min(8, os.cpu_count() or 4)


class ToolError(Exception):
    """Something of ours failed; the check gives no verdict (exit 2)."""


def env():
    e = dict(os.environ)
    e.update(PATH="/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin"),
             RUSTUP_TOOLCHAIN="1.77.2", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only",
             CARGO_TARGET_DIR=TARGET)
    e.pop("RUSTFLAGS", None)
    return e


def cargo(args, cwd, what):
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0:
        raise ToolError("building %s failed:\n%s" % (what, p.stdout[-4000:]))


def build_harness():
    cargo(["build", "--offline", "--quiet"], os.path.join(ROOT, "harness"), "the harness")
    return os.path.join(TARGET, "debug", "twharness")


def build_cli():
    """The real twiggy binary, from /repo's working tree."""
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "cli-target")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--locked", "-p", "twiggy"],
                       cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=800)
    if p.returncode != 0:
        raise ToolError("building twiggy failed:\n" + p.stdout[-4000:])
    return os.path.join(e["CARGO_TARGET_DIR"], "debug", "twiggy")


def hx(s):
    if isinstance(s, str):
        s = s.encode("utf-8")
    return "x" + s.hex()


# --------------------------------------------------------------------- harness

def _run_batch(exe, sessions, timeout):
    """sessions: list of lists of lines. Returns a list of lists of replies."""
    out = []
    todo = list(sessions)
    while todo:
        text = "".join("reset\n" + "".join(c + "\n" for c in s) for s in todo)
        counts = [1 + len(s) for s in todo]
        with tempfile.TemporaryFile() as fi, tempfile.TemporaryFile() as fo:
            fi.write(text.encode())
            fi.seek(0)
            p = subprocess.Popen([exe], stdin=fi, stdout=fo, stderr=subprocess.DEVNULL)
            try:
                rc = p.wait(timeout=timeout)
                why = "exit %s" % rc
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                why = "hang"
            fo.seek(0)
            data = fo.read().decode("utf-8", "surrogateescape")
        lines = data.split("\n")
        if lines and not data.endswith("\n"):
            lines = lines[:-1] + [""]
        lines = lines[:-1]
        pos = 0
        done = 0
        for k, s in enumerate(todo):
            need = counts[k]
            if pos + need <= len(lines):
                out.append([json.loads(x) for x in lines[pos + 1:pos + need]])
                pos += need
                done = k + 1
            elif pos == len(lines) and why == "exit 86":
                # The session before this one ended the process, and said so.
                why = ""
                break
            else:
                got = [json.loads(x) for x in lines[pos + 1:]]
                if why == "hang" and len(todo) > 1:
                    # Confirm on its own, with a fresh budget.
                    out.append(_run_batch(exe, [s], 60)[0])
                else:
                    got.append({"crash": why})
                    while len(got) < len(s):
                        got.append({"crash": "skipped after " + why})
                    out.append(got[:len(s)])
                done = k + 1
                break
        todo = todo[done:]
    return out


def run_harness(exe, sessions, timeout=240):
    n = max(1, min(CORES, len(sessions)))
    chunks = [sessions[i::n] for i in range(n)]
    with cf.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda c: _run_batch(exe, c, timeout), chunks))
    out = [None] * len(sessions)
    for i in range(n):
        for k, r in enumerate(res[i]):
            out[i + k * n] = r
    return out


# ------------------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        self.generated, self.distinct = (
            tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0))
        self.ok = rc == 0 and "No error has been found" in out


def tlc(module, cfg=None, extra_env=None, workers=CORES, timeout=800, heap="8g", args=()):
    os.makedirs(os.path.join(BUILD, "tlc"), exist_ok=True)
    meta = tempfile.mkdtemp(dir=os.path.join(BUILD, "tlc"))
    e = dict(os.environ)
    e.update(extra_env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8",
           "-Dstdout.encoding=UTF-8", "-DTLA-Library=" + SPEC, "-cp", TLC_CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg or (module[:-4] + ".cfg"), *args, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC ran out of time on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(p.returncode, p.stdout.decode("utf-8", "replace"))


# --------------------------------------------------------------- session files

class Nm(str):
    """A name: interned per session, numbered in byte order."""
    __slots__ = ()


def _collect(x, acc):
    if isinstance(x, Nm):
        acc.add(str(x))
    elif isinstance(x, dict):
        for v in x.values():
            _collect(v, acc)
    elif isinstance(x, (list, tuple)):
        for v in x:
            _collect(v, acc)


def _intern(x, idx):
    if isinstance(x, Nm):
        return idx[str(x)]
    if isinstance(x, dict):
        return {k: _intern(v, idx) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_intern(v, idx) for v in x]
    return x


def session(graphs, events, **more):
    acc = set()
    _collect(graphs, acc)
    _collect(events, acc)
    names = sorted(acc, key=lambda s: s.encode("utf-8", "surrogatepass"))
    idx = {s: i + 1 for i, s in enumerate(names)}
    s = {"names": names, "graphs": _intern(graphs, idx), "ev": _intern(events, idx)}
    s.update(more)
    return s


def write_sessions(path, sessions):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        for s in sessions:
            f.write(json.dumps(s, ensure_ascii=False) + "\n")


MISMATCH = re.compile(r'<<"MISMATCH", (\d+), (\d+), "([^"]*)">>')


class TraceResult:
    def __init__(self):
        self.states = self.transitions = 0
        self.mismatches = []        # (session index, event index, clause)
        self.classes = {}           # session index -> class, where the module reports one


JUDGED = re.compile(r'<<"JUDGED", (\d+), (-?\d+)>>')


def validate(sessions, label, module="TwTrace.tla", workers=CORES, shards=1, timeout=800,
             judged=False):
    """Validate recorded sessions against the specification with TLC. The
    specification has to go through every event of every session: that is
    checked by the number of states, or by the report it makes on each."""
    res = TraceResult()
    if not sessions:
        return res
    shards = max(1, min(shards, len(sessions)))
    parts = [list(range(i, len(sessions), shards)) for i in range(shards)]

    def one(part):
        i, idxs = part
        path = os.path.join(BUILD, "traces", "%s-%d.ndjson" % (label, i))
        write_sessions(path, [sessions[k] for k in idxs])
        r = tlc(module, extra_env={"TW_TRACE": path}, workers=max(1, workers // shards),
                timeout=timeout, heap="%dg" % max(2, 14 // shards))
        want = sum(2 + len(sessions[k].get("ev", ())) for k in idxs)
        seen = {int(a): int(b) for a, b in JUDGED.findall(r.out)}
        if not r.ok or (sorted(seen) != list(range(1, len(idxs) + 1)) if judged
                        else r.distinct != want):
            keep = os.path.join(BUILD, "traces", "%s-%d.tlc.log" % (label, i))
            with open(keep, "w") as f:
                f.write(r.out)
            raise ToolError("TLC did not accept the trace file as a whole (%d of %d states); "
                            "see %s\n%s" % (r.distinct, want, keep, r.out[-1500:]))
        ms = [(idxs[int(a) - 1], int(b) - 1, c) for a, b, c in MISMATCH.findall(r.out)]
        os.unlink(path)
        return r, ms, {idxs[a - 1]: b for a, b in seen.items()}

    with cf.ThreadPoolExecutor(shards) as ex:
        for r, ms, seen in ex.map(one, enumerate(parts)):
            res.classes.update(seen)
            res.states += r.distinct
            res.transitions += r.generated
            res.mismatches += ms
    res.mismatches = sorted(set(res.mismatches))
    return res
