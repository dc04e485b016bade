"""Runs of the real command in different surroundings: environment variables,
kinds of standard streams, working directories, spellings of the file."""
import os, shutil, subprocess, tempfile, threading, tty
from concurrent.futures import ProcessPoolExecutor
from common import CORES

ENV = {
    "plain": {}, "narrow": {"COLUMNS": "24", "LINES": "4"}, "wide": {"COLUMNS": "500", "LINES": "200"},
    "colour": {"CLICOLOR_FORCE": "1", "FORCE_COLOR": "1", "COLORTERM": "truecolor", "TERM": "xterm-256color"},
    "dumb": {"NO_COLOR": "1", "TERM": "dumb"}, "C": {"LC_ALL": "C", "LANG": "C", "TZ": "UTC"},
    "turkish": {"LC_ALL": "tr_TR.UTF-8", "LANG": "de_DE.UTF-8", "LC_NUMERIC": "de_DE.UTF-8", "TZ": "Asia/Kolkata"},
    "debug": {"RUST_BACKTRACE": "full", "RUST_LOG": "trace", "DEBUG": "1", "VERBOSE": "1"},
    "ci": {"CI": "true", "GITHUB_ACTIONS": "true", "TERM": "dumb"},
    "home": {"HOME": "/nonexistent", "XDG_CONFIG_HOME": "/nonexistent", "TMPDIR": "/nonexistent", "PAGER": "false"},
}


PLAIN = {"env": "plain", "out": "pipe", "in": "null", "err": "pipe", "place": "here"}


def spelled(d, name, place):
    """The working directory and the file name to use in it."""
    if place == "there":
        w = os.path.join(d, "elsewhere")
        os.makedirs(w, exist_ok=True)
        return w, os.path.join(d, name)
    if place == "dot":
        return d, "./" + name
    if place == "spaces":
        w = os.path.join(d, "a b", "ü,\"x\"")
        os.makedirs(w, exist_ok=True)
        if not os.path.exists(os.path.join(w, name)):
            shutil.copy(os.path.join(d, name), os.path.join(w, name))
        return d, os.path.join("a b", "ü,\"x\"", name)
    if place == "link":
        n = "link-to-" + name
        if not os.path.lexists(os.path.join(d, n)):
            os.symlink(name, os.path.join(d, n))
        return d, n
    return d, name


class Pty:
    def __init__(self):
        self.m, self.s = os.openpty()
        tty.setraw(self.s)
        self.got = []
        self.t = threading.Thread(target=self.read, daemon=True)
        self.t.start()

    def read(self):
        while True:
            try:
                b = os.read(self.m, 65536)
            except OSError:
                return
            if not b:
                return
            self.got.append(b)

    def end(self):
        os.close(self.s)
        self.t.join(30)
        os.close(self.m)
        return b"".join(self.got)


def go(job):
    """(standard output, status) of one run."""
    exe, argv, cwd, s = job
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "TMPDIR")}
    env = {} if s["env"] == "none" else {**env, **ENV[s["env"]]}
    ptys, files, stdout, tmp = [], [], subprocess.PIPE, None
    def terminal():
        ptys.append(Pty())
        return ptys[-1].s
    before = b""
    if s["out"] == "tty":
        stdout = terminal()
    elif s["out"] in ("file", "append"):
        before = b"what was there before\n" if s["out"] == "append" else b""
        fd, tmp = tempfile.mkstemp()
        os.write(fd, before)
        os.close(fd)
        stdout = os.open(tmp, os.O_WRONLY | (os.O_APPEND if before else os.O_TRUNC))
        files.append(stdout)
    stdin = subprocess.DEVNULL
    if s["in"] == "data":
        f = tempfile.TemporaryFile()
        f.write(b"1\n\0asm\nyes\n" * 50)
        f.seek(0)
        stdin = f
    elif s["in"] == "tty":
        stdin = terminal()
    stderr = {"pipe": subprocess.PIPE, "null": subprocess.DEVNULL}.get(s["err"])
    if stderr is None:
        stderr = terminal()
    try:
        p = subprocess.Popen([exe] + argv, cwd=cwd, env=env, stdin=stdin, stdout=stdout, stderr=stderr,
                             preexec_fn=(lambda: os.close(0)) if s["in"] == "closed" else None)
        try:
            out, _ = p.communicate(timeout=60)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            out, rc = b"", -99
    finally:
        for f in files:
            os.close(f)
        got = [t.end() for t in ptys]
    if s["out"] == "tty":
        out = got[0]
    elif tmp:
        with open(tmp, "rb") as f:
            out = f.read()
        os.unlink(tmp)
        out = out[len(before):] if out.startswith(before) else b"lost: " + out
    return out or b"", rc


def run_all(jobs):
    with ProcessPoolExecutor(CORES) as ex:
        return list(ex.map(go, jobs, chunksize=8))
