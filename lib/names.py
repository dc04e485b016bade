"""Symbols: mangled Rust names of both kinds, C++ names, and things that only
look like them. The specification (TwName) reads the symbols itself; nothing
here knows what they should be shown as."""
import os, shutil
import cli, dwarf, wasm
from common import *

IDS = ["a", "f", "foo", "bar", "h1", "hello", "h0123456789abcdef", "Vec", "new", "x_y", "core",
       "h", "he", "hface", "_", "E", "N", "i32", "alloc", "drop_in_place", "Z", "R1", "h12g"]
ESC = ["$LT$", "$GT$", "$u20$", "..", ".", "$RF$", "$BP$", "$C$", "$LP$", "$RP$", "$SP$", "T",
       "u8", "as", "foo", "::", "$u7b$", "$u7d$", "$u5b$", "$u1f600$", "$ue9$", "$u7f$", "$u9$",
       "$ud800$", "$U20$", "$u2G$", "$", "$$", "$LT", "_$LT$", "<", ">", "$u110000$", "$ufffd$",
       "$u0020$", "$u$", "-", "$u20ac$"]
TAILS = ["", "", "", "", ".llvm.123", ".llvm.AB12@F", ".llvm.xyz", ".exit.i.i", ".0", "@plt",
         ".cold", ".é", ". x", "x", ".llvm.", ".llvm.1.llvm.2"]
OPER = "pl mi eq ne lt gt le ge aS pL ls rs ix cl pt nt pp mm aa oo ml dv".split()


def legacy(rng):
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 6])
    els = []
    for _ in range(n):
        if rng.random() < 0.55:
            e = rng.choice(IDS)
        else:
            e = "".join(rng.choice(ESC) for _ in range(rng.randint(1, 5)))
            if e[0] == "$" and rng.random() < 0.5:
                e = "_" + e
        els.append(e)
    if rng.random() < 0.5:
        els.append(rng.choice(["h0123456789abcdef", "h1", "h", "hxyz", "h12345678", "hABC", "h_1"]))
    s = rng.choice(["_ZN", "_ZN", "_ZN", "ZN", "__ZN"])
    for e in els:
        k = len(e.encode())
        if rng.random() < 0.03:
            k += rng.choice([-1, 1, 100])
        s += "%s%d%s" % ("0" if rng.random() < 0.03 else "", max(0, k), e)
    s += "E" if rng.random() > 0.03 else ""
    return s + rng.choice(TAILS)


class V0:
    """The newer kind, with references back to earlier paths and types."""

    def __init__(self, rng):
        self.rng = rng
        self.s = ""
        self.paths, self.types = [], []

    def b62(self, n):
        if n == 0:
            return "_"
        n -= 1
        d = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
        o = ""
        while True:
            o = d[n % 62] + o
            n //= 62
            if n == 0:
                return o + "_"

    def dis(self):
        r = self.rng
        if r.random() < 0.5:
            return ""
        return "s" + self.b62(r.choice([0, 0, 1, 2, 61, 62, 63, 1000, 3844,
                                        r.getrandbits(r.choice([8, 30, 32, 40, 56]))]))

    def ident(self, empty=False):
        r = self.rng
        n = "" if empty else r.choice(IDS)
        return "%d%s%s" % (len(n), "_" if n[:1].isdigit() or n[:1] == "_" or r.random() < 0.05 else "", n)

    def emit(self, t):
        self.s += t

    def path(self, d):
        r = self.rng
        if self.paths and r.random() < 0.12:
            return self.emit("B" + self.b62(r.choice(self.paths)))
        at = len(self.s)
        k = r.random()
        if d <= 0 or k < 0.25:
            self.emit("C" + self.dis() + self.ident())
        elif k < 0.65:
            self.emit("N" + r.choice("vvvvttCCSaA"))
            ns = self.s[-1]
            self.path(d - 1)
            self.emit(self.dis() + self.ident(r.random() < (0.7 if ns.isupper() else 0.03)))
        elif k < 0.72:
            self.emit("M" + self.dis())
            self.path(d - 2)
            self.type(d - 1)
        elif k < 0.8:
            self.emit("X" + self.dis())
            self.path(d - 2)
            self.type(d - 1)
            self.path(d - 1)
        elif k < 0.85:
            self.emit("Y")
            self.type(d - 1)
            self.path(d - 1)
        else:
            self.emit("I")
            self.path(d - 1)
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                self.garg(d - 1)
            self.emit("E")
        self.paths.append(at)

    def garg(self, d):
        r = self.rng
        k = r.random()
        if k < 0.1:
            self.emit("L" + ("_" if r.random() < 0.9 else "0_"))
        elif k < 0.25:
            self.emit("K")
            self.const()
        else:
            self.type(d)

    def const(self):
        r = self.rng
        k = r.random()
        if k < 0.1:
            self.emit("p")
        elif k < 0.3:
            self.emit("b" + r.choice(["0_", "1_", "01_", "2_"] if r.random() < 0.1 else ["0_", "1_"]))
        elif k < 0.9:
            v = "%x" % r.choice([0, 1, 3, 9, 10, 255, 65536, 2 ** 31, 2 ** 32 + 7, 2 ** 64 - 1])
            t = r.choice("htmyojaslxni")
            self.emit(t + ("n" if t in "aslxni" and r.random() < 0.4 else "") + v + "_")
        else:
            self.emit("c41_")

    def type(self, d):
        r = self.rng
        if self.types and r.random() < 0.1:
            return self.emit("B" + self.b62(r.choice(self.types)))
        if d <= 0 or r.random() < 0.3:
            return self.emit(r.choice("bceuaslxnihtmyojfdzpv"))
        at = len(self.s)
        k = r.random()
        if k < 0.25:
            self.emit(r.choice("RQ") + ("L_" if r.random() < 0.2 else ""))
            self.type(d - 1)
        elif k < 0.35:
            self.emit(r.choice("PO"))
            self.type(d - 1)
        elif k < 0.45:
            self.emit("A")
            self.type(d - 1)
            self.const()
        elif k < 0.5:
            self.emit("S")
            self.type(d - 1)
        elif k < 0.6:
            self.emit("T")
            for _ in range(r.choice([0, 1, 2, 3])):
                self.type(d - 1)
            self.emit("E")
        elif k < 0.7:
            self.emit("F" + r.choice(["", "", "U", "KC", "UKC", "G_"]))
            for _ in range(r.choice([0, 1, 2])):
                self.type(d - 1)
            self.emit("E")
            if r.random() < 0.5:
                self.emit("u")
            else:
                self.type(d - 1)
        elif k < 0.8:
            self.emit("D")
            for _ in range(r.choice([1, 1, 2])):
                self.path(d - 1)
                for _ in range(r.choice([0, 0, 1])):
                    self.emit("p" + self.ident())
                    self.type(d - 1)
            self.emit("E" + ("L_" if r.random() < 0.95 else ""))
        else:
            self.path(d - 1)
        self.types.append(at)


def v0(rng):
    g = V0(rng)
    g.path(rng.choice([1, 2, 3, 3, 4]))
    if rng.random() < 0.15:
        g.path(1)
    s = rng.choice(["_R", "_R", "_R", "R", "__R"]) + g.s
    if rng.random() < 0.06:
        k = rng.randrange(len(s))
        s = s[:k] + rng.choice(["", "_", "Z", "9", "é", "."]) + s[k + 1:]
    return s + rng.choice(TAILS)


class Cpp:
    def __init__(self, rng):
        self.rng = rng

    def ident(self):
        n = self.rng.choice([i for i in IDS if i != "_"])
        if self.rng.random() < 0.03:
            n = "_GLOBAL__N_1"
        return "%d%s" % (len(n), n)

    def name(self, d):
        r = self.rng
        k = r.random()
        if k < 0.35:
            return self.ident()
        if k < 0.42:
            return "St" + self.ident()
        if k < 0.55 and d > 0:
            return self.ident() + self.args(d - 1)
        return "N" + self.nest(d) + "E"

    def nest(self, d):
        r = self.rng
        s = r.choice(["", "", "", "St", "S_" if r.random() < 0.3 else ""])
        for _ in range(r.choice([1, 2, 3] if s else [2, 2, 3, 3, 4, 1])):
            s += self.ident()
            if d > 0 and r.random() < 0.3:
                s += self.args(d - 1)
        return s

    def args(self, d):
        r = self.rng
        s = "I"
        for _ in range(r.choice([1, 1, 2])):
            s += r.choice(["Li3E", "Lin1E", "Lb1E", "Lb0E"]) if r.random() < 0.15 else self.type(d, False)
        return s + "E"

    def type(self, d, tpl):
        r = self.rng
        k = r.random()
        if d <= 0 or k < 0.4:
            return r.choice("wbcahstijlmxyfd")
        if k < 0.6:
            return r.choice(["P", "R", "K", "PK", "RK", "O"]) + self.type(d - 1, tpl)
        if k < 0.7:
            return r.choice(["S_", "S0_", "S1_", "S2_"])
        if k < 0.74:
            return r.choice(["Ss", "Sa" + self.args(d - 1)])
        if tpl and k < 0.85:
            return r.choice(["T_", "T_", "T0_"])
        return self.name(d - 1)

    def symbol(self):
        r = self.rng
        k = r.random()
        pre = r.choice(["_Z", "_Z", "_Z", "__Z"])
        if k < 0.08:
            return pre + r.choice(["TV", "TI", "TS", "GV"]) + self.name(2)
        tpl = False
        if k < 0.3:
            n = self.ident() if r.random() < 0.8 else "St" + self.ident()
        elif k < 0.45:
            n, tpl = self.ident() + self.args(2), True
        else:
            n = "N" + r.choice(["", "", "K"]) + self.nest(2)
            e = r.random()
            if e < 0.15:
                n += r.choice(["C1", "C2", "D0", "D1", "D2"])
            elif e < 0.35:
                n += r.choice(OPER)
            elif e < 0.45:
                n, tpl = n + self.args(1), True
            n += "E"
        if k > 0.97:
            return pre + n
        if tpl:
            n += self.type(1, True) if r.random() < 0.5 else "v"
        ps = [self.type(2, tpl) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        if ps and r.random() < 0.1:
            ps.append("z")
        s = pre + n + ("".join(ps) or "v")
        return s + r.choice(["", "", "", "", ".cold", ".constprop.0", ".isra.0.constprop.1", ".part.2",
                             ".0", "x", "@plt"])


def cpp(rng):
    return Cpp(rng).symbol()


PLAIN = ["", "main", "memcpy", "_start", "RC4", "Rust", "R", "_R", "_Z", "__Z", "_ZN", "ZN", "_ZNE",
         "_ZD1", "_Z\u00e9", "_GLOBAL_", "_GLOBAL__I_foo", "ZNE", "__ZNE", "_ZN0E", "_R0", "_Ra", "__R",
         "_RNv", "code[0]", "foo::bar", "foo::h12", "foo<u8>", "<foo>", "a::h<b>", "operator<", "a<b",
         "a>b", "a>b<c", "::h1", "::h", "a::h1::h2", "a::h1::b", "h1", "x::h1.llvm.5", "x::h.1",
         "x::h1 y", "std::vector<int>::push_back(int)", "é<ü>", "é::hé", "_Z_", "_Z ", "_Z.", "RNv",
         "a::hA", "a::hg", "a:h1", "a:::h1", "<<>>", "a<>", "a::h1<u8>", "a<u8>::h1", "_ZN3foo", "_ZN1",
         "_ZN99999999999999999999aE", "_Z99999999999999999999a", "_RC99999999999999999999a",
         "_RNvC1aB_", "_RNvC1a1bB_", "_RB_", "_RNvB_1a", "_RIC1aEE", "\u0000", "_Z1f\u0000"]
PIECES = ["::", "h", "h1", "<", ">", "a", "_ZN", "1a", "E", "..", "$", "_R", "Nv", "C", "_Z", "é",
          ".", " ", "3foo", "17h0123456789abcdef", "v", "i", "_", "0", "S_", "I", "g", "F", ".llvm."]


def soup(rng):
    return "".join(rng.choice(PIECES) for _ in range(rng.randint(1, 9)))


def changed(rng, s):
    s = list(s)
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.randrange(len(s) + 1)
        s[k:k + rng.choice([0, 1])] = rng.choice(PIECES) if rng.random() < 0.7 else ""
    return "".join(s)


def exponential(n):
    """A C++ name that refers to its own parts again and again."""
    def sub(i):
        if i == 0:
            return "S_"
        i -= 1
        d, o = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ", ""
        while True:
            o = d[i % 36] + o
            i //= 36
            if i == 0:
                return "S" + o + "_"
    s, k = "_Z1f1a1bIS_S_E", 2
    for _ in range(n):
        s += "S0_I%s%sE" % (sub(k), sub(k))
        k += 1
    return s


def random_symbols(rng, n):
    out = []
    for _ in range(n):
        k = rng.random()
        s = legacy(rng) if k < 0.3 else v0(rng) if k < 0.6 else cpp(rng) if k < 0.88 else soup(rng)
        if rng.random() < 0.06:
            s = changed(rng, s)
        out.append(s if len(s) < 400 else s[:400])
    return out


def event(sym, r):
    """What the harness says about a symbol (bytes)."""
    e = {"sym": list(sym), "name": [], "gen": [-1], "err": ""}
    if "name" in r:
        e["name"] = list(r["name"].encode("utf-8", "surrogatepass"))
        if r["generic"] is not None:
            e["gen"] = list(r["generic"].encode("utf-8", "surrogatepass"))
    else:
        e["err"] = "panic" if "panic" in r else "lost"
    return e


def sessions(syms, ask, per=50):
    """ask: maps a list of symbols to the replies of the harness for them."""
    ss, origin = [], []
    reps = ask(syms)
    for i in range(0, len(syms), per):
        ss.append({"ev": [event(s, r) for s, r in zip(syms[i:i + per], reps[i:i + per])]})
        origin.append({"symbols": [s.decode("utf-8", "replace") for s in syms[i:i + per]]})
    return ss, origin


def direct(exe, per=200):
    def ask(syms):
        out = []
        for q in run_harness(exe, [["code " + hx(s) for s in syms[i:i + per]]
                                   for i in range(0, len(syms), per)]):
            out += q
        return out
    return ask


def reply(item):
    return {"name": item[3], "generic": item[4]}


def in_modules(exe, rng, per=40):
    """The symbols as names of functions in a WebAssembly module."""
    def module(names):
        e = wasm.Enc(rng)
        n = len(names)

        def sec(i, b):
            return bytes([i]) + e.u(len(b)) + b
        sub = e.vec([e.u(i) + e.u(len(names[i])) + names[i] for i in range(n)])
        return (b"\0asm\1\0\0\0" + sec(1, e.vec([b"\x60\0\0"])) + sec(3, e.vec([b"\0"] * n))
                + sec(10, e.vec([b"\2\0\x0b"] * n))
                + sec(0, e.str(b"name") + b"\1" + e.u(len(sub)) + sub))

    def ask(syms):
        parts = [syms[i:i + per] for i in range(0, len(syms), per)]
        out = []
        for p, r in zip(parts, run_harness(exe, [["parse A x" + module(p).hex(), "dump A"] for p in parts])):
            bad = next((x for x in r if "err" in x or "panic" in x or "crash" in x), None)
            if bad:
                out += [bad] * len(p)
                continue
            fs = [it for it in r[1]["items"] if it[1] == "code"]
            out += [reply(it) for it in fs] + [{}] * (len(p) - len(fs))
        return out
    return ask


def in_objects(exe, rng, per=12):
    """The symbols as linkage names of subprograms in an object file."""
    def ask(syms):
        parts = [syms[i:i + per] for i in range(0, len(syms), per)]
        d = cli.scratch()
        try:
            cmds = []
            for k, p in enumerate(parts):
                u = dwarf.gen_unit(rng, plain=True)
                u["low"] = None
                u["dies"] = [{"d": 1, "t": "subprogram", "n": ("str", b"source"), "l": ("str", s),
                              "lo": ("abs", 4096 + i), "hi": ("off", 1)} for i, s in enumerate(p)]
                f = os.path.join(d, "%d.o" % k)
                with open(f, "wb") as o:
                    o.write(dwarf.encode(rng, [u])[0])
                cmds.append(["parsefile A %s %s" % (hx("dwarf"), hx(f)), "dump A"])
            reps = run_harness(exe, cmds)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        out = []
        for p, r in zip(parts, reps):
            bad = next((x for x in r if "err" in x or "panic" in x or "crash" in x), None)
            fs = [] if bad else r[1]["items"][:-1]
            out += [bad] * len(p) if bad else [reply(it) for it in fs] + [{}] * (len(p) - len(fs))
        return out
    return ask
