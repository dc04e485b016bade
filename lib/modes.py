"""The same bytes read under many names and in every mode."""
import hashlib, os, shutil
from common import hx, run_harness
from cli import scratch
import dwarf
import wasm


def contents(rng):
    """Bytes of many kinds, and whether they are a module."""
    w = lambda: wasm.Module(rng, small=rng.random() < 0.7).encode()
    o = lambda c=None: dwarf.encode(rng, dwarf.small_units(rng), c)[0]
    cs = [(w(), True), (w(), True), (o(), False), (o("macho"), False)]
    b = w()
    cs += [(b"\x7fELF" + b[4:], False), (b[:4], False), (b[:3], False), (b"", False), (b"\0", False),
           (b[:rng.randrange(8, len(b))], False), (b[1:], False), (b"\0ASM" + b[4:], False),
           (b[3::-1] + b[4:], False)]
    e = o()
    cs += [(b"\0asm" + e[4:], False), (b"\0asm\1\0\0\0" + e[8:], False), (e[:rng.randrange(4, len(e))], False),
           (b"!<arch>\n" + e, False), (b"MZ" + e[2:], False), (b"(module)\n", False), (b"asm\0", False)]
    return cs


def short(rng):
    """The beginnings of files, byte by byte."""
    b = wasm.Module(rng, small=True).encode()
    e, m = (dwarf.encode(rng, dwarf.small_units(rng), c)[0] for c in (None, "macho"))
    return [(x[:k], False) for x in (b, e, m, b"!<arch>\n", b"MZ\0\0\0\0\0\0\0\0") for k in range(11)]


MODES = ("auto", "wasm", "dwarf")


def val(p, d):
    if "size" in p:
        return "items %d %s" % (p["size"], hashlib.sha256(repr((d["items"], d["edges"])).encode()).hexdigest()[:16])
    return "error: " + p["err"] if "err" in p else "crash: " + str(p)


def bits(r):
    return r.get("items"), r.get("edges")


def sessions(run, rng, names, per, cs=None):
    """names: file names as lists of bytes. Every name is used with some
    contents, every contents with some names and all modes."""
    d = scratch()
    try:
        cs = cs or [c for _ in range(4) for c in contents(rng)]
        use = [[] for _ in cs]
        for k, n in enumerate(names):
            for _ in range(per):
                use[rng.randrange(len(cs))].append(n)
        cmds, evs = [], []
        for k, ((b, _), ns) in enumerate(zip(cs, use)):
            neutral = os.path.join(d, "%d" % k)
            os.mkdir(neutral + ".d")
            with open(neutral, "wb") as f:
                f.write(b)
            c = ["parse A x" + b.hex(), "dump A", "parsefile A %s %s" % (hx("dwarf"), hx(neutral)), "dump A"]
            e = []
            for j, n in enumerate(ns):
                sub = os.path.join(neutral + ".d", rng.choice(["%d", "%d.wasm", "%d.o", ".%dwasm"]) % j)
                os.mkdir(sub)
                path = os.fsencode(sub) + b"/" + bytes(n)
                how = rng.random()
                real = path if how < 0.75 else os.path.join(os.fsencode(neutral + ".d"), b"real%d" % j + rng.choice(
                    [b".wasm", b"", b".o", b".wasm.o", b"wasm", b".WASM"]))
                with open(real, "wb") as f:
                    f.write(b)
                if how >= 0.9:                      # the name that is given counts
                    os.link(real, path)
                elif how >= 0.75:
                    os.symlink(real, path)
                for m in ["auto", "wasm", "dwarf"] + ([rng.choice(["Wasm", "", "elf", "object", "wasm ", "AUTO"])]
                                                      if j % 4 == 0 else []):
                    c += ["parsefile A %s x%s" % (hx(m), path.hex()), "dump A"]
                    e.append((m, path[len(os.fsencode(d)):]))
            cmds.append(c)
            evs.append(e)
        rep = run_harness(run.harness(), cmds)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ss, origin = [], []
    for (b, isw), e, r in zip(cs, evs, rep):
        vs = [val(r[k], r[k + 1]) for k in range(0, len(r), 2)]
        ss.append({"head": list(b[:6]), "isWasm": isw, "wasm": vs[0], "object": vs[1],
                   "ev": [{"mode": m, "path": list(p), "val": v if m in MODES or not v.startswith("error: ") else "rejected"} for (m, p), v in zip(e, vs[2:])]})
        origin.append({"file": b.hex()})
    return ss, origin
