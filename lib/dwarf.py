"""Object files with DWARF debug information: abstract ones, as the
specification reads them, and their encodings."""
import re, struct, zlib
from random import Random

M64 = (1 << 64) - 1


def limbs(n):
    return [(n >> s) & 0xffff for s in (48, 32, 16, 0)]


def uleb(n, pad=0):
    o = bytearray()
    while n >= 128:
        o.append(n & 127 | 128)
        n >>= 7
    if not pad:
        return bytes(o) + bytes([n])
    return bytes(o) + bytes([n | 128]) + b"\x80" * (pad - 1) + b"\0"


def sleb(n):
    o = bytearray()
    while True:
        b = n & 127
        n >>= 7
        if (n == 0 and not b & 64) or (n == -1 and b & 64):
            o.append(b)
            return bytes(o)
        o.append(b | 128)


TAG = {"subprogram": 0x2e, "variable": 0x34, "formal_parameter": 0x05, "lexical_block": 0x0b,
       "inlined_subroutine": 0x1d, "structure_type": 0x13, "class_type": 0x02, "namespace": 0x39,
       "base_type": 0x24, "label": 0x0a, "pointer_type": 0x0f, "subroutine_type": 0x15,
       "call_site": 0x48, "GNU_call_site": 0x4109, "unspecified": 0x3b, "imported": 0x08,
       "member": 0x0d, "entry_point": 0x03, "common_block": 0x1a, "thrown": 0x31}
CONTAINERS = ["lexical_block", "structure_type", "class_type", "namespace", "subprogram",
              "inlined_subroutine", "subroutine_type"]
AT = {"name": 0x03, "low_pc": 0x11, "high_pc": 0x12, "ranges": 0x55, "linkage": 0x6e,
      "mips_linkage": 0x2007, "str_base": 0x72, "addr_base": 0x73, "rng_base": 0x74,
      "gnu_addr_base": 0x2133, "stmt": 0x10, "lang": 0x13, "producer": 0x25, "comp_dir": 0x1b}


class Enc:
    """Encodes a file: picks forms and layouts at random."""

    def __init__(self, rng, big, plain=False, strx=True):
        self.rng, self.big, self.plain, self.strx = rng, big, plain, strx
        self.e = ">" if big else "<"
        self.strs, self.line_strs = bytearray(b"\0"), bytearray(b"\0")
        self.abbrev, self.info = bytearray(), bytearray()
        self.addr, self.stroff = bytearray(), bytearray()
        self.ranges, self.rnglists = bytearray(), bytearray()
        if rng.random() < 0.5:
            self.ranges += bytes(16)        # offset 0 is an empty list

    def u(self, n, size):
        if size == 3:
            b = (n & 0xffffff).to_bytes(3, "big" if self.big else "little")
            return b
        return struct.pack(self.e + {1: "B", 2: "H", 4: "I", 8: "Q"}[size], n & ((1 << 8 * size) - 1))

    def str_at(self, tab, b):
        o = len(tab)
        tab += b + b"\0"
        return o

    # ------------------------------------------------------------------ units

    def unit(self, u):
        r = self.rng
        off = 8 if u["fmt"] == 64 else 4
        self.off, self.ver, self.asz = off, u["v"], u["asz"]
        # Index tables of this unit.
        self.addrs = [int(a) for a in u["addrs"]]
        self.strtab, self.rngtab = [], []
        if u["v"] >= 5:
            body = self.u(5, 2) + self.u(self.asz, 1) + self.u(0, 1)
            self.addr += self.length(len(body) + len(self.addrs) * self.asz, off) + body
        self.addr_base = len(self.addr)
        for a in self.addrs:
            self.addr += self.u(a, self.asz)
        abb_off = len(self.abbrev)
        self.codes, self.abb = {}, bytearray()
        self.fresh = list(range(1, 400))
        if r.random() < 0.3 and not self.plain:
            self.fresh = r.sample(range(1, 60000), 400)
        # The tables have to be complete before their offsets are known, so
        # ranges and strings by index are laid out in a first pass.
        dies = [(d, self.attrs(u, d)) for d in u["dies"]]
        # Range lists by index.
        if u["v"] >= 5:
            lists = [self.rnglist5(u, x) for x in self.rngtab]
            body = self.u(5, 2) + self.u(self.asz, 1) + self.u(0, 1) + self.u(len(lists), 4)
            table, pos = b"", len(lists) * off
            for x in lists:
                table += self.u(pos, off)
                pos += len(x)
            self.rnglists += self.length(len(body) + pos, off) + body
            self.rng_base = len(self.rnglists)
            self.rnglists += table + b"".join(lists)
            so = b"".join(self.u(self.str_at(self.strs, b), off) for b in self.strtab)
            self.stroff += self.length(4 + len(so), off) + self.u(5, 2) + self.u(0, 2)
            self.str_base = len(self.stroff)
            self.stroff += so
        root = []
        nm = self.string(b"unit.c", index=False)
        if r.random() < 0.8:
            root.append((AT["name"],) + nm)
        if u["v"] >= 5:
            root.append((AT["str_base"], 0x17, self.u(self.str_base, off)))
            root.append((AT["addr_base"], 0x17, self.u(self.addr_base, off)))
            root.append((AT["rng_base"], 0x17, self.u(self.rng_base, off)))
        elif u["v"] == 4:
            root.append((AT["gnu_addr_base"], 0x17, self.u(self.addr_base, off)))
        if u["low"] is not None:
            root.append((AT["low_pc"],) + self.address(u, u["low"]))
        if r.random() < 0.5:
            root.append((AT["lang"], 0x0b, b"\x0c"))
        if not self.plain:
            r.shuffle(root)
        # Entries.
        out = bytearray()
        kids = bool(dies) or r.random() < 0.2
        out += self.die(0x11, kids, root)
        depth = 1
        for k, (d, at) in enumerate(dies):
            while depth > d["d"]:
                out += b"\0"
                depth -= 1
            nxt = dies[k + 1][0]["d"] if k + 1 < len(dies) else 0
            has = nxt > d["d"] or r.random() < 0.15
            out += self.die(TAG[d["t"]], has, at)
            if nxt > d["d"]:
                depth += 1
            elif has:
                out += b"\0"
        if kids:
            out += b"\0" * depth
        if r.random() < 0.1 and not self.plain:
            out += b"\0" * r.randint(1, 3)          # padding
        self.abb += b"\0"
        self.abbrev += self.abb
        code = u.get("type", 1)
        asz = u.get("says", self.asz)
        if u["v"] >= 5:
            h = self.u(u["v"], 2) + self.u(code, 1) + self.u(asz, 1) + self.u(abb_off, off)
            if code == 2:
                h += self.u(r.getrandbits(64), 8) + self.u(0, off)
        else:
            h = self.u(u["v"], 2) + self.u(abb_off, off) + self.u(asz, 1)
        self.info += self.length(len(h) + len(out), off) + h + out

    def length(self, n, off):
        return self.u(n, 4) if off == 4 else b"\xff\xff\xff\xff" + self.u(n, 8)

    def die(self, tag, kids, at):
        key = (tag, kids, tuple((a, f, x) if f == 0x21 else (a, f) for a, f, x in at))
        if key not in self.codes:
            c = self.codes[key] = self.fresh.pop(0)
            self.abb += uleb(c) + uleb(tag) + bytes([1 if kids else 0])
            for a, f, x in at:
                self.abb += uleb(a) + uleb(f)
                if f == 0x21:
                    self.abb += x
            self.abb += b"\0\0"
        o = uleb(self.codes[key])
        for a, f, x in at:
            if f != 0x21:
                o += x
        return o

    # ------------------------------------------------------------- attributes

    def string(self, b, index=True):
        r = self.rng
        c = ["inline", "strp"]
        if self.ver >= 5 and not self.plain:
            c += ["line"] + (["strx"] * 2 if index and self.strx else [])
        c = r.choice(c)
        if c == "inline":
            return 0x08, b + b"\0"
        if c == "strp":
            return 0x0e, self.u(self.str_at(self.strs, b), self.off)
        if c == "line":
            return 0x1f, self.u(self.str_at(self.line_strs, b), self.off)
        self.strtab.append(b)
        return self.index(len(self.strtab) - 1, 0x1a, 0x25)

    def index(self, i, form, sized):
        k = self.rng.choice([0, 1, 2, 3, 4])
        if k == 0 or (i >= 256 and k == 1):
            return form, uleb(i, self.rng.choice([0, 0, 2]))
        return sized + k - 1, self.u(i, k)

    def bad_string(self):
        """A string that is not there."""
        r = self.rng
        if self.ver >= 5 and r.random() < 0.5:
            return 0x1a, uleb(5000)
        return 0x0e, self.u(0x70000000, self.off)

    def name(self, s):
        return self.bad_string() if s[0] == "missing" else self.string(s[1])

    def address(self, u, a):
        if a[0] == "abs":
            return 0x01, self.u(a[1], self.asz)
        if self.ver >= 5:
            return self.index(a[1], 0x1b, 0x29)
        return 0x1f01, uleb(a[1])

    def offset(self, n):
        r = self.rng
        c = [0x0f, 0x07]
        for f, k in ((0x0b, 1), (0x05, 2), (0x06, 4)):
            if n < 1 << (8 * k):
                c.append(f)
        if n < 1 << 40:
            c.append(0x0d)
        if self.ver >= 5 and n < 1 << 40:
            c.append(0x21)
        f = r.choice(c)
        if f == 0x0f:
            return f, uleb(n, r.choice([0, 0, 0, 2]))
        if f in (0x0d, 0x21):
            return f, sleb(n)
        return f, self.u(n, {0x0b: 1, 0x05: 2, 0x06: 4, 0x07: 8}[f])

    def ranges_of(self, u, rr):
        if rr[0] == "missing":
            if self.ver >= 5 and self.rng.random() < 0.5:
                return 0x23, uleb(100000)
            return (0x17 if self.ver >= 4 else 0x06), self.u(0x70000000, self.off if self.ver >= 4 else 4)
        lst = rr[1]
        if self.ver >= 5:
            if self.rng.random() < 0.5:
                self.rngtab.append(lst)
                return 0x23, uleb(len(self.rngtab) - 1)
            # A list outside of the table, found by offset.
            b = self.rnglist5(u, lst)
            at = len(self.rnglists)
            self.rnglists += b
            return 0x17, self.u(at, self.off)
        at = len(self.ranges)
        for e in lst:
            if e[0] == "base":
                self.ranges += self.u(M64, self.asz) + self.u(e[1][1], self.asz)
            else:
                self.ranges += self.u(e[1], self.asz) + self.u(e[2], self.asz)
        self.ranges += bytes(2 * self.asz)
        form = 0x17 if self.ver >= 4 else (0x06 if self.off == 4 else 0x07)
        return form, self.u(at, self.off)

    def rnglist5(self, u, lst):
        o = b""
        for e in lst:
            if e[0] == "base":
                a = e[1]
                o += (b"\x05" + self.u(a[1], self.asz)) if a[0] == "abs" else (b"\x01" + uleb(a[1]))
            elif e[0] == "pair":
                o += b"\x04" + uleb(e[1]) + uleb(e[2])
            elif e[0] == "bounds":
                if e[1][0] == "abs":
                    o += b"\x06" + self.u(e[1][1], self.asz) + self.u(e[2][1], self.asz)
                else:
                    o += b"\x02" + uleb(e[1][1]) + uleb(e[2][1])
            else:
                if e[1][0] == "abs":
                    o += b"\x07" + self.u(e[1][1], self.asz) + uleb(e[2])
                else:
                    o += b"\x03" + uleb(e[1][1]) + uleb(e[2])
        return o + b"\0"

    def attrs(self, u, d):
        r = self.rng
        at = []
        if d.get("l") is not None:
            at.append((AT["linkage"],) + self.name(d["l"]))
        if d.get("n") is not None:
            at.append((AT["name"],) + self.name(d["n"]))
        if d.get("lo") is not None:
            at.append((AT["low_pc"],) + ((0x0f, uleb(77)) if d["lo"][0] == "bad"
                                         else self.address(u, d["lo"])))
        if d.get("hi") is not None:
            h = d["hi"]
            at.append((AT["high_pc"],) + (self.offset(h[1]) if h[0] == "off" else
                                          (0x08, b"x\0") if h[0] == "bad" else self.address(u, h)))
        if d.get("r") is not None:
            at.append((AT["ranges"],) + self.ranges_of(u, d["r"]))
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            at.append(self.noise())
        if not self.plain:
            r.shuffle(at)
        return at

    def noise(self):
        r = self.rng
        a = r.choice([0x3a, 0x3b, 0x49, 0x3f, 0x27, 0x02, 0x1c, 0x32, 0x31, 0x47, 0x34, 0x3c, 0x20, 0x40,
                      0x2117, 0x3fed, 0x39, 0x0b, 0x01, 0x88])
        if a in (0x32, 0x20):
            return a, 0x0b, b"\x01"
        blk = bytes(r.randrange(256) for _ in range(r.randint(0, 5)))
        fs = [(0x0b, self.u(r.getrandbits(8), 1)), (0x05, self.u(r.getrandbits(16), 2)),
              (0x06, self.u(r.getrandbits(32), 4)), (0x07, self.u(r.getrandbits(64), 8)),
              (0x0d, sleb(r.randint(-10 ** 6, 10 ** 6))), (0x0f, uleb(r.getrandbits(30))),
              (0x0c, b"\x01"), (0x13, self.u(11, 4)), (0x11, b"\x0b"), (0x12, self.u(11, 2)),
              (0x15, uleb(11)), (0x10, self.u(11, self.off if self.ver >= 3 else self.asz)),
              (0x0a, bytes([len(blk)]) + blk), (0x03, self.u(len(blk), 2) + blk),
              (0x04, self.u(len(blk), 4) + blk), (0x09, uleb(len(blk)) + blk), (0x08, blk.replace(b"\0", b"z") + b"\0")]
        if self.ver >= 4:
            fs += [(0x18, uleb(len(blk)) + blk), (0x19, b""), (0x20, self.u(r.getrandbits(64), 8)),
                   (0x17, self.u(3, self.off))]
        if self.ver >= 5:
            fs += [(0x1e, bytes(range(16))), (0x21, sleb(r.randint(-300, 300)))]
        return (a,) + r.choice(fs)

    def sections(self):
        s = {".debug_info": self.info, ".debug_abbrev": self.abbrev, ".debug_str": self.strs,
             ".debug_line_str": self.line_strs, ".debug_addr": self.addr,
             ".debug_str_offsets": self.stroff, ".debug_ranges": self.ranges,
             ".debug_rnglists": self.rnglists}
        return {k: bytes(v) for k, v in s.items()}


# ------------------------------------------------------------------ containers

def elf(rng, secs, big, bits, etype=2, table_first=False, compress=False, far=None, shnum0=None):
    """An ELF file with the given sections, and how much of it has to be there
    for it to be read. far: name of a section to be put outside the file."""
    e = ">" if big else "<"
    names = [n for n in secs if secs[n] or rng.random() < 0.5]
    rng.shuffle(names)
    rows = [("", 0, b"", 0)]
    if rng.random() < 0.7:
        rows.append((".text", 1, bytes(rng.randrange(256) for _ in range(rng.randint(0, 40))), 6))
    for n in names:
        b, fl, nm = secs[n], 0, n
        if compress and n != far and rng.random() < 0.6:
            z = zlib.compress(b)
            if rng.random() < 0.5:
                nm = ".zdebug_" + n[7:]
                b = b"ZLIB" + struct.pack(">Q", len(b)) + z
            else:
                fl = 0x800
                b = (struct.pack(e + "IIQQ", 1, 0, len(b), 1) if bits == 64
                     else struct.pack(e + "III", 1, len(b), 1)) + z
        rows.append((nm, 1, b, fl))
    if rng.random() < 0.4:
        rows.append((".bss", 8, b"", 3))
    rows.insert(rng.randint(1, len(rows)), (".shstrtab", 3, None, 0))
    st, at = bytearray(b"\0"), []
    for nm, *_ in rows:
        if nm == "":
            at.append(0)
        else:
            at.append(len(st))
            st += nm.encode() + b"\0"
    eh, sh = (64, 64) if bits == 64 else (52, 40)
    order = list(range(1, len(rows)))
    rng.shuffle(order)
    pos = eh + (sh * len(rows) if table_first else 0)
    body = bytearray()
    offs = {0: 0}
    for i in order:
        b = bytes(st) if rows[i][2] is None else rows[i][2]
        pad = -(pos + len(body)) % rng.choice([1, 1, 4, 8, 16])
        body += bytes(pad)
        offs[i] = pos + len(body)
        body += b
    if table_first:
        shoff = eh
    else:
        body += bytes(-(pos + len(body)) % 8)
        shoff = pos + len(body)
    tab = b""
    for i, (nm, ty, b, fl) in enumerate(rows):
        size = len(st) if b is None else len(b)
        o = offs[i]
        if nm == ".bss":
            size = rng.choice([4, 1 << 20])
        if nm == far:
            if rng.random() < 0.5:
                o += rng.choice([1 << 20, (1 << 31) - 1])
                size = max(size, 1)
            else:
                size += rng.choice([len(body) + 5000, 1 << 30])
        if i == 0:
            tab += bytes(sh) if shnum0 is None else struct.pack(e + "IIQQQQIIQQ", 0, 0, 0, 0, 0, shnum0, 0, 0, 0, 0)
        elif bits == 64:
            tab += struct.pack(e + "IIQQQQIIQQ", at[i], ty, fl, 0, o, size, 0, 0, 1, 0)
        else:
            tab += struct.pack(e + "IIIIIIIIII", at[i], ty, fl, 0, o, size, 0, 0, 1, 0)
    n = len(rows)
    strndx = [i for i, r in enumerate(rows) if r[2] is None][0]
    ident = b"\x7fELF" + bytes([2 if bits == 64 else 1, 2 if big else 1, 1, 0]) + bytes(8)
    mach = rng.choice([62, 183, 3, 40, 8, 243])
    num = 0 if shnum0 is not None else n
    if bits == 64:
        h = ident + struct.pack(e + "HHIQQQIHHHHHH", etype, mach, 1, 0x1000, 0, shoff, 0, 64, 56, 0, sh, num, strndx)
    else:
        h = ident + struct.pack(e + "HHIIIIIHHHHHH", etype, mach, 1, 0x1000, 0, shoff, 0, 52, 32, 0, sh, num, strndx)
    need = shoff + len(tab)
    for i, (nm, ty, b, fl) in enumerate(rows):
        if b is None or (nm[1:6] == "debug" or nm[1:7] == "zdebug"):
            need = max(need, offs[i] + len(st if b is None else b))
    return h + (tab + bytes(body) if table_first else bytes(body) + tab), need


def macho(rng, secs, big, bits):
    e = ">" if big else "<"
    names = [n for n in secs if secs[n]]
    rng.shuffle(names)
    n = len(names)
    seg = (72 + 80 * n) if bits == 64 else (56 + 68 * n)
    hs = 32 if bits == 64 else 28
    pos = hs + seg
    body, rows = bytearray(), b""
    for nm in names:
        b = secs[nm]
        sec = ("__" + nm[1:]).encode()[:16].ljust(16, b"\0")
        o = pos + len(body)
        body += b
        if bits == 64:
            rows += sec + b"__DWARF".ljust(16, b"\0") + struct.pack(e + "QQIIIIIIII", 0, len(b), o, 0, 0, 0, 0x02000000, 0, 0, 0)
        else:
            rows += sec + b"__DWARF".ljust(16, b"\0") + struct.pack(e + "IIIIIIIII", 0, len(b), o, 0, 0, 0, 0x02000000, 0, 0)
    if bits == 64:
        cmd = struct.pack(e + "II", 0x19, seg) + b"__DWARF".ljust(16, b"\0") + struct.pack(
            e + "QQQQIIII", 0, len(body), pos, len(body), 7, 3, n, 0) + rows
        h = struct.pack(e + "IIIIIIII", 0xfeedfacf, 0x01000007, 3, 2, 1, len(cmd), 0, 0)
    else:
        cmd = struct.pack(e + "II", 0x01, seg) + b"__DWARF".ljust(16, b"\0") + struct.pack(
            e + "IIIIIIII", 0, len(body), pos, len(body), 7, 3, n, 0) + rows
        h = struct.pack(e + "IIIIIII", 0xfeedface, 7, 3, 2, 1, len(cmd), 0)
    return h + cmd + bytes(body), hs + len(cmd) + len(body)


# ------------------------------------------------------------------- generator

NAMES = ["main", "f", "g", "operator new", "foo::bar", "std::vec::Vec<T>::push", "naïve", "日本", "a,b",
         "with \"quote\"", "x<y>", "p::q::h0123456789abcdef", "", "Subroutine[0][0]", "<lambda(int)>"]


def gen_name(rng, spoil):
    if spoil == "name":
        return rng.choice([("missing",), ("str", b"\xff\xfe"), ("str", b"abc\xc3"), ("str", b"\xed\xa0\x80")])
    s = rng.choice(NAMES) + rng.choice(["", "", str(rng.randrange(30))])
    return ("str", s.encode())


def gen_addr(rng, u, tomb):
    if u["addrs"] and rng.random() < 0.5 and u["v"] >= 4:
        return ("idx", rng.randrange(len(u["addrs"])))
    return ("abs", rng.choice(u["pool"]))


def value(u, a):
    return u["addrs"][a[1]] if a[0] == "idx" else a[1]


def gen_len(rng, spoil=None):
    return rng.choice([0, 1, 1, 2, 7, 16, 100, 127, 128, 255, 256, 300, 5000, 65535, 65536, 70000, 1 << 20])


def gen_ranges(rng, u, spoil):
    top = (1 << (8 * u["asz"])) - 1
    tomb = top - 1 if u["v"] <= 4 else top
    lst = []
    base = 0 if u["low"] is None else value(u, u["low"])
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        k = rng.choice(["pair", "pair", "base"] + (["bounds", "length"] * 2 if u["v"] >= 5 else []))
        if k == "base":
            a = ("abs", tomb) if rng.random() < 0.1 else gen_addr(rng, u, tomb)
            if u["v"] <= 4 and a[0] == "idx":
                a = ("abs", value(u, a))
            base = value(u, a)
            lst.append(("base", a))
        elif k == "pair":
            room = top - 2 - base
            b = min(gen_len(rng), max(room, 0))
            e = min(b + gen_len(rng), max(room, b))
            lst.append(("pair", b, e))
        elif k == "bounds":
            # Both ends have to be given in the same way.
            if len(u["addrs"]) > 1 and rng.random() < 0.5:
                i, j = sorted(rng.sample(range(len(u["addrs"])), 2), key=lambda i: u["addrs"][i])
                lst.append(("bounds", ("idx", i), ("idx", j)))
            else:
                a, b = sorted(rng.sample(u["pool"], 2))
                if b == tomb and a != tomb:
                    b = a
                lst.append(("bounds", ("abs", a), ("abs", b)))
        else:
            a = gen_addr(rng, u, tomb)
            n = gen_len(rng)
            if value(u, a) + n > top:
                n = 0
            lst.append(("length", a, n))
    if spoil == "ranges":
        c = rng.choice(["missing", "order"] + (["index"] if u["v"] >= 5 else []))
        if c == "missing":
            return ("missing",)
        if c == "order":
            lst.append(("base", ("abs", u["pool"][0] & 0xffff)))
            lst.append(("pair", 50, 20))
        else:
            lst.append(rng.choice([("length", ("idx", 400), 3), ("base", ("idx", 4000)),
                                   ("bounds", ("idx", 400), ("idx", 401))]))
    return ("list", lst)


def gen_unit(rng, spoil=None, plain=False, big_sizes=False, count=None, deep=False):
    v = rng.choice([2, 3, 4, 4, 5, 5, 5])
    asz = rng.choice([4, 8, 8])
    fmt = 64 if v >= 3 and rng.random() < 0.15 else 32
    if plain:
        v, asz, fmt = 4, 8, 32
    top = (1 << (8 * asz)) - 1
    hi = 0x7f0000000000 if asz == 8 else 0xf0000000
    pool = [0x1000, 0x1010, 0x2000, 0x7fff, 0x8000, 0x10000, 0x401000, 0xffff, hi, hi + 77]
    if rng.random() < 0.2:
        pool.append(0)
    u = {"v": v, "asz": asz, "fmt": fmt, "low": None, "pool": pool,
         "addrs": [rng.choice(pool) + rng.randrange(0, 60000, 7) for _ in range(rng.choice([0, 2, 3, 6]))]
         if v >= 4 else []}
    if v >= 5 and rng.random() < 0.1:
        u["type"] = rng.choice([2, 3])
    if rng.random() < 0.6:
        u["low"] = gen_addr(rng, u, 0)
    dies = []
    depth = 1
    n = rng.choice([0, 1, 2, 4, 6, 9, 14]) if count is None else count
    if spoil:
        n = max(n, 1)
    for k in range(n):
        if k == 0:
            depth = 1
        else:
            prev = dies[-1]
            depth = rng.randint(max(1, prev["d"] - 3), prev["d"] + (1 if prev["t"] in CONTAINERS else 0))
            if deep and k < n - 9:
                depth = prev["d"] + 1
        t = "subprogram" if rng.random() < 0.6 else rng.choice(sorted(TAG) if not deep else CONTAINERS)
        d = {"d": depth, "t": t}
        bad = spoil if k == n - 1 or (spoil and rng.random() < 0.2) else None
        if bad:
            t = d["t"] = "subprogram"
        if rng.random() < 0.8:
            d["n"] = gen_name(rng, None)
        if rng.random() < 0.35 and t in ("subprogram", "variable", "member"):
            d["l"] = gen_name(rng, None)
        has = rng.random()
        if bad == "ranges" or (bad is None and has > 0.75):
            d["r"] = gen_ranges(rng, u, bad)
            if rng.random() < 0.3:
                d["lo"] = gen_addr(rng, u, 0)
        elif bad or has < 0.65:
            d["lo"] = gen_addr(rng, u, 0)
            if bad == "low":
                d["lo"] = rng.choice([("bad",)] + ([("idx", 3000)] if u["v"] >= 4 else []))
            lo = 0 if bad == "low" else value(u, d["lo"])
            c = rng.random()
            n_ = gen_len(rng)
            if big_sizes and rng.random() < 0.5:
                n_ = rng.choice([1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, 1 << 40, 3 << 30, M64 if rng.random() < .3 else 9])
            if bad == "high":
                d["hi"] = rng.choice([("bad",), ("abs", lo - 1 if lo else 0), ("abs", 0)]
                                     + ([("idx", 3000)] if u["v"] >= 4 else []))
                if lo == 0:
                    d["hi"] = ("bad",)
            elif bad == "size":
                d["hi"] = ("off", rng.choice([1 << 32, (1 << 32) + 1, 1 << 63, M64]))
            elif c < 0.55:
                d["hi"] = ("off", n_)
            elif lo + n_ <= top:
                d["hi"] = ("abs", lo + n_)
            if c > 0.95 and bad is None and u["addrs"] and u["v"] >= 4:
                i = max(range(len(u["addrs"])), key=lambda i: u["addrs"][i])
                if u["addrs"][i] >= lo:
                    d["hi"] = ("idx", i)
            if bad is None and has < 0.08:
                d.pop(rng.choice(["lo", "hi"]), None)
            if rng.random() < 0.08 and bad is None:
                d["r"] = gen_ranges(rng, u, None)
        if bad == "name":
            d[rng.choice(["l", "n"]) if "l" not in d else "l"] = gen_name(rng, "name")
        dies.append(d)
    u["dies"] = dies
    if spoil == "asize":
        u["says"] = rng.choice([0, 3, 5, 7, 9, 16, 32, 127, 128, 255])
    return u


# ------------------------------------------------------------ for the specification

def rec_addr(a):
    return {"abs": lambda: {"k": "abs", "v": limbs(a[1]), "i": 0},
            "idx": lambda: {"k": "idx", "v": limbs(0), "i": a[1] + 1},
            "off": lambda: {"k": "off", "v": limbs(a[1]), "i": 0},
            "bad": lambda: {"k": "bad", "v": limbs(0), "i": 0}}[a[0]]()


def rec_range(e):
    if e[0] == "base":
        return {"k": "base", "b": rec_addr(e[1]), "e": limbs(0)}
    if e[0] == "pair":
        return {"k": "pair", "b": limbs(e[1]), "e": limbs(e[2])}
    if e[0] == "bounds":
        return {"k": "bounds", "b": rec_addr(e[1]), "e": rec_addr(e[2])}
    return {"k": "length", "b": rec_addr(e[1]), "e": limbs(e[2])}


def rec_str(s):
    return {"k": s[0], "b": list(s[1]) if s[0] == "str" else []}


def record(units):
    us = []
    for u in units:
        ds = []
        for d in u["dies"]:
            ds.append({"t": d["t"], "l": [rec_str(d["l"])] if "l" in d else [],
                       "n": [rec_str(d["n"])] if "n" in d else [],
                       "lo": [rec_addr(d["lo"])] if "lo" in d else [],
                       "hi": [rec_addr(d["hi"])] if "hi" in d else [],
                       "r": [{"k": d["r"][0], "l": [rec_range(e) for e in d["r"][1]]
                              if d["r"][0] == "list" else []}] if "r" in d else []})
        us.append({"v": u["v"], "asz": u.get("says", u["asz"]), "low": [rec_addr(u["low"])] if u["low"] is not None else [],
                   "addrs": [limbs(a) for a in u["addrs"]], "dies": ds})
    return us


def encode(rng, units, container=None, **kw):
    """The bytes of a file, and how many of them have to be there."""
    big = rng.random() < 0.3
    bits = rng.choice([32, 64, 64])
    if kw.get("shnum0") is not None:
        bits = 64
    mach = not kw and (container == "macho" or (container is None and rng.random() < 0.15))
    # The name of .debug_str_offsets does not fit in a Mach-O section header.
    e = Enc(rng, big, strx=not mach)
    for u in units:
        e.unit(u)
    secs = e.sections()
    if mach:
        return macho(rng, secs, big, bits)
    kw.setdefault("table_first", rng.random() < 0.4)
    kw.setdefault("compress", rng.random() < 0.25)
    return elf(rng, secs, big, bits, rng.choice([2, 3]), **kw)


def model_case(rng, em):
    """A unit the model MCDwarf printed, encoded in whatever forms come up."""
    v, asz = em["v"], em["asz"]
    top = (1 << (8 * asz)) - 1

    def addr(a):
        if a[0] == "tomb":
            return ("abs", top - 1 if v <= 4 else top)
        if a[0] == "idx" and a[1] >= len(em["addrs"]):
            return ("idx", a[1] + 4000)         # past the tables of other units as well
        return tuple(a)

    def entry(e):
        return (e[0],) + tuple(addr(x) if isinstance(x, list) else x for x in e[1:])
    text = {"link": ("str", b"l"), "name": ("str", b"n"), "bad": ("str", b"\xff"), "missing": ("missing",)}
    dies = []
    for x in em["dies"]:
        d = {"d": 1 if not dies else x["d"], "t": x["t"]}
        for k, f in (("l", text.get), ("n", text.get), ("lo", addr), ("hi", addr),
                     ("r", lambda l: ("list", [entry(e) for e in l]))):
            if x[k]:
                d[k] = f(x[k][0])
        dies.append(d)
    u = {"v": v, "asz": asz, "fmt": 64 if v >= 3 and rng.random() < 0.2 else 32,
         "low": addr(em["low"][0]) if em["low"] else None,
         "addrs": em["addrs"] if v >= 4 else [], "dies": dies}
    units = [u]
    if rng.random() < 0.2:
        units.insert(rng.randint(0, 1), gen_unit(rng))
    return encode(rng, units)[0], units, ""


SPOILS = ["name", "ranges", "low", "high", "size", "asize"]


def case(rng, spoil=None, **kw):
    """(bytes, units, how the file as a whole is broken)."""
    units = [gen_unit(rng, **kw) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
    if spoil:
        units.insert(rng.randint(0, len(units)), gen_unit(rng, spoil, **kw))
    return encode(rng, units)[0], units, ""


def many(rng):
    """More units, entries or levels than fit in a byte."""
    k = rng.randrange(3)
    units = ([gen_unit(rng, count=rng.choice([0, 1, 2])) for _ in range(270)] if k == 0 else
             [gen_unit(rng, count=290, deep=(k == 2)), gen_unit(rng)])
    return encode(rng, units)[0], units, ""


def small_units(rng):
    return [gen_unit(rng) for _ in range(rng.choice([1, 1, 2]))]


def truncations(rng, step):
    u = small_units(rng)
    b, need = encode(rng, u)
    return [(b[:k], u, "truncated" if k < need else "any") for k in range(0, len(b), step)]


def outside(rng):
    """A section that is used lies outside the file."""
    while True:
        u = small_units(rng)
        return encode(rng, u, far=rng.choice([".debug_info", ".debug_abbrev"]), compress=False)[0], u, "outside"


def corrupted(rng):
    u = small_units(rng)
    b = bytearray(encode(rng, u)[0])
    for _ in range(rng.choice([1, 1, 2, 4])):
        i = rng.choice([rng.randrange(len(b)), rng.randrange(min(len(b), 128))])
        b[i] = rng.choice([0, 1, 2, 0x7f, 0x80, 0xff, rng.randrange(256)])
    return bytes(b), u, "any"


def claims_too_much(rng):
    """The header claims more sections than there can be."""
    u = small_units(rng)
    return encode(rng, u, shnum0=rng.choice([1 << 60, 1 << 57]))[0], u, "headers"


# -------------------------------------------------------------------- sessions

def site(text):
    """Where in the dependencies a file was given up on, if it was there."""
    m = re.search(r" at ((goblin|object)-\S+/src/\S+?:\d+)(:\d+)?( in File::parse)?$", text)
    if not m:
        return ""
    return "headers" if m.group(4) else m.group(1)


def session(units, size, reply, broken=""):
    """reply: to `parsefile` and `dump`."""
    p, d = reply
    o = {"err": "", "site": "", "size": 0, "id": [], "nm": [], "sz": [], "kind": [], "edges": 0}
    for r in (p, d):
        if not o["err"] and ("panic" in r or "crash" in r):
            o["err"], o["note"], o["site"] = "PANIC", str(r)[:300], site(r.get("panic", ""))
        elif not o["err"] and "err" in r:
            o["err"] = r["err"] or "?"
    if not o["err"]:
        items = d["items"][:-1]
        o.update(size=d["size"], id=[i[0] for i in items], nm=[list(i[3].encode()) for i in items],
                 sz=[limbs(i[2]) for i in items], kind=[i[1] for i in items],
                 edges=sum(map(len, d["edges"])))
        if d["items"][-1][3] != "<meta root>" or d["items"][-1][2] != 0:
            o["err"] = "no meta root"
    return {"units": record(units), "size": size, "file": broken, "obs": o}
