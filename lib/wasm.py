"""Random WebAssembly modules, encoded by hand, and broken variants of them.
Nothing here says what a module means: the specification reads the bytes."""
import os, struct

VAL = [0x7f, 0x7e, 0x7d, 0x7c, 0x7b, 0x70, 0x6f]
NUMT = [0x7f, 0x7e, 0x7d, 0x7c]


class Enc:
    """LEB encodings; pad is the chance of a longer form than needed."""

    def __init__(self, rng, pad=0.0):
        self.rng, self.pad = rng, pad

    def u(self, n, width=5):
        out = bytearray()
        while True:
            b = n & 0x7f
            n >>= 7
            if n:
                out.append(b | 0x80)
            else:
                out.append(b)
                break
        if self.pad and self.rng.random() < self.pad and len(out) < width:
            k = self.rng.randint(1, width - len(out))
            out[-1] |= 0x80
            out += b"\x80" * (k - 1) + b"\x00"
        return bytes(out)

    def s(self, n, width=5):
        out = bytearray()
        neg = n < 0
        while True:
            b = n & 0x7f
            n >>= 7
            if (n == 0 and not b & 0x40) or (n == -1 and b & 0x40):
                out.append(b)
                break
            out.append(b | 0x80)
        if self.pad and self.rng.random() < self.pad and len(out) < width:
            k = self.rng.randint(1, width - len(out))
            f = 0x7f if neg else 0
            out[-1] |= 0x80
            out += bytes([f | 0x80]) * (k - 1) + bytes([f])
        return bytes(out)

    def str(self, s):
        b = s.encode() if isinstance(s, str) else s
        return self.u(len(b)) + b

    def vec(self, xs):
        return self.u(len(xs)) + b"".join(xs)


WORDS = ["f", "main", "alloc", "a::b", "é", "日本", "x y", "", "quote\"d", "vec::h0123456789abcdef",
         "map<u8>", "data[0]", "code[1]", "_ZN3foo3barE", "$", "\\", "tab\t"]


LENGTHS = [120, 255, 256, 300, 1000, 1025, 2050, 4097, 5000, 9000]


def word(rng):
    if getattr(rng, "long", False) and rng.random() < 0.3:
        w = rng.choice(["a", "é", "日", "xyz_", "::m", "f<u8>", "q\""])
        return (w * rng.choice(LENGTHS))[:rng.choice(LENGTHS)]
    return rng.choice(WORDS) if rng.random() < 0.6 else "".join(
        rng.choice("abcdxyz_.:") for _ in range(rng.randint(1, 9)))


def s32(a):
    """An unsigned address as the signed number that encodes it."""
    return a - (1 << 32) if a >= 1 << 31 else a


class Module:
    """A random module. style: 'valid' (well formed), 'odd' (now and then an
    order, a repetition or an opcode the specification leaves open)."""

    def __init__(self, rng, odd=False, small=False, refs=True, big=False, long=False):
        rng.long = long             # names far longer than usual
        self.rng, self.odd, self.small = rng, odd, small
        # More of a few kinds of things than fit in a byte.
        self.many = rng.sample(["types", "imports", "funcs", "globals", "segs", "exports", "elems", "lists",
                                "tables", "mems", "customs"], 2) if big else []
        self.e = Enc(rng, rng.choice([0, 0, 0, 0.1, 0.4]))
        r = rng
        self.ntypes = r.randint(1, 4)
        self.imports = []
        if r.random() < 0.6:
            for _ in range(r.randint(0, 5)):
                self.imports.append(r.choice([0, 0, 0, 1, 2, 3, 4 if odd else 0]))
        self.nf = r.choice([0, 1, 1, 2, 3, 4, 5, 6] if not small else [0, 1, 2, 2])
        self.nt = r.choice([0, 0, 1, 1, 2])
        self.nm = r.choice([0, 1, 1, 1, 2])
        self.ng = r.choice([0, 0, 1, 2, 3])
        m = lambda x: x in self.many and r.choice([130, 257, 300])
        self.ntypes = m("types") or self.ntypes
        self.nf = m("funcs") or self.nf
        self.ng = m("globals") or self.ng
        self.nt = m("tables") or self.nt
        self.nm = m("mems") or self.nm
        if m("imports"):
            self.imports = [r.choice([0, 0, 0, 3]) for _ in range(m("imports"))]
        self.tf = self.imports.count(0) + self.nf
        self.tt = self.imports.count(1) + self.nt
        self.tm = self.imports.count(2) + self.nm
        self.tg = self.imports.count(3) + self.ng
        self.segments()

    def segments(self):
        r = self.rng
        self.segs = []
        k = r.choice([0, 1, 2, 2, 3, 4, 5]) if "segs" not in self.many else r.choice([130, 257, 300])
        at = r.choice([0, 8, 1024, 1 << 20, (1 << 31) - 8, (1 << 32) - 40])
        for _ in range(k):
            ln = r.choice([0, 1, 2, 4, 8, 16, r.randint(0, 24)])
            if r.random() < 0.12:
                at = r.choice([0, 16, (1 << 32) - ln if ln else 5, (1 << 32) - 1, (1 << 31) - 2])
            self.segs.append((at % (1 << 32), ln, r.choice([0] * 8 + [1, 2])))
            if r.random() < 0.88:
                at += ln + r.choice([0, 0, 1, 4])
        r.random() < 0.3 and r.shuffle(self.segs)

    def idx(self, n):
        """An index below n."""
        return self.rng.randrange(n)

    # ------------------------------------------------------------------ bodies

    def address(self):
        r = self.rng
        if self.segs and r.random() < 0.8:
            a, ln, _ = r.choice(self.segs)
            return max(0, a + r.choice([0, 0, 0, 1, ln // 2, ln - 1, ln, ln + 1, -1, -4])) % (1 << 32)
        return r.choice([0, 4, 100, 1 << 20, (1 << 31), (1 << 32) - 1])

    def memarg(self, off=None):
        return self.e.u(self.rng.randint(0, 3)) + self.e.u(
            off if off is not None else self.rng.choice([0, 0, 4, 128, 70000]))

    def instr(self, depth):
        r, e = self.rng, self.e
        k = r.random()
        if k < 0.16 and self.tf:
            op = r.choice([0x10, 0x10, 0x10, 0x12, 0xd2])
            return bytes([op]) + e.u(self.idx(self.tf))
        if k < 0.27 and self.tg:
            return bytes([r.choice([0x23, 0x24])]) + e.u(self.idx(self.tg))
        if k < 0.45:
            a = self.address()
            off = 0
            if r.random() < 0.3:
                off = r.choice([0, 1, 4, 8, min(a, 300)])
                a = max(0, a - off)
            if r.random() < 0.05:
                off, a = 0xffffffff, r.choice([a, 0xffffffff])
            mid = b""
            j = r.random()
            if j < 0.12:
                mid = r.choice([b"\x01", b"\x1a", b"\x20" + e.u(0), b"\x41" + e.s(7),
                                b"\x10" + e.u(self.idx(self.tf)) if self.tf else b"\x01",
                                b"\x23" + e.u(self.idx(self.tg)) if self.tg else b"\x6a",
                                b"\x11" + e.u(0) + e.u(0)])
            if j > 0.8:             # what is loaded is no constant address
                off2 = r.choice([0, 0, 4])
                mid = bytes([r.choice([0x28, 0x28, 0x2d, 0x35])]) + self.memarg(off2)
                if r.random() < 0.4:
                    mid += r.choice([b"\x28", b"\x2f"]) + self.memarg(0)
                off = max(0, self.address() - a)
            ld = r.choice([0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f, 0x30, 0x31, 0x32,
                           0x33, 0x34, 0x35, 0x35, 0x28, 0x28, 0x36, 0x3a])
            return b"\x41" + e.s(s32(a)) + mid + bytes([ld]) + self.memarg(off)
        if k < 0.5:
            return b"\x41" + e.s(r.choice([0, 1, -1, 63, 64, -64, -65, 2 ** 31 - 1, -2 ** 31]))
        if k < 0.53:
            return b"\x42" + e.s(r.choice([0, -1, 2 ** 62, -2 ** 63, 2 ** 63 - 1, 12345678901]), 10)
        if k < 0.55:
            return r.choice([b"\x43" + bytes(4), b"\x44" + bytes(range(8))])
        if k < 0.62:
            return bytes([r.choice([0x20, 0x21, 0x22, 0x0c, 0x0d])]) + e.u(r.choice([0, 1, 130]))
        if k < 0.66:
            return b"\x0e" + e.vec([e.u(0) for _ in range(r.randint(0, 4))]) + e.u(1)
        if k < 0.7:
            return bytes([r.choice([0x11, 0x13])]) + e.u(self.idx(self.ntypes)) + e.u(0)
        if k < 0.74:
            return r.choice([b"\x1c\x01\x7f", b"\xd0\x70", b"\xd0\x6f", b"\xd1", b"\x1b",
                             b"\x25" + e.u(0), b"\x26" + e.u(0), b"\x3f\x00", b"\x40\x00"])
        if k < 0.79:
            c = r.choice([0, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17])
            n = 0 if c < 8 else 2 if c in (8, 10, 12, 14) else 1
            z = b"".join(e.u(0) if c != 10 else b"\x00" for _ in range(n))
            if c == 11:
                z = b"\x00"
            return b"\xfc" + e.u(c) + z
        if k < 0.84:
            c = r.choice([0, 1, 7, 11, 12, 13, 15, 21, 27, 34, 84, 88, 92, 93, 77, 110, 174])
            if c <= 11 or c in (92, 93):
                return b"\xfd" + e.u(c) + b"\x00" + e.u(self.rng.choice([0, 9]))
            if c in (12, 13):
                return b"\xfd" + e.u(c) + bytes(16 if c == 12 else 16)
            if 84 <= c <= 91:
                return b"\xfd" + e.u(c) + b"\x00" + e.u(0) + b"\x00"
            if 21 <= c <= 34:
                return b"\xfd" + e.u(c) + b"\x00"
            return b"\xfd" + e.u(c)
        if self.odd and k < 0.85:
            return r.choice([b"\xfe\x03\x00", b"\xfd\xff\x01", b"\xf0", b"\x1c\x02\x7f\x7f", b"\xfc\x12"])
        return bytes([r.choice([0x00, 0x01, 0x0f, 0x1a, 0x1b, 0x45, 0x6a, 0x7c, 0x92, 0xa0, 0xa7,
                                0xbf, 0xc0, 0xc4])])

    def block(self, n, depth):
        r = self.rng
        out = b""
        for _ in range(n):
            if depth < 3 and r.random() < 0.1:
                bt = r.choice([b"\x40", b"\x7f", b"\x7c", self.e.u(self.idx(self.ntypes))])
                op = r.choice([2, 3, 4])
                out += bytes([op]) + bt + self.block(r.randint(0, 3), depth + 1)
                if op == 4 and r.random() < 0.5:
                    out += b"\x05" + self.block(r.randint(0, 2), depth + 1)
                out += b"\x0b"
            else:
                out += self.instr(depth)
        return out

    def body(self):
        r, e = self.rng, self.e
        loc = [e.u(r.choice([0, 1, 3, 200])) + bytes([r.choice(VAL)]) for _ in range(r.choice([0, 0, 1, 2]))]
        n = r.choice([0, 1, 2, 3, 6, 10 if not self.small else 2])
        if self.many:
            n = r.choice([0, 0, 1, 2]) if "funcs" in self.many else n
            n = 300 if "lists" in self.many and r.random() < 0.1 else n
        b = e.vec(loc) + self.block(n, 0) + b"\x0b"
        if self.odd and r.random() < 0.04:
            b = b[:-1] if r.random() < 0.5 else b + b"\x01"
        return e.u(len(b)) + b

    # ---------------------------------------------------------------- sections

    def const(self):
        r, e = self.rng, self.e
        k = r.random()
        if k < 0.5:
            return b"\x41" + e.s(r.choice([0, -1, 70000])) + b"\x0b"
        if k < 0.7 and self.tg:
            return b"\x23" + e.u(self.idx(self.tg)) + b"\x0b"
        if k < 0.8 and self.tf:
            return b"\xd2" + e.u(self.idx(self.tf)) + b"\x0b"
        if k < 0.85:
            return b"\x44" + bytes([0x0b] * 8) + b"\x0b"
        return b"\x42" + e.s(5, 10) + b"\x0b"

    def limits(self):
        r, e = self.rng, self.e
        return (b"\x01" + e.u(1) + e.u(r.choice([2, 65536]))) if r.random() < 0.4 else b"\x00" + e.u(
            r.choice([0, 1, 17, 300]))

    def imp(self, k):
        r, e = self.rng, self.e
        seen = self.__dict__.setdefault("seen_imports", [])
        if not seen or r.random() < 0.75:           # else one that was imported before
            seen.append(e.str(word(r)) + e.str(word(r)))
        return r.choice(seen[-2:]) + bytes([k]) + (e.u(self.idx(self.ntypes)) if k == 0 else
                    bytes([r.choice([0x70, 0x6f])]) + self.limits() if k == 1 else
                    self.limits() if k == 2 else
                    bytes([r.choice(NUMT), r.randint(0, 1)]) if k == 3 else
                    b"\x00" + e.u(self.idx(self.ntypes)))

    def export(self):
        r, e = self.rng, self.e
        c = [(k, n) for k, n in enumerate((self.tf, self.tt, self.tm, self.tg)) if n]
        if not c:
            return None
        k, n = r.choice(c + [c[0]] * 2)
        return e.str(word(r)) + bytes([k]) + e.u(self.idx(n))

    def elem(self):
        r, e = self.rng, self.e
        fl = r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7])
        if not self.tt:
            fl |= 1
        k = r.choice([0, 1, 2, 3, 5 if "lists" not in self.many else 300]) if self.tf else 0
        out = e.u(fl)
        if not fl & 1:
            if fl & 2:
                out += e.u(self.idx(self.tt))
            out += self.const()
        if fl & 3:
            out += b"\x70" if fl & 4 else b"\x00"
        if fl & 4:
            return out + e.vec([r.choice([b"\xd0\x70\x0b", b"\xd2" + e.u(self.idx(self.tf)) + b"\x0b"])
                                if self.tf else b"\xd0\x70\x0b" for _ in range(k)])
        return out + e.vec([e.u(self.idx(self.tf)) for _ in range(k)])

    def data(self, seg):
        a, ln, fl = seg
        r, e = self.rng, self.e
        out = e.u(fl)
        if fl == 2:
            out += e.u(r.choice([0, 1]))
        if fl != 1:
            k = r.random()
            if k < 0.86:
                out += b"\x41" + e.s(s32(a)) + b"\x0b"
            elif k < 0.93:
                out += b"\x42" + e.s(r.choice([a, a, -1, 1 << 40]), 10) + b"\x0b"
            else:
                out += b"\x23" + e.u(0) + b"\x0b"
        return out + e.u(ln) + bytes(r.getrandbits(8) for _ in range(ln))

    def names(self):
        r, e = self.rng, self.e
        out = b""

        def nmap(n):
            ks = [i for i in range(n) if r.random() < 0.8]
            if r.random() < 0.25:
                ks += [r.choice([n, n + 3, 300])]
            if r.random() < 0.2 and ks:
                ks.append(r.choice(ks))
            if r.random() < 0.2:
                r.shuffle(ks)
            return e.vec([e.u(i) + e.str(word(r)) for i in ks])
        order = [0, 1, 9] + ([2] if r.random() < 0.3 else [])
        if r.random() < 0.3:
            order.append(r.choice([1, 3, 4, 5, 6, 7, 8, 9, 11, 42]))
        order = [x for x in order if r.random() < 0.8]
        if r.random() < 0.2:
            r.shuffle(order)
        for s in order:
            if s == 0:
                b = e.str(word(r))
            elif s == 1:
                b = nmap(self.tf)
            elif s == 9:
                b = nmap(len(self.segs))
            elif s in (2, 3):
                b = e.vec([e.u(i) + e.vec([e.u(0) + e.str(word(r))]) for i in range(min(2, self.tf))])
            elif s in (4, 5, 6, 7, 8):
                b = nmap(1)
            else:
                b = bytes(r.getrandbits(8) for _ in range(r.randint(0, 5)))
            out += bytes([s]) + e.u(len(b)) + b
        return out

    def section(self, i, b):
        return bytes([i]) + self.e.u(len(b)) + b

    def custom(self, name=None):
        r = self.rng
        if name is None:
            name = r.choice([word(r), "producers", ".debug_info", "names"])
        b = self.names() if name == "name" else bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 5, 20])))
        return self.section(0, self.e.str(name) + b)

    def encode(self):
        r, e = self.rng, self.e
        secs = []
        keep_empty = lambda n: n > 0 or r.random() < 0.15
        secs.append(self.section(1, e.vec([
            b"\x60" + e.vec([bytes([r.choice(VAL)]) for _ in range(r.choice([0, 0, 1, 2, 3]))])
            + e.vec([bytes([r.choice(VAL)]) for _ in range(r.choice([0, 0, 1, 2]))])
            for _ in range(self.ntypes)])))
        if keep_empty(len(self.imports)):
            secs.append(self.section(2, e.vec([self.imp(k) for k in self.imports])))
        secs.append(self.section(3, e.vec([e.u(self.idx(self.ntypes)) for _ in range(self.nf)])))
        if keep_empty(self.nt):
            secs.append(self.section(4, e.vec([bytes([r.choice([0x70, 0x6f])]) + self.limits()
                                               for _ in range(self.nt)])))
        if keep_empty(self.nm):
            secs.append(self.section(5, e.vec([self.limits() for _ in range(self.nm)])))
        if keep_empty(self.ng):
            secs.append(self.section(6, e.vec([bytes([r.choice(NUMT), r.randint(0, 1)]) + self.const()
                                               for _ in range(self.ng)])))
        ex = [x for x in (self.export() for _ in range(300 if "exports" in self.many
                                                              else r.choice([0, 1, 2, 3, 5]))) if x]
        if keep_empty(len(ex)):
            secs.append(self.section(7, e.vec(ex)))
        if self.tf and r.random() < 0.3:
            secs.append(self.section(8, e.u(self.idx(self.tf))))
        el = [self.elem() for _ in range(260 if "elems" in self.many else r.choice([0, 0, 1, 2, 3]))]
        if keep_empty(len(el)):
            secs.append(self.section(9, e.vec(el)))
        if self.segs and r.random() < 0.3:
            secs.append(self.section(12, e.u(len(self.segs))))
        secs.append(self.section(10, e.vec([self.body() for _ in range(self.nf)])))
        if keep_empty(len(self.segs)):
            secs.append(self.section(11, e.vec([self.data(s) for s in self.segs])))
        if self.odd and r.random() < 0.25:
            k = r.random()
            i, j = r.randrange(len(secs)), r.randrange(len(secs))
            if k < 0.3:
                secs[i], secs[j] = secs[j], secs[i]
            elif k < 0.55:
                secs.insert(j, secs[i])
            elif k < 0.75:
                del secs[i]
            else:
                secs.insert(j, self.section(r.choice([13, 14, 15, 42]), b"\x00"))
        for _ in range(280 if "customs" in self.many else r.choice([0, 0, 0, 1, 2])):
            secs.insert(r.randint(0, len(secs)), self.custom())
        if r.random() < 0.75:
            at = len(secs) if r.random() < 0.8 else r.randint(0, len(secs))
            secs.insert(at, self.custom("name"))
            if r.random() < 0.06:
                secs.append(self.custom("name"))
        return b"\0asm\1\0\0\0" + b"".join(secs)


def break_bytes(rng, b):
    """A small corruption."""
    b = bytearray(b)
    k = rng.random()
    if k < 0.35:
        return bytes(b[:rng.randrange(len(b))])
    for _ in range(1 if rng.random() < 0.7 else 2):
        if not b:
            break
        i = rng.randrange(len(b))
        j = rng.random()
        if j < 0.3:
            b[i] = rng.getrandbits(8)
        elif j < 0.5:
            b[i] = (b[i] + rng.choice([1, -1])) % 256
        elif j < 0.65:
            b[i] ^= 1 << rng.randrange(8)
        elif j < 0.8:
            del b[i]
        elif j < 0.92:
            b.insert(i, rng.choice([0, 1, 0x7f, 0x80, 0xff]))
        else:
            b[i:i] = b[i:i + rng.randint(1, 8)]
    return bytes(b)


def broken_ref(rng):
    """A well-formed module except that one of its references is out of range,
    or a count does not match."""
    m = Module(rng, small=rng.random() < 0.5)
    n = [0]
    target = rng.randint(0, 25)
    real = m.idx

    def idx(k):
        n[0] += 1
        if n[0] == target:
            return k + rng.choice([0, 0, 1, 5, 1000])
        return real(k)
    m.idx = idx
    if rng.random() < 0.2:
        nf = m.nf
        b = None
        bodies = m.body
        m2 = m.encode
        m.nf = nf
        return _count_mismatch(rng, m)
    return m.encode()


def _count_mismatch(rng, m):
    """Function and code sections of different lengths, or entries left over."""
    b = m.encode()
    p = 8
    spots = []
    while p < len(b):
        sid = b[p]
        q = p + 1
        while b[q] & 0x80:
            q += 1
        q += 1
        ln = 0
        for i, c in enumerate(b[p + 1:q]):
            ln |= (c & 0x7f) << (7 * i)
        if sid in (1, 2, 3, 4, 5, 6, 7, 9, 10, 11) and q < len(b) and not b[q] & 0x80:
            spots.append(q)
        p = q + ln
    if not spots:
        return b
    q = rng.choice(spots)
    b = bytearray(b)
    b[q] = max(0, min(127, b[q] + rng.choice([1, -1, 2])))
    return bytes(b)


def fixtures(limit, repo="/repo"):
    d = os.path.join(repo, "twiggy/tests/all/../../tests")
    res = []
    for root, _, fs in os.walk(os.path.join(repo, "twiggy", "tests")):
        for f in sorted(fs):
            p = os.path.join(root, f)
            if f.endswith(".wasm") and os.path.getsize(p) <= limit:
                res.append((p, open(p, "rb").read()))
    return sorted(res)
