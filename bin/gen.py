"""Input generators.  They only choose inputs; what is right is decided by the
TLA+ specification.  The small encoder in here is used to make inputs that get past
the first bytes of a decoder, never as an oracle."""
import random
import literals

M64 = 1 << 64


def W(n):
    return list((n % M64).to_bytes(8, "big"))


def num(w):
    return int.from_bytes(bytes(w), "big")


R0 = dict(strict=False, base="std", x=[])
RS = dict(strict=True, base="std", x=[])


def R(strict=False, base="std", x=()):
    return dict(strict=strict, base=base, x=[[W(i), k] for i, k in x])


# kinds and their standard id
STD = {"null": 0, "bool": 1, "i8": 2, "u8": 3, "i16": 4, "u16": 5, "i32": 6, "u32": 7,
       "i64": 8, "u64": 9, "ilint": 10, "f32": 11, "f64": 12, "b128": 13, "silint": 14,
       "bytes": 16, "str": 17, "bint": 18, "bdec": 19, "ilarr": 20, "arr": 21, "seq": 22,
       "range": 23, "ver": 24, "oid": 25, "dict": 30, "sdict": 31}
FIX = {"null": 0, "bool": 1, "i8": 1, "u8": 1, "i16": 2, "u16": 2, "i32": 4, "u32": 4,
       "f32": 4, "i64": 8, "u64": 8, "f64": 8, "b128": 16, "ver": 16}
KIND = {v: k for k, v in STD.items()}
NOID = {"bytes", "bint"}            # no constructor taking an id
BYID = {i: KIND.get(i) for i in range(32)}


def boundaries():
    b = set(range(0, 34)) | {100, 127, 128, 246, 247, 248, 249, 250, 254, 255, 256, 257}
    for n in range(1, 9):
        c = 256 ** n - 1 + 248
        for d in (-2, -1, 0, 1, 2):
            b.add((c + d) % M64)
            b.add((256 ** n + d) % M64)
    for k in range(64):
        for d in (-1, 0, 1):
            b.add(((1 << k) + d) % M64)
    for n in literals.INTS:
        b |= {n, (n + 1) % M64, (n - 1) % M64}
    for n in (M64 - 1, M64 - 2, M64 - 247, M64 - 248, M64 - 249, M64 - 250, 1 << 63, (1 << 63) - 1):
        b.add(n)
    return sorted(b)


BOUND = boundaries()


def ilint(v):
    if v < 248:
        return [v]
    v -= 248
    n = max(1, (v.bit_length() + 7) // 8)
    return [0xF8 + n - 1] + list(v.to_bytes(n, "big"))


def ilint_w(v, n):
    """With exactly n body bytes (non-minimal allowed); needs v >= 248."""
    v -= 248
    return [0xF8 + n - 1] + list(v.to_bytes(n, "big"))


# texts that implementations like to treat specially
SPECIAL = ["\ufeff", "\ufeffa", "\ufeff\ufeff", "\0", "\0\0", "a\0", " ", " a ", "\t", "\r\n", "\n", "\r", "\u200b", "\u2028", "\xa0", "\x85",
           "e\u0301", "\xe9", "\u1100\u1161", "\uac00", "\u212b", "\xc5", "\u0130", "\xdf", "A", "a", "\u202e", "\u00ad", "\u0345",
           "\ufffd", "\ufffe", "\uffff", "\U0001f600\u200d", "\x1b[0m", "\x7f", "\x80", "\\", "\"", "/", "%", "\\0", "\u3000"] + literals.TEXTS


class G:
    def __init__(self, seed, name=""):
        self.r = random.Random(f"{seed}/{name}")

    # ------------------------------------------------------------ scalars
    def word(self):
        r = self.r
        c = r.random()
        if c < 0.05:
            return self.lit(M64 - 1, 0)
        if c < 0.45:
            return r.choice(BOUND)
        if c < 0.6:
            return r.randrange(0, 600)
        if c < 0.8:
            return r.getrandbits(r.randint(1, 64))
        return r.getrandbits(64)

    def lit(self, top, other):
        x = literals.number(self.r, top)
        return other if x is None else x

    def size(self, big=False):
        r = self.r
        c = r.random()
        if c < 0.04:
            return self.lit(1200 if c < 0.01 else 300, 0)
        if c < 0.55:
            return r.randint(0, 6)
        if c < 0.85:
            return r.randint(0, 40)
        if c < 0.97 or not big:
            return r.choice([0, 1, 246, 247, 248, 249, 255, 256, 257]) if big else r.randint(0, 70)
        return r.choice([503, 504, 505, 511, 512, 513, 600])

    def bytes(self, n):
        r = self.r
        c = r.random()
        if c < 0.06:
            # something mentioned, somewhere
            x = literals.number(r, M64 - 1) or 0
            x = list(x.to_bytes(max(1, (x.bit_length() + 7) // 8), "big")) if r.random() < 0.7 or not literals.ARRAYS \
                else list(r.choice(literals.ARRAYS))
            x = r.choice([x, x, x[::-1], x * n])[:n]
            p = r.choice([0, n - len(x), r.randint(0, n - len(x))])
            return [r.getrandbits(8) for _ in range(p)] + x + [r.getrandbits(8) for _ in range(n - p - len(x))]
        if c < 0.2:
            return [r.choice([0, 255, 128, 127, 32])] * n
        if c < 0.4:
            return [r.choice([0, 1, 15, 16, 17, 21, 22, 30, 127, 128, 247, 248, 249, 255]) for _ in range(n)]
        return [r.getrandbits(8) for _ in range(n)]

    def char(self):
        r = self.r
        return r.choice([
            lambda: chr(r.randint(32, 126)), lambda: chr(r.randint(32, 126)),
            lambda: chr(r.randint(0, 127)),
            lambda: chr(r.choice([0x80, 0xE9, 0x7FF, 0x3B1])),
            lambda: chr(r.choice([0x800, 0x20AC, 0xFFFD, 0xD7FF, 0xE000, 0xFFFF])),
            lambda: chr(r.choice([0x10000, 0x1F600, 0x10FFFF]))])()

    def text(self, n=None):
        """UTF-8 bytes of about n bytes."""
        n = self.size() if n is None else n
        o = b""
        if self.r.random() < 0.06:
            return list(self.r.choice([b" ", b"\0", b"a", b"0", b"\n", b"\x7f"]) * n)
        if self.r.random() < 0.25:
            for x in self.r.choice(SPECIAL):
                if len(o) + len(x.encode()) <= n:
                    o += x.encode()
            if self.r.random() < 0.3:
                return list(o)
            if self.r.random() < 0.3:
                return list(b"z" * (n - len(o)) + o)
        while True:
            c = self.char().encode()
            if len(o) + len(c) > n:
                return list(o + b"z" * (n - len(o)))
            o += c

    def key(self):
        r = self.r
        c = r.random()
        if c < 0.5:
            return list(r.choice([b"", b"a", b"b", b"aa", b"ab", b"A", b"k1", b"\xc3\xa9", b"z",
                                  b"a\x00", b"\xf0\x9f\x98\x80", b"\xef\xbf\xbd", b"\x7f"]))
        if c < 0.65:
            return list(r.choice(SPECIAL).encode())
        if c < 0.85:
            return self.longkey()
        return self.text(r.randint(0, 5))

    def longkey(self):
        return self.r.choice(self.keyfam())

    def keyfam(self):
        """Keys that begin alike: they differ behind a common beginning, or in length."""
        r = self.r
        unit = r.choice([b"abcdefgh", b"abcdefgh", b"a", b"k", b"\xc3\xa9", b"\0"])
        b = (unit * 300)[:r.choice([0, 3, 4, 7, 8, 8, 15, 16, 23, 31, 32, 63, 64, 127])]
        if unit[0] == 0xC3:
            b = b[:len(b) // 2 * 2]
        suf = [b"", b"a", b"ab", b"aaa", b"b", b"z", b"zz", b"Z", b"ZZZ", b"0", b"00", b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80",
               b"\xef\xbf\xbd", b"\0", b"\0\0", b"\x7f", b"A" * 9, b"0" * 30]
        return [list(b + x) for x in r.sample(suf, r.randint(3, 8))]

    def keys(self, n):
        if n > 1 and self.r.random() < 0.3:
            f = self.keyfam()
            return [self.r.choice(f) for _ in range(n)]
        return [self.key() for _ in range(n)]

    # ------------------------------------------------------------ tags
    def like(self, i):
        """Another number that agrees with i in some of its bits."""
        r = self.r
        return r.choice([i ^ (1 << r.randrange(64)), i + (1 << r.choice([8, 16, 32, 48])), i & 255, i & 65535, i & 0xFFFFFFFF,
                         (i + (r.getrandbits(32) << 32)), (i + (r.getrandbits(8) << 8)), i + 1, max(0, i - 1)]) % M64

    def tagrec(self, k, id_, b=(), w=(), c=(), s=()):
        return dict(k=k, id=W(id_), b=list(b), w=[W(x) for x in w], c=list(c), s=[list(x) for x in s])

    def id_for(self, k, std=0.75, implicit=False):
        r = self.r
        if k in NOID:
            return STD[k]
        if k in STD and r.random() < std:
            return STD[k]
        x = self.lit(M64 - 1, 0) if r.random() < 0.06 else 0
        if x > 31:
            return x
        if k in ("raw", "bdec") and r.random() < 0.5:
            return r.choice([26, 29, 32, 33, 77, 247, 248, 503, 504, 65783, 65784, M64 - 1])
        while True:
            i = r.choice([r.randint(0, 40), r.choice(BOUND), r.randint(16, 1 << 16), r.getrandbits(64)])
            if k in ("raw", "bdec", "pay", "env") and i < 16:
                continue
            if i < 16:
                # decoding needs the nominal size of implicit ids; for building only
                if not implicit:
                    continue
            return i

    def tag(self, depth=3, kinds=None, std=0.75, big=False, implicit=False):
        r = self.r
        leafs = ["null", "bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64",
                 "b128", "ilint", "silint", "bytes", "str", "bint", "bdec", "ilarr", "oid", "range",
                 "ver", "raw", "pay"]
        conts = ["arr", "seq", "dict", "sdict", "arr", "seq", "dict", "sdict", "env"]
        if kinds:
            k = r.choice(kinds)
        elif depth > 0 and r.random() < 0.6:
            k = r.choice(conts)
        else:
            k = r.choice(leafs)
        i = self.id_for(k, std, implicit)
        T = lambda **a: self.tagrec(k, i, **a)
        sub = lambda: self.tag(depth - 1, None, std, False, implicit)
        if k == "bool":
            return T(b=[r.randint(0, 1)])
        if k in ("f32", "f64") and r.random() < 0.6:
            return T(b=self.float_bits(FIX[k]))
        if k in FIX:
            return T(b=self.bytes(FIX[k]))
        if k in ("raw", "bytes", "bint", "pay"):
            return T(b=self.bytes(self.size(big)))
        if k == "str":
            return T(b=self.text(self.size(big)))
        if k == "bdec":
            return T(b=self.bytes(self.size(big)), s=[self.bytes(4)])
        if k in ("ilint", "silint"):
            return T(w=[self.word()])
        if k in ("ilarr", "oid"):
            return T(w=[self.word() for _ in range(self.size(big))])
        if k == "range":
            return T(w=[self.word()], b=self.bytes(2))
        n = r.choice([0, 1, 1, 2, 2, 3, 4]) if not big else r.choice([0, 1, 2, 247, 248, 249, 260])
        if big and n > 200:
            leaf = lambda: self.tagrec("u8", 3, b=[r.getrandbits(8)])
            if k in ("arr", "seq", "env"):
                return T(c=[leaf() for _ in range(n)])
            ks = [list(b"%d" % x) for x in r.sample(range(10000), n)]
            if k == "dict":
                return T(s=ks, c=[leaf() for _ in range(n)])
            return T(s=[y for x in ks for y in (x, self.text(2))])
        if k in ("arr", "seq", "env"):
            return T(c=[sub() for _ in range(n)])
        if k == "dict":
            return T(s=self.keys(n), c=[sub() for _ in range(n)])
        return T(s=[x for k in self.keys(n) for x in (k, self.text(r.randint(0, 6)))])

    def float_bits(self, n):
        r = self.r
        e = {4: 8, 8: 11}[n]
        m = n * 8 - 1 - e
        sg = r.randint(0, 1)
        ex = r.choice([0, 1, (1 << e) - 2, (1 << e) - 1, (1 << e) - 1, (1 << (e - 1)) - 1, r.getrandbits(e)])
        ma = r.choice([0, 1, 1 << (m - 1), (1 << (m - 1)) + 1, (1 << m) - 1, r.getrandbits(m)])
        v = (sg << (n * 8 - 1)) | (ex << m) | ma
        return list(v.to_bytes(n, "big"))

    # a registry under which the tag decodes to itself
    def registry(self, t, strict=None):
        x = {}

        def walk(t):
            i = num(t["id"])
            if i in x and x[i] != t["k"]:
                raise ValueError
            if (KIND.get(i)) != t["k"] and not (t["k"] == "raw" and i > 31):
                if i in (10, 14) or i < 16:
                    raise ValueError
                x[i] = t["k"]
            elif i in KIND:
                x.setdefault(i, t["k"])
            for c in t["c"]:
                walk(c)
        walk(t)
        y = [[W(i), k] for i, k in sorted(x.items()) if KIND.get(i) != k]
        return dict(strict=self.r.random() < 0.3 if strict is None else strict, base="std", x=y)

    def regtag(self, **a):
        """A tag and a registry that decodes it."""
        while True:
            t = self.tag(**a)
            try:
                reg = self.registry(t)
            except ValueError:
                continue
            if reg["strict"] and self.has_unreg_raw(t, reg):
                reg["strict"] = False
            return t, reg

    def has_unreg_raw(self, t, reg):
        ids = {num(e[0]) for e in reg["x"]}
        def w(t):
            return (t["k"] == "raw" and num(t["id"]) not in ids) or any(w(c) for c in t["c"])
        return w(t)

    # ------------------------------------------------------------ encoder for inputs
    def enc(self, t, lie=None, il=None, dictorder=None):
        """lie(n): the size or count written instead of n; il: integer encoder."""
        L = lie or (lambda n: n)
        I = il or ilint
        e = lambda c: self.enc(c, lie, il, dictorder)
        st = lambda b: [17] + I(L(len(b))) + list(b)
        k, b = t["k"], list(t["b"])
        w = [num(x) for x in t["w"]]
        if k in ("ilarr", "oid"):
            v = I(L(len(w))) + [y for x in w for y in I(x)]
        elif k == "ilint":
            v = I(w[0])
        elif k == "silint":
            s = w[0] if w[0] < 1 << 63 else w[0] - M64
            v = I(2 * s if s >= 0 else -2 * s - 1)
        elif k == "range":
            v = I(w[0]) + b
        elif k == "bdec":
            v = list(t["s"][0]) + b
        elif k in ("seq", "env"):
            v = [y for c in t["c"] for y in e(c)]
        elif k == "arr":
            v = I(L(len(t["c"]))) + [y for c in t["c"] for y in e(c)]
        elif k == "dict":
            v = I(L(len(t["c"])))
            for s, c in zip(t["s"], t["c"]):
                v += st(s) + e(c)
        elif k == "sdict":
            v = I(L(len(t["s"]) // 2)) + [y for s in t["s"] for y in st(s)]
        else:
            v = b
        i = num(t["id"])
        return I(i) + ([] if i < 16 else I(L(len(v)))) + v

    def nonmin(self, p):
        """Integer encoder that is non-minimal with probability p."""
        def f(v):
            if v >= 248 and self.r.random() < p:
                n = max(1, ((v - 248).bit_length() + 7) // 8)
                return ilint_w(v, self.r.choice([self.r.randint(n, 8), self.r.randint(n, 8), 8, n]))
            return ilint(v)
        return f

    def liar(self, p):
        def f(n):
            if self.r.random() < p:
                return max(0, self.r.choice([n - 1, n + 1, n + 2, n * 2, 0, 1, n + 247, n + 600, 70000, 1 << 20,
                                             (1 << 29) + 1, (1 << 32) - 1, (1 << 63), M64 - 1]))
            return n
        return f

    def mutate(self, b, n=1):
        r = self.r
        b = list(b)
        for _ in range(n):
            c = r.randint(0, 8)
            p = r.randrange(len(b) + 1)
            if c == 0 and b:
                b[p % len(b)] = r.getrandbits(8)
            elif c == 1 and b:
                b[p % len(b)] = r.choice([0, 1, 2, 10, 14, 15, 16, 17, 20, 21, 22, 30, 31, 247, 248, 249, 255])
            elif c == 2 and b:
                b[p % len(b)] = (b[p % len(b)] + r.choice([-1, 1])) % 256
            elif c == 3:
                b[p:p] = [r.getrandbits(8)]
            elif c == 4 and b:
                del b[p % len(b)]
            elif c == 5 and b:
                b = b[:p]
            elif c == 6:
                b += self.bytes(r.randint(1, 4))
            elif c == 7 and b:
                q = r.randrange(len(b))
                b[p:p] = b[q:q + r.randint(1, 6)]
            elif b:
                b[p % len(b)] ^= 1 << r.randint(0, 7)
        return b

    def garbage(self):
        r = self.r
        n = r.randint(0, 30)
        return [r.choice([0, 1, 2, 3, 4, 5, 8, 10, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26,
                          30, 31, 32, 65, 247, 248, 249, 255, r.getrandbits(8)]) for _ in range(n)]

    def stream(self):
        """Bytes to decode, and a registry: valid, nearly valid or garbage."""
        r = self.r
        c = r.random()
        if c < 0.1:
            return self.garbage(), r.choice([R0, RS])
        t, reg = self.regtag(depth=r.randint(0, 4), std=0.85)
        if c < 0.3:
            b = self.enc(t)
        elif c < 0.45:
            b = self.enc(t, il=self.nonmin(0.5))
        elif c < 0.6:
            b = self.enc(t, lie=self.liar(0.15))
        elif c < 0.7:
            b = self.enc(t, lie=self.liar(0.1), il=self.nonmin(0.3))
        else:
            b = self.mutate(self.enc(t), r.choice([1, 1, 1, 2, 3]))
        if r.random() < 0.3:
            b = b + self.bytes(r.randint(1, 5))
        if r.random() < 0.1:
            reg = r.choice([R0, RS, R(False, "empty"), R(True, "empty")])
        return b, reg


def sessions(ops, per=12, su="pure"):
    ops = list(ops)
    return [dict(su=su, ops=ops[i:i + per]) for i in range(0, len(ops), per)]


# ---------------------------------------------------------------- pure suites
def p_ilint(g, n):
    """Unsigned encoding, sizes and all decoding paths (P01)."""
    vs = list(BOUND) + [g.word() for _ in range(n)]
    for v in vs:
        yield dict(op="ienc", v=W(v), tail=g.bytes(g.r.choice([0, 1, 3])))
    for m in (256, 1024, 5000):
        yield dict(op="ienc", v=W(g.word()), tail=g.bytes(m))
    # the length of the slice is small but for its high bits
    for m in [256 + i for i in range(10)] + [512, 65536, 65538, 65544]:
        for v in (M64 - 1, 300):
            yield dict(op="ienc", v=W(v), tail=[7] * (m - len(ilint(v))))
    for h in range(256):
        yield dict(op="ihdr", h=h)


def p_idec(g, n):
    """Arbitrary bytes into the unsigned and signed decoders (P02)."""
    r = g.r
    yield dict(op="idec", b=[])
    yield dict(op="sdec", b=[])
    for h in range(256):
        k = 0 if h < 248 else h - 247
        yield dict(op="idec", b=[h] + g.bytes(k))
        if h >= 248:
            for j in range(k):
                yield dict(op="idec", b=[h] + [255] * j)
            for body in ([0] * k, [255] * k, [0] * (k - 1) + [1], [255] * (k - 1) + [7], [255] * (k - 1) + [8],
                         [255] * (k - 1) + [6], [1] + [0] * (k - 1)):
                for t in ([], [1, 2]):
                    yield dict(op="idec", b=[h] + body + t)
                yield dict(op="sdec", b=[h] + body)
                yield dict(op="ibody", b=body)
    for k in range(0, 12):
        yield dict(op="ibody", b=[0] * k)
        yield dict(op="ibody", b=[255] * k)
        yield dict(op="ibody", b=g.bytes(k))
    yield dict(op="ibody", b=[1] * 264)
    yield dict(op="ibody", b=[0] * 257)
    for x in range(-10, 10):
        b = list((M64 - 248 + x).to_bytes(8, "big"))
        yield dict(op="idec", b=[255] + b)
        yield dict(op="sdec", b=[255] + b)
        yield dict(op="ibody", b=b)
    for m in [256, 1023, 1024, 1025, 4096, 4097, 5000, 70000] + [g.lit(9000, 300) for _ in range(4)]:
        for op in ("idec", "sdec"):
            yield dict(op=op, b=r.choice([ilint, g.nonmin(1)])(r.choice([g.word(), r.choice([7, 300, M64 - 1])])) + g.bytes(m))
    for m in [256 + i for i in range(10)] + [512, 65536, 65540, 65544]:
        yield dict(op=["idec", "sdec"][m & 1], b=ilint_w(300, 8) + [7] * (m - 9))
        yield dict(op="ibody", b=[0] * (m - 1) + [5])
    for _ in range(n):
        v = g.word()
        c = r.random()
        if c < 0.4 and v >= 248:
            b = g.nonmin(1)(v)
        elif c < 0.7:
            b = ilint(v)
        else:
            b = [r.randint(248, 255)] + g.bytes(r.randint(0, 9))
        if r.random() < 0.3:
            b = b[:r.randint(0, len(b))]
        if r.random() < 0.3:
            b = b + g.bytes(r.randint(1, 3))
        yield dict(op=r.choice(["idec", "idec", "sdec"]), b=b)
        yield dict(op="ibody", b=g.bytes(r.randint(0, 9)))


def p_signed(g, n):
    """Signed mapping, both directions (P03)."""
    vs = set(BOUND) | {(-b) % M64 for b in BOUND} | {(b // 2) for b in BOUND} | {(-(b // 2) - 1) % M64 for b in BOUND}
    vs = sorted(vs) + [g.word() for _ in range(n)]
    for v in vs:
        yield dict(op="isgn", v=W(v), tail=g.bytes(g.r.choice([0, 1, 3])))
        yield dict(op="iuns", v=W(v))


PRIMS = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "f32": 4, "f64": 8}


def p_prim(g, n):
    """Primitive values and strings (P04)."""
    r = g.r
    for ty, k in PRIMS.items():
        pats = [[0] * k, [255] * k, [127] + [255] * (k - 1), [128] + [0] * (k - 1), list(range(1, k + 1)), [0] * (k - 1) + [1]]
        if ty[0] == "f":
            pats += [g.float_bits(k) for _ in range(40)]
            pats += [[127, 240 if k == 8 else 128] + [0] * (k - 3) + [1], [255, 240 if k == 8 else 128] + [0] * (k - 2),
                     [127, 248 if k == 8 else 192] + [0] * (k - 2)]
        pats += [g.bytes(k) for _ in range(max(8, n // 20))]
        if k == 1:
            pats += [[x] for x in range(0, 256, 5)]
        for b in pats:
            yield dict(op="prim", ty=ty, b=b, tail=g.bytes(r.choice([0, 1, 9])))
        for j in range(k):
            yield dict(op="prim", ty=ty, b=g.bytes(j), tail=[])
    for _ in range(n):
        c = r.random()
        if c < 0.5:
            b = g.text(r.choice([0, 1, 2, 3, 5, 8, 20, 247, 248, 300]) if r.random() < 0.2 else r.randint(0, 12))
        elif c < 0.8:
            b = g.mutate(g.text(r.randint(1, 10)), 1)
        else:
            b = g.bytes(r.randint(0, 8))
        m = len(b) if r.random() < 0.6 else r.randint(0, len(b) + 3)
        yield dict(op="str", b=b, n=m)
    for m in (1, 2, 4, 8, 15, 16, 17, 31, 32, 63, 64, 65, 100, 128, 255, 256, 512, 1000, 1024):
        for ch in (b" ", b"\0", r.choice([b"a", b"\t", b"\n", b"\r", b"0", b"\x7f"]), r.choice([b"\xc3\xa9", b"\xe2\x82\xac"])):
            b = list(ch * m)
            c = r.random()
            if c < 0.15:
                b[r.choice([0, -1])] = r.choice([9, 32, 65])
            yield dict(op="str", b=b, n=len(b))
    for x in SPECIAL:
        x = x.encode()
        for b in dict.fromkeys((x, b"a" + x, x + b"a", b"a" + x + b"b", x + x, b"a" + x + b"b" + x)):
            yield dict(op="str", b=list(b), n=len(b))
    for b in long_texts(g):
        yield dict(op="str", b=b, n=len(b))
    for b in utf8_cases():
        yield dict(op="str", b=b, n=len(b))
        yield dict(op="str", b=[65] + b + [66], n=len(b) + 2)


def long_texts(g):
    """Characters of several bytes across the boundaries of blocks, right and wrong."""
    r = g.r
    for cut in (16, 32, 64, 128, 512, 1024, 4096, 8192):
        for ch in (b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80"):
            before = r.randint(1, len(ch) - 1)
            for bad in (ch, ch[:before], ch[before:], ch[:before] + b"A" + ch[before:]):
                b = [r.randint(32, 126) for _ in range(cut - before)] + list(bad) + [r.randint(32, 126) for _ in range(r.choice([0, 1, 9]))]
                if cut < 4096 or r.random() < 0.5:
                    yield b
    for n in (65535, 65536, 65537, 66000):
        yield [r.randint(32, 126) for _ in range(n - 2)] + [0xC3, r.choice([0xA9, 0x41])]


def utf8_cases():
    """Every boundary of well-formedness: lead byte x second byte x truncation."""
    o = []
    for lead in [0x7F, 0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5,
                 0xF8, 0xFF]:
        for second in [None, 0x00, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xFF]:
            for rest in ([], [0x80], [0x80, 0x80], [0xBF, 0xBF], [0x80, 0x41], [0x41, 0x80]):
                o.append([lead] + ([] if second is None else [second]) + rest)
    return o


def p_strtag(g, n):
    r = g.r
    for x in SPECIAL:
        x = x.encode()
        for b in dict.fromkeys((x, b"a" + x + b"b", x + x)):
            yield dict(op="strtag", b=list(b), raw=[17] + ilint(len(b)) + list(b))
    for _ in range(n):
        b = g.text(r.choice([0, 1, 5, 246, 247, 248, 249, 503, 504]) if r.random() < 0.3 else r.randint(0, 10))
        raw = [17] + g.nonmin(0.3)(len(b)) + b
        c = r.random()
        if c < 0.3:
            raw = g.mutate(raw, 1)
        elif c < 0.5:
            raw = [17] + ilint(g.liar(0.7)(len(b))) + b
        elif c < 0.6:
            raw = [r.choice([16, 18, 0, 248])] + raw[1:]
        if r.random() < 0.3:
            raw = raw + g.bytes(3)
        yield dict(op="strtag", b=b, raw=raw)
        if r.random() < 0.3:
            yield dict(op="strtag", b=b, raw=raw[:r.choice([0, 1, 2, 3, r.randint(0, len(raw)), len(raw) - 1])])
    for n in (1, 3, 250, 600):
        raw = [17] + ilint(n) + [65 + i % 26 for i in range(n)]
        for cut in {0, 1, 2, 3, 4, 5, len(raw) - 1, len(raw) - 2, r.randint(0, len(raw))}:
            yield dict(op="strtag", b=raw[-3:], raw=raw[:cut])


def p_ids(g, n):
    vs = list(range(0, 300)) + BOUND + [(1 << 29) + d for d in range(-3, 4)] + [g.word() for _ in range(n)]
    for v in vs:
        yield dict(op="ids", v=W(v))


def p_ser(g, n, big=0.06):
    """Serialized form and sizes of trees built through the API (P05)."""
    r = g.r
    for k in list(STD) + ["raw", "pay", "env"]:
        for _ in range(4):
            yield dict(op="ser", t=g.tag(2, [k], std=r.choice([1, 0, 0.5]), implicit=r.random() < 0.3))
    for _ in range(n):
        if r.random() < big:
            yield dict(op="ser", t=g.tag(1, None, big=True))
        else:
            yield dict(op="ser", t=g.tag(r.randint(0, 5), std=r.choice([1, 0.5]), implicit=r.random() < 0.1))


def special_tags(g):
    """Contents that implementations like to treat specially, for every kind that can hold them."""
    T, r = g.tagrec, g.r
    for x in SPECIAL:
        x = x.encode()
        v = [x, b"a" + x, x + b"a", b"a" + x + b"b", x + x, b"a" + x + b"b" + x + b"c"]
        v = [list(y) for y in dict.fromkeys(v)]
        yield T("str", 17, b=v[3])
        yield T("seq", 22, c=[T("str", 17, b=y) for y in v])
        yield canon(T("sdict", 31, s=[y for i, k in enumerate(v) for y in (k, v[i - 1])]))
        yield canon(T("dict", 30, s=v, c=[T("bool", 1, b=[i % 2]) for i in range(len(v))]))
    bs = [[], [0], [0, 0], [0, 0, 1], [1, 0], [1, 0, 0], [255], [255, 255], [255, 127], [255, 128], [0, 127], [0, 128], [128], [127],
          [255, 255, 255, 1], [0] * 16, [255] * 16, [5] * 16, [1, 2] * 8, [17, 1, 65], [16, 0], [31, 1, 0], [248, 0], [255] * 9, [0xEF, 0xBB, 0xBF],
          list(b"\x1f\x8b\x08"), list(b"\r\n"), [26], [1] + [0] * 300, [0] * 300 + [1]]
    for b in bs:
        for k in ("bytes", "bint", "raw", "pay"):
            yield T(k, STD.get(k, 100), b=b)
        for sc in ([0, 0, 0, 0], [255] * 4, [128, 0, 0, 0], [127, 255, 255, 255], [0, 0, 0, 1]):
            yield T("bdec", STD["bdec"], b=b, s=[sc])
    M = M64 - 1
    for w in ([], [0], [0, 0], [0, 0, 1], [1, 1, 1], [1, 0, 0], [M], [M, M], [247, 248], [5, 5, 6, 6], [3, 2, 1], [1, 2, 3], [2, 999, 5],
              [0, M, 0], [1 << 63], [248] * 9, [7] * 40):
        for k in ("ilarr", "oid"):
            yield T(k, STD[k], w=w)
    # long, all alike but for one
    for m in (9, 40, 130, 300, 520):
        for p in (0, 1, m // 3, m // 2, m - 2, m - 1):
            a, o = r.choice([(1, 300), (300, 1), (5, 6), (M, 0), (247, 248)])
            yield T("ilarr", 20, w=[a] * p + [o] + [a] * (m - 1 - p))
            a, o = r.choice([("null", "seq"), ("seq", "null"), ("str", "arr")])
            e = [T(a, STD[a])] * p + [T(o, STD[o])] + [T(a, STD[a])] * (m - 1 - p)
            k = r.choice(["seq", "arr"])
            yield T(k, STD[k], c=e)
            if m < 200:
                ks = [list(b"%03d" % i) for i in range(m)]
                yield T("dict", 30, s=ks, c=e)
                ks[p] = list(b"%03d" % p + b"x" * r.choice([1, 250]))
                yield T("sdict", 31, s=[y for i, k in enumerate(ks) for y in (k, [66] if i != p else [67] * r.choice([2, 250]))])
    for k, n in FIX.items():
        if n == 0:
            continue
        if k == "bool":
            fs = [0, 1]
        else:
            top = 1 << (8 * n - 1)
            fs = [0, 1, top - 1, top, top + 1, 2 * top - 1, 2 * top - 2, int.from_bytes(b"\1\2\3\4\5\6\7\x08\x09\x0a\x0b\x0c\x0d\x0e\x0f\x10"[:n], "big")]
            m = dict(f32=23, f64=52, b128=112).get(k)
            if m:
                inf = ((1 << (8 * n - 1 - m)) - 1) << m
                fs += [y + z * top for z in (0, 1) for y in (inf, inf + 1, inf + (1 << (m - 1)), inf + (1 << (m - 1)) + 7, inf - 1, 1 << m, (1 << m) - 1)]
        for x in fs:
            yield T(k, STD[k], b=x.to_bytes(n, "big"))
    for w in (0, 1, 247, 248, 503, 504, M, M - 1, 1 << 63, (1 << 63) - 1):
        yield T("ilint", 10, w=[w])
        yield T("silint", 14, w=[w])
        for c in ([0, 0], [0, 1], [1, 0], [255, 255]):
            yield T("range", 23, w=[w], b=c)
    for c in ([], ["null"], ["null", "null"], ["seq"], ["seq", "seq"], ["arr", "seq", "dict", "sdict"], ["str", "null", "str"]):
        c = [T(k, STD[k]) for k in c]
        for k in ("seq", "arr"):
            yield T(k, STD[k], c=c)
        yield T("dict", 30, s=[[97 + i] for i in range(len(c))], c=c)


def p_special(g, n):
    """Special contents: written, read, cloned and compared (P05, P06, P07, P10, P13)."""
    for j, t in enumerate(special_tags(g)):
        if n & 1:
            yield dict(op="ser", t=t)
        if n & 2:
            yield dict(op="dec", b=g.enc(t) + [[], [17, 0]][j % 2], R=R0 if t["k"] != "pay" else dict(R0, x=[[W(100), "pay"]]))
        if n & 4:
            yield dict(op="clone", t=t, std=True, R=R0)
        if n & 8:
            m = len(g.enc(t))
            yield dict(op="fault", t=t, ks=[] if m <= 24 else sorted({0, 1, 2, 3, m - 1, m, m + 1, g.r.randint(0, m), g.r.randint(0, m)}))
    if n & 48:
        # one special content after, or next to, another of the same kind
        last = {}
        for t in special_tags(g):
            p, last[t["k"]] = last.get(t["k"], t), t
            if len(g.enc(t)) > 2000:
                continue
            if n & 16:
                R = R0 if t["k"] != "pay" else dict(R0, x=[[W(100), "pay"]])
                for a, b in ((p, t), (t, p)):
                    yield dict(op="into", b=g.enc(b), R=R, t=a, pre=[])
            if n & 32:
                yield dict(op="eq", a=p, b=t)


def p_ser_sizes(g):
    """Value sizes around every class boundary, also nested."""
    for n in (0, 1, 245, 246, 247, 248, 249, 250, 502, 503, 504, 505, 506):
        for k in ("raw", "bytes", "str", "bdec", "bint"):
            b = g.text(n) if k == "str" else g.bytes(n)
            i = STD.get(k, 100)
            t = g.tagrec(k, i, b=b, s=[g.bytes(4)] if k == "bdec" else [])
            yield dict(op="ser", t=t)
            yield dict(op="ser", t=g.tagrec("seq", 22, c=[t]))
            yield dict(op="ser", t=g.tagrec("arr", 21, c=[t, g.tagrec("null", 0)]))
            yield dict(op="ser", t=g.tagrec("dict", 30, s=[g.text(n)], c=[t]))
        yield dict(op="ser", t=g.tagrec("sdict", 31, s=[g.text(n), g.text(n)]))
        yield dict(op="ser", t=g.tagrec("ilarr", 20, w=[g.word() for _ in range(n)]))
        yield dict(op="ser", t=g.tagrec("arr", 21, c=[g.tagrec("null", 0)] * n))
        yield dict(op="ser", t=g.tagrec("seq", 22, c=[g.tagrec("bool", 1, b=[1])] * (n // 2)))


def all_kinds_roundtrip(g, m):
    """Every kind under its standard id and under another one, with decoding."""
    for k in list(STD) + ["raw", "pay", "env"]:
        for j in range(m):
            for _ in range(50):
                t = g.tag(2, [k], std=1 if j % 2 == 0 else 0)
                try:
                    reg = g.registry(t, strict=False)
                    break
                except ValueError:
                    continue
            else:
                continue
            yield t, reg


def p_round(g, n):
    """Encoding then decoding, concatenations (P06)."""
    r = g.r
    for t, reg in all_kinds_roundtrip(g, 6):
        yield dict(op="dec", b=g.enc(t) + g.bytes(r.choice([0, 0, 2])), R=reg)
    for _ in range(n):
        t, reg = g.regtag(depth=r.randint(0, 5), big=r.random() < 0.05)
        b = g.enc(t)
        yield dict(op="dec", b=b + g.bytes(r.choice([0, 0, 1, 20])), R=reg)
        if r.random() < 0.4:
            ts = [g.tag(r.randint(0, 2), std=1) for _ in range(r.randint(0, 6))]
            b = [y for t in ts for y in g.enc(t)]
            if r.random() < 0.2:
                b = b[:r.randint(0, len(b))]
            yield dict(op="cat", b=b, R=R0, m=len(ts) + r.choice([0, 0, 1]))


def p_dec(g, n):
    """Arbitrary input to the decoder (P07, P08)."""
    r = g.r
    for b in long_texts(g):
        if len(b) < 1200:
            yield dict(op="dec", b=[17] + ilint(len(b)) + b, R=R0)
            v = [1, 17] + ilint(len(b)) + b + [17, 1, 65]
            yield dict(op="dec", b=[31] + ilint(len(v)) + v, R=R0)
    for b in craft(g):
        yield dict(op="dec", b=b, R=R0)
        if r.random() < 0.3:
            yield dict(op="dec", b=g.enc(g.tagrec("raw", 22, b=b)) + g.bytes(4), R=R0)
    for _ in range(n):
        b, reg = g.stream()
        yield dict(op="dec", b=b, R=reg)


def craft(g):
    """Malformed values of every kind: the right content with lengths, counts and
    contents slightly off, alone and with bytes behind that would fit."""
    o = []
    for k, i in STD.items():
        for _ in range(3):
            t = g.tag(1, [k], std=1)
            full = g.enc(t)
            if i < 16:
                o += [full, full[:-1], full + [0], full[:1]]
                continue
            v = g.enc(dict(t, id=W(i)))
            # split header/value
            h, val = split(v)
            for d in (-1, 0, 1, 2, 5):
                n = len(val) + d
                if n < 0:
                    continue
                for pad in ([], [0], [1, 2, 3, 4, 5, 6, 7], val):
                    o.append([i] + ilint(n) + val + pad)
            o.append([i] + ilint(0))
            o.append([i] + ilint(1) + [0])
            o.append([i] + ilint(len(val) + 1) + val + [0])
            o.append([i] + ilint(len(val) + 2) + [0] + val + [0])
            # length just above the maximum, and overflowing
            for n in ((1 << 19), (1 << 29) + 1, (1 << 31), (1 << 32) + len(val), (1 << 63), M64 - 1, M64 - 2, M64 - 8):
                o.append([i] + ilint(n) + val)
            o.append([i] + [255] * 9 + val)
    # counts against elements
    for i in (20, 21, 25, 30, 31):
        for cnt in (0, 1, 2, 3, 4, 247, 248, 300, 1 << 16, 1 << 29, 1 << 32, (1 << 32) + 2, 1 << 61, 1 << 63, M64 - 1):
            for el in ([], [0], [0, 0], [1, 1], [0, 0, 0], [17, 1, 97, 0], [17, 0, 17, 0], [17, 1, 97, 17, 1, 98],
                       [17, 1, 97, 0, 17, 1, 97, 1, 1], [17, 1, 255, 0], [16, 1, 97, 0], [18, 1, 97, 17, 1, 97],
                       [17, 2, 97], [10, 5], [248, 0], [255] * 9):
                v = ilint(cnt) + el
                o.append([i] + ilint(len(v)) + v)
    for x in (0, 1, 2, 3, 127, 128, 255):
        o.append([1, x])
        o.append([22, 2, 1, x])
    for i in range(0, 40):
        o += [[i], [i, 0], [i, 1, 0], [i, 2, 0, 0]]
    for hdr in range(248, 256):
        o += [[10, hdr] + [255] * (hdr - 247), [14, hdr] + [255] * (hdr - 247), [10, hdr] + [255] * (hdr - 248),
              [10, hdr] + [0] * (hdr - 247), [hdr] + [0] * (hdr - 247) + [1, 5], [hdr] + [255] * (hdr - 247) + [1, 5]]
    for b in utf8_cases()[::7]:
        o.append([17, len(b)] + b)
        o.append([31, len(b) + 5, 1, 17, len(b)] + b + [17, 0])
        o.append([30, len(b) + 4, 1, 17, len(b)] + b + [0])
    # nested: inner length beyond the enclosing value, with bytes available behind
    for outer in (21, 22, 30):
        for inner in (16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 30, 31, 77):
            for over in (1, 2, 5, 40, 600):
                pre = {21: [1], 22: [], 30: [1, 17, 1, 97]}[outer]
                v = pre + [inner] + ilint(3 + over) + [1, 0, 0]
                o.append([outer] + ilint(len(v)) + v + [0] * (over + 3))
    for fixed in range(0, 15):
        for outer in (21, 22, 30):
            pre = {21: [1], 22: [], 30: [1, 17, 1, 97]}[outer]
            v = pre + [fixed]
            o.append([outer] + ilint(len(v)) + v + [0] * 20)
            v = pre + [fixed, 0]
            o.append([outer] + ilint(len(v)) + v + [1] * 20)
    for outer in (21, 22, 30):
        pre = {21: [1], 22: [], 30: [1, 17, 1, 97]}[outer]
        v = pre + [10, 250, 1]
        o.append([outer] + ilint(len(v)) + v + [1] * 20)
    return o


def split(b):
    def rd(p):
        if b[p] < 248:
            return b[p], p + 1
        n = b[p] - 247
        return int.from_bytes(bytes(b[p + 1:p + 1 + n]), "big") + 248, p + 1 + n
    _, p = rd(0)
    n, q = rd(p)
    return b[:q], b[q:q + n]


def p_trunc(g, n):
    """All strict prefixes and paddings of encodings (P09)."""
    r = g.r
    for t, reg in all_kinds_roundtrip(g, 4):
        b = g.enc(t)
        if len(b) < 200:
            yield dict(op="trunc", b=b, R=reg)
    for _ in range(n):
        t, reg = g.regtag(depth=r.randint(0, 4))
        b = g.enc(t, il=g.nonmin(0.3) if r.random() < 0.3 else None)
        if len(b) <= 120:
            yield dict(op="trunc", b=b, R=reg)
    for t in (g.tagrec("bytes", 16, b=[7] * 250), g.tagrec("str", 17, b=[65] * 249),
              g.tagrec("ilarr", 20, w=[70000] * 20)):
        yield dict(op="trunc", b=g.enc(t), R=R0)


def p_into(g, n):
    """Decoding into existing instances (P12)."""
    r = g.r
    kinds = list(STD) + ["raw", "pay", "env"]
    done = 0
    while done < n:
        k = kinds[done % len(kinds)] if done < 3 * len(kinds) else r.choice(kinds)
        t, reg = None, None
        for _ in range(40):
            t0 = g.tag(2, [k], std=r.choice([1, 0.3]))
            t1 = dict(g.tag(2, [k], std=1), id=t0["id"])
            t2 = dict(g.tag(2, [k], std=1), id=t0["id"])
            if done % 2 == 1:
                t1 = near(g, t0)
            try:
                reg = g.registry(g.tagrec("seq", 22, c=[t0, t1, t2]), strict=False)
            except ValueError:
                continue
            t = t0
            break
        done += 1
        if t is None:
            continue
        pre = []
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            p = g.enc(r.choice([t1, t2, t0]), lie=g.liar(0.1))
            pre.append(g.mutate(p, 1) if r.random() < 0.5 else p)
        c = r.random()
        if c < 0.6:
            b = g.enc(t1, il=g.nonmin(0.3))
        elif c < 0.8:
            b = g.mutate(g.enc(t1), 1)
        elif c < 0.9:
            other = g.tag(1, std=1)
            b = g.enc(other)
        else:
            b = g.enc(dict(t1, id=W(g.like(num(t["id"])))))
        yield dict(op="into", b=b + g.bytes(r.choice([0, 2])), R=reg, t=t, pre=pre)
    # one element replaced by another of the same id and size, in the same place or under the same key
    for box in ("seq", "arr", "env", "dict") if n >= 100 else ():
        for k in kinds:
            for own in (False, True):
                for _ in range(60):
                    a = g.tag(1, [k], std=1)
                    if own and k not in NOID:
                        a = dict(a, id=W(1000))
                    z = near(g, a) if r.random() < 0.6 else dict(g.tag(1, [k], std=1), id=a["id"])
                    ea, ez = g.enc(a), g.enc(z)
                    if z["k"] == k and z["id"] == a["id"] and ea != ez and len(ea) == len(ez):
                        break
                else:
                    continue
                end = g.tag(0, std=1)
                key = [[107], [108]] if box == "dict" else []
                i = STD.get(box, 1001)
                try:
                    reg = g.registry(g.tagrec("seq", 22, c=[g.tagrec(box, i, c=[x, end], s=key) for x in (a, z)]), strict=False)
                except ValueError:
                    continue
                yield dict(op="into", b=g.enc(g.tagrec(box, i, c=[z, end], s=key)), R=reg, t=g.tagrec(box, i, c=[a, end], s=key), pre=[])


def p_eqclone(g, n):
    """Equality and cloning (P13)."""
    r = g.r
    for _ in range(n):
        t, reg = g.regtag(depth=r.randint(0, 3), std=r.choice([1, 0.7]))
        yield dict(op="clone", t=t, std=r.random() < 0.5, R=reg if r.random() < 0.8 else r.choice([R0, RS]))
        c = r.random()
        if c < 0.2:
            u = t
        elif c < 0.5 and num(t["id"]) >= 16:
            # another type with the same bytes
            _, v = split(g.enc(canon(t)))
            u = g.tagrec(r.choice(["raw", "pay"]), num(t["id"]), b=v)
        elif c < 0.7:
            u = tweak(g, t)
        elif c < 0.8 and t["k"] == "dict":
            o = list(range(len(t["c"])))
            r.shuffle(o)
            u = dict(t, s=[t["s"][i] for i in o], c=[t["c"][i] for i in o])
        elif c < 0.9:
            u = dict(t, id=W(num(t["id"]) + 1 if num(t["id"]) < M64 - 1 else 32)) if t["k"] not in NOID and num(t["id"]) > 31 else g.tag(1)
        else:
            u = g.tag(2)
        yield dict(op="eq", a=t, b=u)


def p_eqbig(g, n):
    """Equality and clones of large values (P13)."""
    r = g.r
    blob = ["raw", "bytes", "str", "pay", "seqof"]
    for i in range(n):
        k = (blob + ["ilarr", "arr", "seq", "dict"])[i % 9]
        m = r.choice([300, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65535, 65536, 65784, 70000, 200000, 1 << 20, (1 << 20) + 7])
        if k not in blob:
            m = min(m, r.choice([250, 5000, 20000]))
        id_ = {"bytes": 16, "str": 17, "raw": r.choice([16, 17, 77, 300]), "seqof": 22, "ilarr": 20, "arr": 21, "seq": 22,
               "dict": 30}.get(k, 1000)
        a = dict(k=k, id=W(id_), n=m, d=[])
        pos = lambda m: r.choice([0, m - 1, m // 2, r.randrange(m), min(m - 1, 4096), min(m - 1, 255)])
        if r.random() < 0.3:
            a["d"] = [pos(m)]
        b = dict(a)
        c = r.random()
        if c < 0.25:
            pass
        elif c < 0.75:
            b["d"] = sorted({pos(m) for _ in range(r.choice([1, 1, 2]))})
        elif c < 0.85:
            b["n"] = m + r.choice([-1, 1])
            a["d"] = b["d"] = []
        elif k in ("raw", "bytes", "str") and id_ in (16, 17):
            b["k"] = "raw"
        elif k in ("raw", "pay", "ilarr", "arr", "seq", "dict"):
            b["id"] = W(id_ + 100)
        yield dict(op="eqbig", x=a, y=b)


def canon(t):
    c = [canon(x) for x in t["c"]]
    if t["k"] == "dict":
        d = {}
        for s, x in zip(t["s"], c):
            d[bytes(s)] = x
        ks = sorted(d)
        return dict(t, s=[list(k) for k in ks], c=[d[k] for k in ks])
    if t["k"] == "sdict":
        d = {bytes(t["s"][i]): t["s"][i + 1] for i in range(0, len(t["s"]), 2)}
        return dict(t, s=[y for k in sorted(d) for y in (list(k), d[k])])
    return dict(t, c=c)


def cutoff(g, t):
    """A tag with the beginning of another one's value, or a value that begins with it."""
    r = g.r
    n = lambda q: r.choice([0, max(0, len(q) - 1), r.randint(0, len(q))])
    more = r.random() < 0.4
    k = t["k"]
    if k in ("raw", "bytes", "bint", "bdec", "pay"):
        return dict(t, b=list(t["b"]) + g.bytes(r.choice([1, 2, 9])) if more else list(t["b"])[:n(t["b"])])
    if k == "str":
        b = bytes(t["b"])
        return dict(t, b=list(b + bytes(g.text(r.choice([1, 2, 9]))) if more else b[:n(b)].decode(errors="ignore").encode()))
    if k in ("ilarr", "oid"):
        return dict(t, w=list(t["w"]) + [W(g.word())] if more else list(t["w"])[:n(t["w"])])
    if k in ("seq", "arr", "env"):
        return dict(t, c=list(t["c"]) + [g.tag(0, std=1)] if more else list(t["c"])[:n(t["c"])])
    if k in ("dict", "sdict") and t["s"]:
        j = n(t["s"]) if k == "dict" else n(t["s"]) // 2 * 2
        return dict(t, s=t["s"][:j], c=t["c"][:j])


def tweak(g, t):
    """A tag that differs in one place (often with the same length)."""
    r = g.r
    if t["c"] and r.random() < 0.7:
        i = r.randrange(len(t["c"]))
        c = list(t["c"])
        c[i] = tweak(g, c[i])
        return dict(t, c=c)
    if r.random() < 0.3:
        u = cutoff(g, t)
        if u:
            return u
    if t["k"] == "bool":
        return dict(t, b=[1 - t["b"][0]])
    if t["b"] and t["k"] != "str":
        b = list(t["b"])
        i = r.choice([0, len(b) - 1, r.randrange(len(b))])
        b[i] ^= 1 << r.randint(0, 7)
        return dict(t, b=b)
    if t["k"] == "str" and t["b"] and max(t["b"]) < 127:
        b = list(t["b"])
        b[-1] = b[-1] ^ 1
        return dict(t, b=b)
    if t["w"]:
        w = list(t["w"])
        w[-1] = W(num(w[-1]) ^ 1)
        return dict(t, w=w)
    return t


def p_scan(g, n):
    """Scanning concatenations, damaged or not (P14)."""
    r = g.r
    for _ in range(n):
        il = g.nonmin(0.4) if r.random() < 0.4 else ilint
        b, ids = [], []
        for _ in range(r.randint(0, 6)):
            if r.random() < 0.5:
                t = g.tag(r.randint(0, 2), std=0.9)
                b += g.enc(t, il=il)
                ids.append(num(t["id"]))
            else:
                i = r.choice([r.randint(16, 300), r.choice(BOUND), g.lit(M64 - 1, 16)])
                if i < 16:
                    continue
                v = g.bytes(g.size(big=r.random() < 0.2))
                b += il(i) + il(len(v)) + v
                ids.append(i)
        c = r.random()
        if c < 0.25:
            b = g.mutate(b, 1)
        elif c < 0.35:
            b = b[:r.randint(0, len(b))]
        elif c < 0.45:
            b += r.choice([[15], [16], [16, 5, 1], [248], [77] + ilint(M64 - 1), [77, 255] + [255] * 8,
                           [77] + ilint(M64 - len(b)), [10, 250, 1], [14], [8, 1]])
        want = []
        if r.random() < 0.35 and ids:
            want = [W(i) for i in ids]
            if r.random() < 0.6:
              for j in {r.randrange(len(want)) for _ in range(r.choice([1, 1, 2, 4]))}:
                want[j] = W(r.choice([0, 16, 15, num(want[j]) + 1, max(0, num(want[j]) - 1), g.like(num(want[j])), g.like(num(want[j]))]))
        if want:
            yield dict(op="scan", b=b, m=len(ids) + r.choice([0, 0, 1]), want=want)
        else:
            yield dict(op="scan", b=b, m=len(ids) + r.choice([0, 1, 2]), want=[])
    # every width of the id with every width of the length
    for a in range(1, 9):
        for c in range(1, 9):
            b, m = [], 0
            for k in range(1, a + 1):       # the width that would do
                v = 248 + r.randrange(256 ** (k - 1) if k > 1 else 0, min(256 ** k, M64 - 248))
                b += ilint_w(v, a) + ilint_w(248 + k, c) + g.bytes(248 + k)
                m += 1
            yield dict(op="scan", b=b + [0], m=m + 2, want=[])
    # many small tags
    for _ in range(n // 60):
        b, m = [], r.choice([g.lit(400, 60), 60, 127, 128, 129, 200, 255, 256, 257, 300])
        for _ in range(m):
            b += r.choice([[0], [1, 0], [10, r.randrange(248)], [3, 9], [17, 1, 65], [77, 0], [16, 2, 1, 2], [10, 248, 7]])
        yield dict(op="scan", b=b[:len(b) - r.choice([0, 0, 1])], m=m + r.choice([0, 1]), want=[])
    # huge declared values over virtual data
    seg = lambda h, size, z: dict(b=h + ilint(size), z=W(z))
    for hdr in ([77], [16], [249, 1, 1], [255] + [0] * 8):
        for size in (0, 1, 511, 512, 513, 1023, 1024, 1025, 5000, 70000, 1 << 20, (1 << 24) + 3):
            for d in (-1, 0, 1):
                if size + d >= 0:
                    yield dict(op="skipbig", segs=[seg(hdr, size, size + d)])
        yield dict(op="skipbig", segs=[seg(hdr, (1 << 29) + 1, (1 << 29) + 1)])
        for size in BIG:
            for d in (-1, 0, 1):
                yield dict(op="skipbig", segs=[seg(hdr, size, size + d)])
    for _ in range(60):
        left = M64 - 2000
        segs = []
        for _ in range(r.randint(1, 5)):
            z = min(left, r.choice(BIG + [0, 3, 700, r.getrandbits(r.randint(1, 63))]))
            left -= z + 20
            if left < 0:
                break
            segs.append(seg(r.choice([[77], [16], [249, 1, 1]]), z, z))
            if r.random() < 0.2:
                segs.append(dict(b=r.choice([[0], [3, 7], [8] + [1] * 8]), z=W(0)))
                if segs[-1]["b"][0]:
                    segs.pop()
        if segs:
            if r.random() < 0.3:
                segs[-1]["z"] = W(max(0, num(segs[-1]["z"]) - 1))
            yield dict(op="skipbig", segs=segs)


# sizes that do not fit in 31, 32, 33 ... bits
BIG = [(1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 5, 5 << 32, 1 << 40, (1 << 53) + 1,
       (1 << 62) + 3, (1 << 63) - 1, 1 << 63, M64 - 300]


def p_ext(g, n):
    """Arithmetic and mapping of extents (P15)."""
    r = g.r
    for _ in range(n):
        b = g.bytes(r.randint(0, 40))
        if r.random() < 0.3:
            # large ones; a parent's value leaves room for what is mapped into it
            room = M64 - 1 - r.choice([0, 0, 1, 5, 1 << 33, 1 << 63])
            v = min(room, r.choice(BIG + [r.getrandbits(r.randint(1, 64)), 3]))
            h = min(room - v, r.randint(0, 18))
            o = min(room - v - h, r.choice([0, 1, 7] + BIG + [r.getrandbits(r.randint(1, 64))]))
        else:
            o, h, v = r.randint(0, 20), r.randint(0, 6), r.randint(0, 20)
            if r.random() < 0.15:
                h = r.choice([18, 19, 255, 256, 257, 300, 65536, 1 << 32])
                b = g.bytes(r.choice([len(b), 400]))
        ext = lambda o, h, v: dict(id=W(g.word()), off=W(o), hdr=W(h), val=W(v))
        x = ext(o, h, v)
        par = []
        cur = o + h + v
        for _ in range(r.randint(0, 4)):
            v2 = min(M64 - 1, max(0, cur + r.choice([-1, 0, 0, 1, 2, 10, -3, 5])))
            if r.random() < 0.1:
                v2 = r.randint(0, min(M64 - 1, cur))
            h2 = min(M64 - 1 - v2, r.choice([r.randint(0, 18)] * 6 + [255, 256, 300, 1 << 16, 1 << 33]))
            o2 = min(M64 - 1 - v2 - h2, r.choice([0, 1, r.randint(0, 30)] + BIG))
            par.append(ext(o2, h2, v2))
            cur += o2 + h2
            if cur > v2 + o2 + h2:      # does not fit
                break
        yield dict(op="ext", b=b, x=x, par=par)


def p_nest(g, n):
    """Scanning through several levels, mapped back (P15)."""
    r = g.r
    while n > 0:
        t = g.tag(r.randint(2, 6), ["arr", "seq", "dict"], std=0.8)
        il = g.nonmin(0.5) if r.random() < 0.4 else ilint
        t = canon(t)
        b0 = [y for _ in range(r.randint(0, 2)) for y in g.enc(g.tag(0, std=1))]
        b = b0 + g.enc(t, il=il) + g.bytes(r.randint(0, 3))
        path = [[len(b0), 0]]
        cur = t
        while cur["c"] and r.random() < 0.9:
            i = r.randrange(len(cur["c"]))
            if cur["k"] in ("seq", "env"):
                path.append([0, i])
            elif cur["k"] == "arr":
                path.append([1, i])
            elif cur["k"] == "dict":
                path.append([1, 2 * i + 1])
            else:
                break
            cur = cur["c"][i]
        if len(path) < 2 and r.random() < 0.8:
            continue
        n -= 1
        yield dict(op="nest", b=b, path=path)


def p_fault(g, n):
    """Serialization into destinations that refuse (P21)."""
    r = g.r
    for t, _ in all_kinds_roundtrip(g, 2):
        if len(g.enc(t)) < 120:
            yield dict(op="fault", t=t, ks=[])
    for _ in range(n):
        t = g.tag(r.randint(0, 5), std=r.choice([1, 0.5]))
        m = len(g.enc(canon(t)))
        if m <= 60:
            yield dict(op="fault", t=t, ks=[])
        else:
            yield dict(op="fault", t=t, ks=sorted({r.randint(0, m) for _ in range(12)} | {0, m - 1, m, m + 1}))
    for k in (4095, 4096, 4097, 5000, 8193, 20000, 65536, 70000):
        for kind in ("bytes", "str", "bint", "bdec", "raw", "pay", "ilarr", "oid", "arr", "sdict"):
            if k > 9000 and r.random() < 0.6 or k > 5000 and kind in ("ilarr", "oid", "arr", "sdict"):
                continue
            if kind in ("ilarr", "oid"):
                t = g.tagrec(kind, STD[kind], w=[g.word() for _ in range(k // 9)])
            elif kind == "arr":
                t = g.tagrec("arr", 21, c=[g.tagrec("u64", 9, b=g.bytes(8)) for _ in range(k // 9)])
            elif kind == "sdict":
                t = g.tagrec("sdict", 31, s=[y for j in range(k // 20) for y in (list(b"%d" % j), g.text(10))])
            else:
                t = g.tagrec(kind, STD.get(kind, 300), b=[r.randint(32, 126) for _ in range(k)], s=[[0, 0, 0, 9]] if kind == "bdec" else [])
            m = len(g.enc(canon(t)))
            yield dict(op="fault", t=t, ks=sorted({0, 5, m - 1, m, m // 2, min(m, 4096), min(m, 8192), min(m, r.choice([1, 4, 4097, 65535]))}))
    for k in (246, 247, 248, 249, 260, 504, 600):
        for kind in ("str", "bytes", "raw"):
            t = g.tagrec(kind, STD.get(kind, 300), b=g.text(k))
            yield dict(op="fault", t=t, ks=[0, 1, 2, 3, 4, 5, k, k + 1, k + 2, k + 3, k + 4, k + 5])


def p_work(g, depths):
    """Chains of containers with a counting leaf (P22)."""
    r = g.r
    for d in depths:
        for mode in ("seq", "arr", "dict", "mix"):
            kinds = [r.choice(["seq", "arr", "dict"]) if mode == "mix" else mode for _ in range(d)]
            wide = r.choice([0, 1, 2, 3, 4, 5, 7, 9])
            yield dict(op="work", kinds=kinds, wide=wide, at=r.choice([0, wide, wide, r.randint(0, wide)]), R=R0)
            if d <= 40 and mode != "dict":
                kinds = [k if k != "dict" else "arr" for k in kinds]
                yield dict(op="work", kinds=kinds, wide=r.choice([10, 16, 17, 33]), at=r.choice([0, 99]), R=R0)


def p_mem(g, n):
    """Claims of lengths and counts against little input (P23)."""
    r = g.r
    head = {"bytes": 16, "str": 17, "bint": 18, "bdec": 19, "ilarr": 20, "arr": 21, "seq": 22, "oid": 25, "dict": 30,
            "sdict": 31, "key": 17, "raw": 77}

    def op(levels, leaf, zeros=0, rest=(), reg=R0):
        b = []
        own = r.random() < 0.4
        if own:
            reg = dict(reg, x=[[W(1000 + i), k] for k, i in head.items() if k not in ("key", "raw") and k not in NOID])
        def ident(k):
            return 0 if k == "none" else head[k] + (1000 if own and k not in ("key", "raw") and k not in NOID else 0)
        levels = [dict(l, id=W(ident(l["k"]))) for l in levels]
        leaf = dict(leaf, id=W(ident(leaf["k"])))
        for l in levels:
            b += ilint(num(l["id"])) + ilint(num(l["sz"])) + ([] if l["k"] == "seq" else ilint(num(l["n"]))) + l["pre"]
        if leaf["k"] != "none":
            b += ilint(num(leaf["id"])) + ilint(num(leaf["sz"]))
        return dict(op="mem", b=b + list(rest), zeros=zeros, rest=list(rest), levels=levels, leaf=leaf, R=reg)
    lv = lambda k, sz, n=0, pre=(): dict(k=k, sz=W(sz), n=W(n), pre=list(pre))
    lf = lambda k="none", sz=0: dict(k=k, sz=W(sz))
    big = 1 << 29
    claims = [1, 1000, 100000, 1 << 20, 1 << 24, 1 << 28, big - 20, big - 1, big, big + 1, 1 << 31, 1 << 40, 1 << 61, M64 - 1]
    for k in ("bytes", "str", "bint", "bdec", "raw", "ilarr", "arr", "seq", "oid", "dict", "sdict"):
        for c in claims:
            if k in ("ilarr", "arr", "seq", "oid", "dict", "sdict"):
                # a container claiming a size, and a count as large as the room allows
                for cnt in (c, max(0, min(c, big) - 10), 1 << 20, 0):
                    yield op([lv(k, c, cnt)], lf())
                    yield op([lv(k, c, cnt)], lf(), rest=g.bytes(r.randint(0, 4)))
            else:
                yield op([], lf(k, c), rest=g.bytes(r.randint(0, 4)))
    # a key, or a text value, claiming much inside of a dictionary
    for k in ("dict", "sdict"):
        for c in claims + [big - 40, 1 << 27, 1 << 25]:
            for pre in ([], [17, 1, 97] + ([0] if k == "dict" else [17, 0]), [17, 1, 97]):
                if k == "dict" and pre == [17, 1, 97]:
                    continue
                for sz in (big, min(big, c + 40), 1 << 20):
                    yield op([lv(k, sz, r.choice([1, 2, 3, 1 << 20, sz - 40]), pre)], lf("key", c), rest=g.bytes(r.randint(0, 3)))
                    yield op([lv("arr", big, 1), lv(k, sz - 20, 2, pre)], lf("key", c), rest=g.bytes(r.randint(0, 3)))
    # a value claiming much after entries that are there
    for c in claims:
        for outer in ("seq", "arr", "dict"):
            for leaf in ("bytes", "str", "raw", "bint", "bdec"):
                pre = {"seq": [3, 9, 16, 1, 5], "arr": [3, 9, 1, 1], "dict": [17, 1, 97, 0, 17, 1, 98]}[outer]
                if c > 1000 or leaf == "bytes":
                    yield op([lv(outer, r.choice([big, min(big, c + 40)]), 5, pre)], lf(leaf, c), rest=g.bytes(r.randint(0, 3)))
    for _ in range(n):
        d = r.randint(1, 12)
        levels = []
        sz = r.choice([big, big, 1 << 26, 1 << 20, 100000])
        for j in range(d):
            k = r.choice(["arr", "dict", "seq", "sdict" if j == d - 1 else "arr", "ilarr" if j == d - 1 else "arr",
                          "oid" if j == d - 1 else "dict"])
            pre = []
            while r.random() < 0.4 and k in ("arr", "seq"):
                pre += r.choice([[0], [3, 7], [17, 1, 97], [22, 1, 0], [10, 248, 7]])
            levels.append(lv(k, sz, r.choice([sz - 20, sz - 12, sz // 2, sz // 100, 1 << 16, 9]), pre))
            sz = max(100, sz - r.randint(15, 40) - len(pre))
            if k == "dict":
                # a key before the next level
                break
        leaf = lf() if levels[-1]["k"] in ("sdict", "ilarr", "oid") else \
            (lf("key", r.choice([0, 2])) if levels[-1]["k"] == "dict" else
             lf(r.choice(["bytes", "str", "raw", "none"]), r.choice([0, 3, 1000, 1 << 16, max(0, sz - 30)])))
        if leaf["k"] == "none":
            leaf = lf()
        yield op(levels, leaf, rest=g.bytes(r.randint(0, 3)))
    # admitted lengths with all the data present (sparse)
    for k in ("bytes", "raw", "str", "bint"):
        for c in (0, 1, 1 << 16, 3 << 20):
            yield op([], lf(k, c), zeros=c)
            if c:
                yield op([], lf(k, c), zeros=c - 1)


def p_mem_big(g):
    head = {"bytes": 16, "raw": 77}
    for k in ("bytes", "raw"):
        for c in ((1 << 29), (1 << 29) + 1):
            b = [head[k]] + ilint(c)
            yield dict(op="mem", b=b, zeros=c, rest=[], levels=[], leaf=dict(k=k, id=W(head[k]), sz=W(c)), R=R0)


IMPLICIT = {0: 0, 1: 1, 2: 1, 3: 1, 4: 2, 5: 2, 6: 4, 7: 4, 8: 8, 9: 8, 11: 4, 12: 8, 13: 16}


def p_greedy(g, n):
    """A type that tries to read beyond its value (P08)."""
    r = g.r
    for j in range(n):
        gid = 1000 if j % 2 else r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 13, 16, 18, 24, 32, 247, 248, 70000])
        top = IMPLICIT.get(gid, r.choice([0, 1, 2, 5, 30, 260]))
        def wrap(t, d):
            while d > 0:
                d -= 1
                k = r.choice(["seq", "arr", "dict"])
                sib = [g.tag(0, std=1) for _ in range(r.randint(0, 2))]
                c = sib + [t] + [g.tag(0, std=1) for _ in range(r.randint(0, 2))]
                t = g.tagrec(k, STD[k], c=c, s=[list(b"k%d" % i) for i in range(len(c))] if k == "dict" else [])
            return t
        t = wrap(g.tagrec("pay", gid, b=g.bytes(top)), r.randint(0, 4))
        b = g.enc(t, lie=g.liar(0.05) if r.random() < 0.4 else None) + g.bytes(r.choice([0, 5, 40]))
        yield dict(op="greedy", b=b, R=R0, gid=W(gid))


def odd_sizes(g, top):
    """A length around a multiple of some block, up to top."""
    r = g.r
    while True:
        if r.random() < 0.2:
            return g.lit(top, 1)
        n = r.choice([1, 1, 2, 3, 4, 5, 6, 7, 9, 11, 13, 16, 31]) << r.choice([8, 9, 10, 11, 12, 12, 13, 14, 14, 15, 16, 16, 17])
        n += r.choice([0, 0, 0, 1, 1, -1, r.randint(-40, 300)])
        if 0 < n <= top:
            return n


LONGK = dict(bytes=16, str=17, strm=17, raw=77, bint=18, bdec=19, seq=22, arr=21, dict=30, dkey=30, sdict=31, skey=31)


def p_big(g, sizes):
    for n in sizes:
        for k, i in LONGK.items():
            if n < 1 << 20 or k in ("bytes", "str", "raw"):
                yield dict(op="big", k=k, id=W(g.r.choice([77, 247, 248, 504, 65784]) if k == "raw" else i), n=n, R=R0)


def p_blocks(g, n):
    """Every kind that can hold one long value (P05, P06)."""
    r = g.r
    ids = LONGK
    kinds = dict(strm="str", dkey="dict", skey="sdict")
    if n >= 5:
        for m in (247, 248, 503, 504, 65535, 65536, 65783, 65784):
            for k, i in ids.items():
                yield dict(op="big", k=k, id=W(i), n=m, R=R0)
        # around every power of two, and some multiples
        for m in [1 << b for b in range(8, 19)] + [3 << 12, 3 << 16]:
            for d in (-1, 0, 1):
                for k in ("bytes", r.choice(["str", "raw", "bint", "strm", "bdec", "seq", "dict", "skey"])):
                    yield dict(op="big", k=k, id=W(ids[k]), n=m + d, R=R0)
    for j in range(n):
        m = odd_sizes(g, r.choice([1 << 14, 1 << 16, 1 << 17, 1 << 18] + [1 << 21] * (j % 12 == 0)))
        for k, i in ids.items():
            if r.random() < 0.5:
                continue
            reg = R0
            if k not in ("bytes", "bint", "raw") and r.random() < 0.3:
                i = 1000
                reg = dict(R0, x=[[W(1000), kinds.get(k, k)]])
            yield dict(op="big", k=k, id=W(i), n=m, R=reg)


def p_depth(g, ds):
    for d in ds:
        for k in ("seq", "arr", "dict"):
            yield dict(op="depth", m="all", k=k, d=d, R=R0)


def p_rep(g, n):
    """Operations among many other calls and other threads (P24)."""
    r = g.r
    makers = [p_near, p_near, p_dec, p_dec, p_trunc, p_ser, p_into, p_eqclone, p_scan, p_idec, p_ilint, p_signed, p_strtag, p_ext, p_prim]
    for i in range(n):
        ops = []
        while len(ops) < 10:
            got = list(r.choice(makers)(g, 30))
            r.shuffle(got)
            ops += [o for o in got if len(str(o)) < 1200][:2]
        bs = [[1, 2], [17, 2, 195, 40], [22, 2, 1, 1, 0], [255, 255], [30, 5, 2, 17, 1, 97, 0], [15], [21, 2, 2, 0]]
        for j in range(6):
            t = near(g, t) if j % 2 else g.tag(2, std=1)
            b = g.enc(t)
            bs += [x for x in (b, g.mutate(b, 1)) if 0 < len(x) < 100]
        many = i % 4 == 0
        again = 0
        th = 1 if i % 2 == 0 else r.choice([2, 4, 8])
        if i % 4 == 2:
            again = 2500
            th = 1
            while len(ops) < 24:
                ops += [o for o in r.choice([p_into, p_into, p_val, p_scan, p_dec, p_trunc, p_ext, p_fault, p_nest, p_lie])(g, 8) if len(str(o)) < 500][-2:]
        yield dict(op="rep", ops=ops, noise=bs, n=3000 if many else 50, th=th, times=2 if many else 5, again=again)


def p_near(g, n):
    """Values that resemble each other, one after the other (P24)."""
    r = g.r
    pool = list(STD) + ["str", "str", "str", "bytes", "raw", "dict", "sdict", "pay", "seq"]
    done = 0
    while done < n:
        k = pool[done % len(pool)]
        t = g.tag(r.choice([1, 2]), [k], std=r.choice([1, 0.5]))
        if k == "str" and r.random() < 0.7:
            t = dict(t, b=list(b"the same prefix %d" % r.randint(0, 9)) * r.choice([1, 1, 3, 9]) + [65 + r.randrange(26) for _ in range(r.randint(1, 9))])
        ts = [t] + [near(g, t) for _ in range(r.randint(2, 4))]
        try:
            reg = g.registry(g.tagrec("seq", 22, c=ts), strict=False)
        except ValueError:
            done += 1
            continue
        done += 1
        bs = [g.enc(t) for t in ts]
        for i, b in enumerate(bs):
            u = ts[(i + 1) % len(ts)]
            c = r.random()
            if c < 0.55:
                yield dict(op="dec", b=b, R=reg)
            elif c < 0.7:
                yield dict(op="ser", t=ts[i])
            elif c < 0.8:
                yield dict(op="into", b=b, R=reg, t=u, pre=[])
            elif c < 0.9:
                yield dict(op="eq", a=ts[i], b=u)
            else:
                yield dict(op="scan", b=b, m=1, want=[])
            if r.random() < 0.3:
                yield dict(op="dec", b=g.mutate(b, 1), R=reg)


def p_inter(g, n):
    """Operations interleaved call by call (P24)."""
    r = g.r
    done = 0
    while done < n:
        tags = [g.tag(r.choice([0, 1, 2]), std=0.9) for _ in range(4)]
        tags = [t for t in tags if len(g.enc(t)) < 300]
        if len(tags) < 2:
            continue
        try:
            reg = g.registry(g.tagrec("seq", 22, c=tags), strict=False)
        except ValueError:
            continue
        done += 1
        i = lambda: r.randrange(len(tags))

        def data(t):
            b = g.enc(t, il=g.nonmin(0.2))
            return g.mutate(b, 1) if r.random() < 0.25 else b

        def job():
            k = r.choice(["dec", "dec", "dec", "into", "ser", "ser", "clone", "eq", "scan"])
            if k == "dec":
                return dict(k=k, b=data(tags[i()]))
            if k == "into":
                t = tags[i()]
                old = g.tag(1, [t["k"]], std=1)
                return dict(k=k, b=data(t), t=dict(old, id=t["id"]) if t["k"] not in ("arr", "seq", "env", "dict") else t)
            if k == "eq":
                a = i()
                return dict(k=k, i=a, j=r.choice([a, i()]))
            if k == "scan":
                return dict(k=k, b=data(tags[i()]) + data(tags[i()]))
            return dict(k=k, i=i())
        jobs = [job() for _ in range(r.choice([2, 2, 3, 4, 6]))]
        sched = []
        burst = r.choice([1, 1, 2, 5, 20])
        while len(sched) < r.choice([20, 100, 400]):
            sched += [r.randrange(len(jobs))] * r.randint(1, burst)
        if r.random() < 0.35:
            yield dict(op="inter", mode="nest", at=r.choice([1, 2, 3, 5, 8, 13, 40]), sched=[], jobs=jobs, tags=tags, R=reg)
        else:
            yield dict(op="inter", mode="threads", at=0, sched=sched, jobs=jobs, tags=tags, R=reg)


def p_many(g, sizes):
    """Containers of many elements (P05, P06, P10): counts of several bytes."""
    r = g.r
    es = dict(arr=2, seq=2, ilarr=1, oid=1, dict=12, sdict=13)
    for n in sizes + sorted({x for x in (g.lit(70000, 0) for _ in range(60)) if x in range(42, 70001) and x not in sizes and x in literals.NEW}):
        for k, e in es.items():
            at = sorted({0, 1, n // 2, n - 1, n - 2} | {r.randrange(n) for _ in range(4)} if n > 2 else set(range(n)))
            for i in (W(STD[k]), W(1000))[:1 if n > 5000 else 2]:
                reg = dict(R0, x=[[W(1000), k]])

                def head(c):
                    cnt = [] if k == "seq" else list(ilint(c))
                    return list(ilint(num(i))) + list(ilint(len(cnt) + n * e)) + cnt
                cs = [] if k == "seq" else [c for c in (n - 1, n + 1, n ^ 256, n + 65536, n & 255, n, n & 65535) if c >= 0]
                yield dict(op="many", k=k, id=i, n=n, es=e, at=at, wrong=[head(c) for c in cs], R=reg)


def near(g, t):
    """A tag of the same kind and id that differs a little."""
    u = t
    for _ in range(g.r.choice([1, 1, 1, 2, 3])):
        u = tweak(g, u)
    return u


def p_val(g, n):
    """Values decoded on their own into existing tags (P07, P08, P12)."""
    r = g.r
    kinds = [k for k in list(STD) + ["raw", "pay", "env"]]
    for j in range(n):
        k = kinds[j % len(kinds)]
        for _ in range(50):
            t0 = g.tag(2, [k], std=r.choice([1, 0.3]))
            t1 = dict(g.tag(2, [k], std=1), id=t0["id"])
            try:
                reg = g.registry(g.tagrec("seq", 22, c=[t0, t1]), strict=False)
            except ValueError:
                continue
            break
        else:
            continue
        if r.random() < 0.3:
            t1 = near(g, t0)
        full = g.enc(dict(t1, id=W(100)), il=g.nonmin(0.3) if r.random() < 0.3 else None, lie=g.liar(0.1) if r.random() < 0.25 else None)
        try:
            _, v = split(full)
        except IndexError:
            continue
        m = len(v)
        c = r.random()
        if c < 0.3:
            v, m = v + g.bytes(r.choice([1, 3, 40])), m
        elif c < 0.5:
            # the value goes on behind the end given
            m = max(0, m - r.choice([1, 1, 2, 3, m]))
            v = v + (g.bytes(4) if r.random() < 0.5 else [])
        elif c < 0.6:
            m = m + r.choice([1, 2, 9])
        elif c < 0.7:
            m = m + r.choice([1, 2, 9])
            v = v + [0] * (m - len(v)) + g.bytes(r.choice([0, 4]))
        elif c < 0.8:
            v = g.mutate(v, 1)
        if k in ("dict", "sdict") and r.random() < 0.3:
            # an entry twice, the second time behind the end given
            e = [17, 1, 97] + ([0] if k == "dict" else [17, 0])
            v, m = [2] + e + e, r.choice([1 + len(e), 1 + 2 * len(e)])
        yield dict(op="val", t=t0, b=v, n=m, R=reg)


PADS = [0, 1, 2, 7, 8, 247, 248, 255, 256, 257, 503, 504, 4095, 4096, 65535, 65536, 65537, 65783, 65784, 1 << 17, 1 << 20, (1 << 24) + 1]


def p_pad(g, n):
    """Filling behind the values, within their lengths (P07)."""
    r = g.r
    for i in range(n):
        for k in ("ilarr", "oid", "range", "arr", "dict", "sdict", "ver", "seq", "bytes", "str", "bdec", "raw"):
            t = g.tag(1, [k], std=1)
            if num(t["id"]) < 16:
                continue
            t = g.tagrec(k, STD.get(k, 77), b=t["b"], w=[num(x) for x in t["w"]], c=[x for x in t["c"] if num(x["id"]) in KIND and KIND[num(x["id"])] == x["k"] and not x["c"]], s=t["s"])
            if k == "dict":
                t["s"] = t["s"][:len(t["c"])]
            _, v = split(g.enc(canon(t)))
            yield dict(op="pad", id=t["id"], v=v, fill=0 if k == "seq" else r.choice([0, 0, 65, 255]),
                       zs=([z for z in PADS + [x for x in literals.NEW if x < 1 << 20][:8] if k != "seq" or z < 70000] if i == 0 else [0, 1] + r.sample(PADS[:-2], 4)), R=R0)


def p_huge(g, n):
    """Containers of values that claim to be large (P05)."""
    r = g.r
    sizes = BIG + [0, 1, 247, 248, (1 << 16) - 1, (1 << 16) + 247, (1 << 16) + 248, (1 << 24) + 248, (1 << 32) + 247, (1 << 32) + 248, (1 << 40) + 248]

    def claim(left):
        v = min(left, r.choice([r.choice(sizes) + r.randint(-20, 3), r.getrandbits(r.randint(1, 63))]))
        return max(0, v), g.tagrec(r.choice(["claim", "cpay"]), r.choice([16, 77, 300, 1 << 40]), w=[max(0, v)])
    for j in range(n):
        left = (1 << 64) - (1 << 20)
        c = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            v, t = claim(left)
            left -= v
            c.append(t)
        for _ in range(r.choice([0, 0, 1, 2])):
            c.insert(r.randint(0, len(c)), g.tag(0, std=1))
        t = c[0]
        for d in range(r.choice([0, 1, 1, 2, 3, 5])):
            k = ["seq", "arr", "dict"][(j + d) % 3]
            ks = []
            while len(ks) < len(c):
                x = g.key()
                if x not in ks:
                    ks.append(x)
            t = g.tagrec(k, r.choice([STD[k], 1000]), c=c, s=ks if k == "dict" else [])
            c = [t] + [g.tag(0, std=1) for _ in range(r.choice([0, 0, 1]))]
            r.shuffle(c)
        yield dict(op="huge", t=t)


def p_lie(g, n):
    """Equality and clones of tags that declare another size than they write (P05, P13)."""
    r = g.r

    def leaf():
        b = r.choice([lambda: g.bytes(g.size()), lambda: g.enc(g.tag(1, std=1)), lambda: g.enc(g.tag(1, std=1)) + g.bytes(2)])()
        m = len(b) if r.random() < 0.3 else max(0, r.choice([len(b) - 1, len(b) + 1, len(b) - 2, len(b) + 3, r.randint(0, len(b)), 0,
                                                             len(b) + 256, r.randint(0, 70000), 1 << 20]))
        i = r.choice([16, 17, 22, 30, 31, 77, 300, 1000, 1001])
        return g.tagrec(r.choice(["claim", "cpay"]), i, b=b, w=[m])
    for j in range(n):
        t = leaf()
        c = [t]
        for d in range(r.choice([0, 0, 1, 1, 2])):
            c += [g.tag(0, std=1) for _ in range(r.choice([0, 0, 1, 2]))]
            r.shuffle(c)
            k = r.choice(["seq", "arr", "dict"])
            ks = []
            while len(ks) < len(c):
                x = g.key()
                if x not in ks:
                    ks.append(x)
            t = g.tagrec(k, STD[k], c=c, s=ks if k == "dict" else [])
            c = [t]
        u = r.choice([lambda: t, lambda: near(g, t), lambda: near(g, t), leaf])()
        if t["k"] in ("claim", "cpay") and r.random() < 0.4:
            # an honest tag with the same contents
            u = g.tagrec(r.choice(["claim", "cpay"]), num(t["id"]), b=t["b"], w=[r.choice([len(t["b"]), num(t["w"][0])])])
        yield dict(op="lie", t=t, u=u, R=R(r.random() < 0.2, x=[(1000, r.choice(["seq", "str", "raw"])), (1001, "pay")]))


def ids(t):
    return {num(t["id"])} | {i for c in t["c"] for i in ids(c)}


def p_broken(g, n):
    """Application types that fail or panic, then ordinary operations (P24)."""
    r = g.r
    SAFE = ["null", "bool", "u8", "i64", "ilint", "bytes", "str", "bint", "ilarr", "sdict", "ver"]
    for j in range(n):
        bid = r.choice([1001, 1002, 1004])
        boom = r.random() < 0.5

        def wrap(t, d):
            for _ in range(d):
                k = r.choice(["seq", "arr", "dict"])
                x = [g.tag(1, SAFE, std=1) for _ in range(r.choice([0, 1, 2]))]
                c = x + [t]
                t = g.tagrec(k, STD[k], c=c, s=[list(b"k%d" % i) for i in range(len(c))] if k == "dict" else [])
            return t
        t = wrap(g.tagrec("boom" if boom else "fail", r.choice([77, 1001, 1004])), r.choice([0, 1, 1, 2, 3]))
        ordinary = lambda kinds=None: g.tag(2, kinds, std=1)
        u, v, s = ordinary(), ordinary(), ordinary(["seq"])
        if bid in ids(g.tagrec("seq", 22, c=[v, s])):
            continue
        s = dict(s, id=W(22))
        bad = g.enc(wrap(g.tagrec("raw", bid, b=g.bytes(r.choice([0, 1, 5]))), r.choice([0, 1, 2])))
        if bad[0] != 22:
            bad = [22] + ilint(len(bad)) + bad
        b = g.enc(v)
        if r.random() < 0.2:
            b = g.mutate(b, 1)
        do = [r.choice(["ser", "clone", "clonef", "eq", "create", "dec", "into"]) for _ in range(r.choice([1, 1, 2, 3, 8, 30]))]
        yield dict(op="broken", t=t, u=u, R=R0, id=W(bid), bad=bad, good=b, seq=g.enc(s), do=do, boom=boom)


# ---------------------------------------------------------------- larger shapes
def large(g, kinds=None):
    """A tag with a long value, many elements or many levels, and a registry; the encoder may
    repeat keys."""
    r = g.r
    leaf = lambda: g.tagrec("u8", 3, b=[r.getrandbits(8)])
    small = lambda: r.choice([leaf, leaf, leaf, lambda: g.tagrec("null", 0), lambda: g.tagrec("str", 17, b=g.text(r.randint(0, 3))),
                              lambda: g.tag(1, std=1)])()
    while True:
        k = r.choice(kinds or ["bytes", "str", "raw", "pay", "bint", "bdec", "ilarr", "oid", "arr", "seq", "dict", "sdict", "dict", "sdict", "deep"])
        i = STD.get(k, 1000)
        if k not in NOID and k in STD and r.random() < 0.3:
            i = r.choice([1000, 1001, 65784, 1 << 33])
        m = r.choice([r.randint(256, 1200), r.randint(256, 1200), r.randint(256, 1200), r.randint(1200, 6000), g.lit(4000, 300)])
        c = r.choice([r.randint(20, 60), r.randint(20, 60), r.randint(60, 300), g.lit(300, 30)])
        ids = dict(raw=r.choice([77, 300, 1 << 40]))
        i = ids.get(k, i)
        if k == "deep":
            t = small()
            for _ in range(r.randint(8, 50)):
                kk = r.choice(["seq", "arr", "dict"])
                ch = [small()] * r.choice([0, 0, 1]) + [t] + [small()] * r.choice([0, 0, 1])
                t = g.tagrec(kk, STD[kk], c=ch, s=[[97 + j] for j in range(len(ch))] if kk == "dict" else [])
        elif k in ("ilarr", "oid"):
            t = g.tagrec(k, i, w=[g.word() for _ in range(c)])
        elif k in ("arr", "seq"):
            t = g.tagrec(k, i, c=[small() for _ in range(c)])
        elif k in ("dict", "sdict"):
            dup = r.random() < 0.5
            ks = [list(b"%d" % r.randrange(c if dup else 1 << 30)) for _ in range(c)]
            if r.random() < 0.2:
                ks = sorted(ks)
            t = g.tagrec("dict", i, s=ks, c=[small() for _ in ks]) if k == "dict" else \
                g.tagrec("sdict", i, s=[y for x in ks for y in (x, g.text(r.randint(0, 3)))])
        else:
            t = g.tagrec(k, i, b=g.text(m) if k == "str" else g.bytes(m), s=[g.bytes(4)] if k == "bdec" else [])
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            kk = r.choice(["seq", "arr", "dict"])
            ch = [small()] * r.choice([0, 1]) + [t] + [small()] * r.choice([0, 1])
            t = g.tagrec(kk, STD[kk], c=ch, s=[[97 + j] for j in range(len(ch))] if kk == "dict" else [])
        try:
            return t, g.registry(t, strict=False)
        except ValueError:
            continue


def p_large(g, n, what, kinds=None):
    r = g.r
    for j in range(n):
        t, reg = large(g, kinds)
        w = what[j % len(what)]
        il = g.nonmin(r.choice([0.2, 0.7])) if r.random() < 0.35 else None
        if w in ("dec", "scan", "into", "val"):
            lie = g.liar(1.5 / (2 + len(t["c"]))) if r.random() < 0.2 else None
            b = g.enc(t, il=il, lie=lie)
            c = r.random()
            if c < 0.15:
                b = g.mutate(b, 1)
            elif c < 0.4:
                b = b + g.bytes(r.choice([1, 3, 300]))
        if w == "dec":
            yield dict(op="dec", b=b, R=reg)
        elif w == "cut":
            b = g.enc(t, il=il)
            for x in {1, 2, r.randrange(len(b)), r.randrange(len(b)), len(b) - 1, len(b) - 2}:
                yield dict(op="dec", b=b[:x], R=reg)
        elif w == "scan":
            u, _ = large(g)
            yield dict(op="scan", b=b + g.enc(u, il=il), m=3, want=[])
        elif w in ("into", "val"):
            old = tweak(g, t) if r.random() < 0.4 else dict(large(g, [t["k"]] if t["k"] not in ("arr", "seq", "dict") else None)[0], id=t["id"])
            if old["k"] != t["k"]:
                old = tweak(g, t)
            try:
                reg = g.registry(g.tagrec("seq", 22, c=[t, old]), strict=False)
            except ValueError:
                continue
            if w == "into":
                yield dict(op="into", b=b, R=reg, t=old, pre=[g.mutate(b, 1)] * r.choice([0, 0, 1]))
            else:
                try:
                    _, v = split(g.enc(dict(t, id=W(100)), il=il))
                except IndexError:
                    continue
                yield dict(op="val", t=old, b=v + g.bytes(3), n=len(v), R=reg)
        elif w == "ser":
            yield dict(op="ser", t=t)
        elif w == "eq":
            yield dict(op="eq", a=t, b=r.choice([t, tweak(g, t), tweak(g, t)]))
            yield dict(op="clone", t=t, std=r.random() < 0.5, R=reg)
        elif w == "fault":
            m = len(g.enc(canon(t)))
            yield dict(op="fault", t=t, ks=sorted({r.randint(0, m) for _ in range(4)} | {m - 1, m}))
