"""Generators of operation sessions for the stateful suites."""
import unicodedata

from gen import *

NOTAG = dict(k="null", id=W(0), b=[], w=[], c=[], s=[])
CTORS = ["new", "default", "with_id", "default_with_id"]
SETTERS = {"ver": ["major", "minor", "revision", "build", "slice", "value"], "range": ["start", "count", "value"],
           "bdec": ["scale", "mut"], "raw": ["mut", "set"], "str": ["mut", "set"], "ilarr": ["mut", "set"],
           "oid": ["mut", "set"], "pay": ["deref", "mut"], "env": ["push", "pop", "clear", "assign"], "seq": ["push", "pop", "clear", "assign"],
           "arr": ["push", "pop", "clear", "assign"],
           "dict": ["insert", "insert", "insert", "remove", "get", "len", "empty", "clear"],
           "sdict": ["insert", "insert", "insert", "remove", "get", "len", "empty", "clear"]}
ALLK = list(STD) + ["raw", "pay", "env"]


def make_tag(g, k, std=0.5):
    return g.tag(2, [k], std=std, implicit=g.r.random() < 0.2)


def setop(g, s, t, few=True, fam=None):
    """A setter for a slot known to hold kind t["k"]."""
    r = g.r
    k = t["k"]
    how = r.choice(SETTERS.get(k, ["set"]))
    a = dict(near(g, t), id=t["id"]) if r.random() < 0.4 else make_tag(g, k)
    if k in ("dict", "sdict") and how in ("insert", "remove", "get"):
        key = r.choice(fam) if fam else list(r.choice([b"a", b"b", b"ab", b"", b"\xc3\xa9", b"B", b"\xef\xbf\xbd", b"\xf0\x90\x80\x80"])) if few else g.key()
        if k == "dict":
            a = dict(a, s=[key], c=[g.tag(1)])
        else:
            a = dict(a, s=[key, g.text(r.randint(0, 4))])
    return dict(op="tset", s=s, how=how, a=a)


def ctor_ops(g, s, k):
    """Constructors of a kind."""
    r = g.r
    t = make_tag(g, k, std=r.choice([0, 1]))
    how = r.choice(CTORS + ["value", "value", "id_value", "id_value", "with_capacity"])
    if how == "with_capacity" and k not in ("raw", "bytes"):
        how = "id_value"
    if k == "raw" and how in ("with_id",):
        how = "new"
    if k in NOID and how in ("with_id", "default_with_id"):
        how = "new"
    if k in ("pay", "env") and how in ("with_id", "default"):
        how = "new"
    if k == "raw" and how == "default":
        how = "default_with_id"
    if how in ("with_id", "default_with_id") and k not in NOID and k not in ("raw", "pay", "env") and r.random() < 0.6:
        t = dict(t, id=W(g.word() if k != "bdec" else max(16, g.word())))
    return dict(op="tnew", s=s, how=how, t0=t)


def sized(g, k, i, n):
    """A tag of kind k with n elements."""
    if k == "str":
        return g.tagrec(k, i, b=[97 + j % 26 for j in range(n)])
    if k in ("bytes", "bint", "raw", "pay"):
        return g.tagrec(k, i, b=g.bytes(n))
    if k == "bdec":
        return g.tagrec(k, i, b=g.bytes(n), s=[g.bytes(4)])
    if k in ("ilarr", "oid"):
        return g.tagrec(k, i, w=[g.word() for _ in range(n)])
    if k in ("seq", "arr", "env") and n < 50:
        return g.tagrec(k, i, c=[g.tag(0, std=1) for _ in range(n)])


def shorter(t, m):
    return dict(t, b=t["b"][:m], w=t["w"][:m], c=t["c"][:m])


def altered(g, t, many):
    """The same tag with some elements of its value replaced; 3: the same elements in another order."""
    t = dict(t)
    for f in ("b", "w", "c"):
        l = list(t[f])
        if len(l) < 2:
            continue
        if many == 3:
            g.r.shuffle(l)
        else:
            for i in g.r.sample(range(len(l)), min(many, len(l))):
                l[i] = (l[i] + 1 + g.r.randrange(20)) % 128 if f == "b" else W(num(l[i]) ^ 1 << g.r.randrange(64)) if f == "w" else g.tag(0, std=1)
        t[f] = l
    return t


def o_accessors(g, n):
    """Constructors, getters, setters, classification, downcasts (P25)."""
    r = g.r
    for j in range(n):
        k = ALLK[j % len(ALLK)] if j < 6 * len(ALLK) else r.choice(ALLK)
        ops = [ctor_ops(g, 1, k)]
        if j < 6 * len(ALLK):
            # every constructor once per kind
            h = (CTORS + ["value", "id_value"])[j // len(ALLK) % 6]
            if not (k in ("raw", "pay", "env") and h in ("with_id", "default") or k in NOID and h in ("with_id", "default_with_id")):
                ops[0]["how"] = h
        t = ops[0]["t0"]
        for _ in range(r.randint(3, 8)):
            c = r.random()
            if c < 0.5:
                ops.append(setop(g, 1, t))
                t = dict(ops[-1]["a"], id=t["id"])
            elif c < 0.6:
                ops.append(dict(op="tobs", s=1))
            elif c < 0.7:
                ops.append(dict(op="tser", s=1))
            elif c < 0.75:
                ops.append(dict(op="tmove", s=1))
            else:
                k2 = r.choice([k, k, r.choice(ALLK)])
                i2 = r.choice([STD.get(k, 100), num(t["id"]), num(t["id"]) ^ 1, g.word(), g.like(num(t["id"])), g.like(num(t["id"]))])
                ops.append(dict(op="tdown", s=1, k=k2, id=W(i2)))
        yield dict(su="obj", ops=ops)
    # every setter of every kind, followed by reading back
    for k in ALLK:
        for how in sorted(set(SETTERS.get(k, ["set"]))):
            for _ in range(2):
                t = make_tag(g, k, std=0)
                a = make_tag(g, k)
                if k in ("dict", "sdict"):
                    a = setop(g, 1, t)["a"]
                    if not a["s"]:
                        a = dict(a, s=[[97], [98]], c=[g.tag(0)])
                yield dict(su="obj", ops=[dict(op="tnew", s=1, how="id_value", t0=t), dict(op="tset", s=1, how=how, a=a),
                                          dict(op="tobs", s=1), dict(op="tser", s=1)])
        # a value replaced by its beginning, by one that begins with it, and by itself
        for ln in (3, 12, 20, 33, 70, 300):
            i = r.choice([STD.get(k, 1000), 1000, max(16, g.word())])
            if k in NOID:
                i = STD[k]
            t = sized(g, k, i, ln)
            if not t:
                break
            for m in {0, 1, ln // 2, 9, ln - 1, ln}:
                u = shorter(t, m)
                for a, b in ((t, u), (u, t)):
                    if b["k"] in ("dict", "sdict"):
                        continue
                    how = r.choice(SETTERS.get(k, ["set"]))
                    yield dict(su="obj", ops=[dict(op="tnew", s=1, how="id_value", t0=a), dict(op="tset", s=1, how=how, a=b),
                                              dict(op="tobs", s=1), dict(op="tser", s=1)])
            # a value of the same length that differs in some places, from the old one or in order
            for many in (1, 2, 3):
                for how in sorted(set(SETTERS.get(k, ["set"]))):
                    b = altered(g, t, many)
                    if b["k"] in ("dict", "sdict"):
                        continue
                    yield dict(su="obj", ops=[dict(op="tnew", s=1, how="id_value", t0=t), dict(op="tset", s=1, how=how, a=b),
                                              dict(op="tobs", s=1), dict(op="tser", s=1), dict(op="tset", s=1, how=how, a=t),
                                              dict(op="tobs", s=1)])
        # downcasts of every kind against every kind
        t = make_tag(g, k, std=1)
        ops = [dict(op="tnew", s=1, how="id_value", t0=t)]
        for k2 in ALLK:
            ops.append(dict(op="tdown", s=1, k=k2, id=t["id"]))
        ops.append(dict(op="tdown", s=1, k=k, id=W(num(t["id"]) + 1)))
        for x in (8, 16, 31, 32, 63):
            ops.append(dict(op="tdown", s=1, k=k, id=W(num(t["id"]) ^ (1 << x))))
        yield dict(su="obj", ops=ops)


def o_special(g, n):
    """Special contents given to constructors, setters and mutable accessors, one after the other (P25)."""
    last = {}
    for t in special_tags(g):
        k = t["k"]
        p, last[k] = last.get(k), t
        if not p or k in ("dict", "sdict") or len(g.enc(t)) > 1500:
            continue
        for how in sorted(set(SETTERS.get(k, ["set"]))):
            ops = [dict(op="tnew", s=1, how="id_value", t0=p)]
            for a in (t, p):
                ops += [dict(op="tset", s=1, how=how, a=a), dict(op="tobs", s=1), dict(op="tser", s=1)]
            yield dict(su="obj", ops=ops)


ALIKE = ["a", "key", "", "Ab", "\xe9", "a b", "1", "01", "k\0", "\xdf", "I", "a/b", "\uac00", " x"]


def alike(k):
    """Texts that some comparison or other takes for the same as k."""
    u = unicodedata.normalize
    v = [k, k + " ", " " + k, k + "\0", "\0" + k, k + "\t", k + "\n", k + "\r\n", k.upper(), k.lower(), k.swapcase(), k.casefold(), k[:-1], k[1:], k + k[-1:],
         u("NFD", k), u("NFC", k), u("NFKD", k), k + "\u0301", "\ufeff" + k, k + "\u200b", k + "\xa0", "0" + k, "+" + k, k.strip(), k.replace(" ", ""), k.replace(" ", "  "),
         k.replace("/", "\\"), k + "/", "./" + k, k[::-1], "\u0130" if k == "I" else "ss", k + "\ufffd", k + "a", k + "~", k.replace("\0", "")]
    return list(dict.fromkeys(v))


def o_dict(g, n, keys=None):
    """Histories on dictionaries, serialized along the way (P10)."""
    r = g.r
    for j in range(n):
        k = ["dict", "sdict"][j % 2]
        t = make_tag(g, k)
        ops = [dict(op="fnew", f=1, strict=False, base="std"), dict(op="tnew", s=1, how="new", t0=t)]
        few = r.random() < 0.7
        fam = g.keyfam() if r.random() < 0.4 else None
        for _ in range(r.randint(4, 22)):
            ops.append(setop(g, 1, t, few, fam))
            c = r.random()
            if c < 0.2:
                ops.append(dict(op="tser", s=1))
            elif c < 0.27:
                # decode entries in any order, with repetitions
                d = make_tag(g, k, std=1)
                ops.append(dict(op="tinto", f=1, s=1, b=g.enc(dict(d, id=W(STD[k])))))
            elif c < 0.33:
                ops.append(dict(op="tclone", s=1, f=0, d=2))
                ops.append(dict(op="tobs", s=1))
        ops.append(dict(op="tser", s=1))
        yield dict(su="obj", ops=ops)
    # keys that are alike are different keys
    for j, base in enumerate(ALIKE * 2):
        k = ["dict", "sdict"][j % 2 ^ (j >= len(ALIKE))]
        vs = [list(x.encode()) for x in alike(base)]
        val = (lambda i: dict(s=[vs[i]], c=[g.tagrec("u8", 3, b=[i])])) if k == "dict" else (lambda i: dict(s=[vs[i], [65 + i % 60]]))
        ops = [dict(op="tnew", s=1, how="new", t0=make_tag(g, k))]
        order = list(range(1, len(vs)))
        r.shuffle(order)
        ops.append(dict(op="tset", s=1, how="insert", a=dict(NOTAG, **val(0))))
        for i in order:
            ops.append(dict(op="tset", s=1, how="get", a=dict(NOTAG, **val(i))))
        for i in order[:10]:
            ops.append(dict(op="tset", s=1, how=r.choice(["insert", "insert", "remove"]), a=dict(NOTAG, **val(i))))
            ops.append(dict(op="tset", s=1, how="get", a=dict(NOTAG, **val(r.choice([0, i, r.choice(order)])))))
        ops += [dict(op="tser", s=1), dict(op="tset", s=1, how="remove", a=dict(NOTAG, **val(0))), dict(op="tobs", s=1), dict(op="tser", s=1)]
        yield dict(su="obj", ops=ops)
    # equal contents by different histories give the same bytes
    for j in range(n // 3):
        k = ["dict", "sdict"][j % 2]
        ks = [list(b"%d" % x) for x in r.sample(range(300), r.choice([2, 3, 5, 12, 30]))]
        if r.random() < 0.5:
            ks += g.keyfam()
        if r.random() < 0.5:
            ks += [list(x) for x in (b"\xc3\xa9", b"\xef\xbf\xbd", b"\xf0\x90\x80\x80", b"", b"~")]
        ks = [list(x) for x in dict.fromkeys(bytes(x) for x in ks)]
        vals = {bytes(x): (g.tag(0) if k == "dict" else g.text(3)) for x in ks}
        ops = []
        for s in (1, 2):
            ops.append(dict(op="tnew", s=s, how="new", t0=make_tag(g, k)))
            seq = list(ks)
            r.shuffle(seq)
            for key in seq:
                def ins(v):
                    a = dict(NOTAG, s=[key], c=[v]) if k == "dict" else dict(NOTAG, s=[key, v])
                    ops.append(dict(op="tset", s=s, how="insert", a=a))
                if r.random() < 0.3:
                    ins(g.tag(0) if k == "dict" else g.text(3))
                if r.random() < 0.2:
                    ins(vals[bytes(key)])
                    ops.append(dict(op="tset", s=s, how="remove", a=dict(NOTAG, s=[key])))
                ins(vals[bytes(key)])
            ops.append(dict(op="tser", s=s))
        ops.append(dict(op="teq", s=1, d=2))
        yield dict(su="obj", ops=ops)


def o_registry(g, n):
    """Registration histories (P11)."""
    r = g.r
    for j in range(n):
        strict = r.random() < 0.5
        ops = [dict(op="fnew", f=1, strict=strict, base="std" if r.random() < 0.7 else "empty"),
               dict(op="fnew", f=2, strict=not strict, base="std"),
               dict(op="tnew", s=1, how="new", t0=dict(NOTAG, k="null"))]
        pool = [r.choice([26, 27, 28, 29, 15]), 77, r.choice([16, 17, 30, 20, 22]), g.word(), r.choice([32, 1000, 503, 504])]
        pool += [g.like(p) for p in pool[:3]]
        pool = [p for p in pool if p not in (10, 14) and (p > 14)]
        for _ in range(r.randint(5, 16)):
            f = r.choice([1, 1, 1, 2])
            i = r.choice(pool)
            c = r.random()
            if c < 0.35:
                k = r.choice([k for k in ALLK if k not in NOID and (k not in ("raw", "bdec") or i > 15)])
                if i == 15 and k not in ("null",):
                    k = "null"
                ops.append(dict(op="freg", f=f, id=W(i), k=k, how="withid"))
            elif c < 0.4:
                k = r.choice(list(STD))
                if STD[k] not in (10, 14):
                    ops.append(dict(op="freg", f=f, id=W(STD[k]), k=k, how="default"))
            elif c < 0.55:
                ops.append(dict(op="fdereg", f=f, id=W(i)))
            elif c < 0.75:
                ops.append(dict(op="fcreate", f=f, id=W(r.choice([i, i, r.randint(0, 40), g.word()]))))
            else:
                if r.random() < 0.7 and i >= 16:
                    b = ilint(i) + [4] + r.choice([[0, 0, 0, 0], [1, 2, 3, 4], [65, 66, 67, 68], [2, 17, 0, 0]])
                else:
                    b = g.enc(g.tag(1))
                if r.random() < 0.3:
                    b = [22] + ilint(len(b)) + b
                ops.append(dict(op="fdec", f=f, b=b, s=r.choice([0, 1])))
        ops.append(dict(op="tobs", s=1))
        yield dict(su="obj", ops=ops)
    # many registrations
    for m in (40, 70, 140, 300, 1300)[:1 if n < 100 else 5]:
        strict = r.random() < 0.7
        base = r.choice([32, 32, 1000, 1 << 32, 1 << 61])
        step = r.choice([1, 1, 7, 256, 65536])
        ids = [base + j * step for j in range(m)]
        kind = ["raw", "pay", "str", "range"]
        ops = [dict(op="fnew", f=1, strict=strict, base=r.choice(["std", "empty"]))]
        ops += [dict(op="freg", f=1, id=W(i), k=kind[j % 4], how="withid") for j, i in enumerate(ids)]
        for i in r.sample(ids, min(m, 60)) + ids[:2] + ids[-2:] + [ids[-1] + step]:
            ops.append(dict(op="fcreate", f=1, id=W(i)))
        for i in r.sample(ids, m // 8):
            ops.append(dict(op="fdereg", f=1, id=W(i)))
        ops += [dict(op="fcreate", f=1, id=W(i)) for i in r.sample(ids, 20)] + [dict(op="fcreate", f=1, id=W(i)) for i in (16, 17, 30)]
        yield dict(su="obj", ops=ops)
    for strict in (False, True):
        for base in ("std", "empty"):
            for lo in range(0, 48, 8):
                yield dict(su="obj", ops=[dict(op="fnew", f=1, strict=strict, base=base)] +
                           [dict(op="fcreate", f=1, id=W(i)) for i in range(lo, lo + 8)] +
                           [dict(op="fdec", f=1, b=[i, 0], s=0) for i in range(lo, lo + 8)])
            yield dict(su="obj", ops=[dict(op="fnew", f=1, strict=strict, base=base)] +
                       [dict(op="fcreate", f=1, id=W(i)) for i in BOUND[::9]])
    # replacing a standard type by another, and back
    for k, i in STD.items():
        if i in (10, 14):
            continue
        k2 = r.choice([x for x in ("pay", "str", "seq", "u8", "range", "dict") if x != k])
        if i < 16:
            k2 = "null" if k != "null" else "bool"
        c = dict(op="fcreate", f=1, id=W(i))
        d = dict(op="fdec", f=1, s=0, b=g.enc(g.tag(1, [k], std=1)))
        yield dict(su="obj", ops=[dict(op="fnew", f=1, strict=r.random() < 0.5, base="std"), c, d,
                                  dict(op="freg", f=1, id=W(i), k=k2, how="withid"), c, d,
                                  dict(op="freg", f=1, id=W(i), k=k, how="default"), c, d,
                                  dict(op="fdereg", f=1, id=W(i)), c, d, dict(op="fdereg", f=1, id=W(i)), c,
                                  dict(op="freg", f=1, id=W(i), k=k, how="withid"), c, d])


def o_into(g, n):
    """Repeated decoding into the same instances (P12), with clones and comparisons."""
    r = g.r
    for j in range(n):
        k = ALLK[j % len(ALLK)]
        t = g.tag(2, [k], std=1)
        i = num(t["id"])
        x = [[W(i), k]] if STD.get(k) != i and not (k == "raw" and i > 31) else []
        ops = [dict(op="fnew", f=1, strict=False, base="std")]
        for e in x:
            if num(e[0]) in (10, 14) or num(e[0]) < 16:
                break
            ops.append(dict(op="freg", f=1, id=e[0], k=k, how="withid"))
        last = t
        ops += [dict(op="tnew", s=1, how="id_value", t0=t), dict(op="tnew", s=2, how="id_value", t0=g.tag(1, [k]))]
        for _ in range(r.randint(2, 10)):
            c = r.random()
            u = near(g, last) if r.random() < 0.4 else dict(g.tag(2, [k], std=1), id=W(i))
            last = u
            b = g.enc(u, il=g.nonmin(0.2), lie=g.liar(0.15) if r.random() < 0.4 else None)
            if c < 0.3:
                b = g.mutate(b, 1)
            elif c < 0.4:
                b = g.enc(g.tag(1))
            elif c < 0.45:
                b = b[:r.randint(0, len(b))]
            ops.append(dict(op="tinto", f=1, s=1, b=b))
            c = r.random()
            if c < 0.3:
                ops.append(dict(op="tser", s=1))
            elif c < 0.4:
                ops.append(setop(g, 1, t))
            elif c < 0.5:
                ops.append(dict(op="tclone", s=1, f=r.choice([0, 1]), d=3))
                ops.append(dict(op="tobs", s=1))
        ops.append(dict(op="tser", s=1))
        ops.append(dict(op="tobs", s=2))
        yield dict(su="obj", ops=ops)


def o_mixed(g, n):
    """Long mixed histories over several factories and tags (P24, P13)."""
    r = g.r
    for j in range(n):
        ops = [dict(op="fnew", f=1, strict=False, base="std"), dict(op="fnew", f=2, strict=True, base="std")]
        kinds = {}
        for s in (1, 2, 3, 4):
            k = r.choice(["dict", "seq", "arr", "str", "raw", "u16", "sdict", "range", "ilarr"])
            t = g.tag(1, [k], std=1)
            kinds[s] = t
            ops.append(dict(op="tnew", s=s, how="id_value", t0=t))
        for _ in range(r.randint(15, 40)):
            s = r.choice([1, 2, 3, 4])
            c = r.random()
            if c < 0.25:
                ops.append(setop(g, s, kinds[s]))
            elif c < 0.35:
                ops.append(dict(op="tclone", s=s, f=r.choice([0, 1, 2]), d=5))
            elif c < 0.45:
                ops.append(dict(op="teq", s=s, d=r.choice([1, 2, 3, 4])))
            elif c < 0.6:
                ops.append(dict(op=r.choice(["tobs", "tser", "tmove"]), s=s))
            elif c < 0.7:
                ops.append(dict(op="tinto", f=r.choice([1, 2]), s=s,
                                b=g.mutate(g.enc(dict(g.tag(1, [kinds[s]["k"]], std=1), id=kinds[s]["id"])), r.choice([0, 1]))))
            elif c < 0.8:
                b, _ = g.stream()
                ops.append(dict(op="fdec", f=r.choice([1, 2]), b=b[:200], s=0))
            elif c < 0.85:
                ops.append(dict(op="fcreate", f=r.choice([1, 2]), id=W(g.word())))
            else:
                o = r.choice([
                    lambda: dict(op="ienc", v=W(g.word()), tail=[]),
                    lambda: dict(op="idec", b=[r.randint(248, 255)] + g.bytes(r.randint(0, 9))),
                    lambda: dict(op="scan", b=g.stream()[0][:100], m=5, want=[]),
                    lambda: dict(op="ser", t=g.tag(2)),
                    lambda: dict(op="dec", b=g.stream()[0][:200], R=R0),
                    lambda: dict(op="fault", t=g.tag(1), ks=[0, 1, 3, 5]),
                ])()
                ops.append(dict(op="pure", o=o))
        for s in (1, 2, 3, 4):
            ops.append(dict(op="tobs", s=s))
        yield dict(su="obj", ops=ops)


def o_turns(g, n):
    """The same operation again and again on a tag that changes a little in between, or on
    another tag in its place (P24, P05)."""
    r = g.r
    for j in range(n):
        k = ALLK[j % len(ALLK)] if j % 3 else r.choice(["dict", "sdict", "seq", "arr", "ilarr", "oid"])
        t = make_tag(g, k, std=r.choice([0, 1, 1]))
        if k in ("dict", "sdict") and len(t["s"]) < 2:
            ks = [list(b"k%d" % x) for x in r.sample(range(20), r.choice([1, 2, 3, 6]))]
            t = dict(t, s=ks, c=[g.tag(0) for _ in ks]) if k == "dict" else dict(t, s=[y for x in ks for y in (x, g.text(2))])
        ops = [dict(op="fnew", f=1, strict=False, base="std"), dict(op="tnew", s=1, how="id_value", t0=t)]
        keys = [x for x in (t["s"] if k == "dict" else t["s"][::2])] if k in ("dict", "sdict") else []
        looks = [dict(op=o, s=1) for o in r.sample(["tser", "tser", "tobs", "tclone", "teq"], r.choice([1, 2]))]
        for o in looks:
            if o["op"] == "tclone":
                o.update(f=r.choice([0, 1]), d=2)
            if o["op"] == "teq":
                o["d"] = 1
        for _ in range(r.randint(3, 9)):
            ops += [dict(o) for o in looks]
            c = r.random()
            if c < 0.25:
                # another one in the same place
                t = near(g, t)
                ops.append(dict(op="tnew", s=1, how="id_value", t0=t))
                keys = [x for x in (t["s"] if k == "dict" else t["s"][::2])] if k in ("dict", "sdict") else []
            elif keys and c < 0.8:
                # one key for another, or the value of one
                old = r.choice(keys)
                new = list(b"n%d" % r.randrange(50))
                v = g.tag(0)
                if r.random() < 0.3:
                    new = old
                else:
                    keys = [x for x in keys if x != old] + [new]
                    ops.append(dict(op="tset", s=1, how="remove", a=dict(NOTAG, k=k, id=t["id"], s=[old])))
                a = dict(NOTAG, k=k, id=t["id"], s=[new], c=[v]) if k == "dict" else dict(NOTAG, k=k, id=t["id"], s=[new, g.text(2)])
                ops.append(dict(op="tset", s=1, how="insert", a=a))
            elif c < 0.85:
                u = near(g, t)
                ops.append(dict(op="tinto", f=1, s=1, b=g.mutate(g.enc(u), r.choice([0, 0, 1]))))
            else:
                ops.append(setop(g, 1, t))
                if k not in ("dict", "sdict"):
                    t = dict(ops[-1]["a"], id=t["id"])
        ops += [dict(o) for o in looks]
        yield dict(su="obj", ops=ops)


# ------------------------------------------------------------------- memory
HUGE = [1 << 16, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, M64 - 2, M64 - 1]


def count(g, ln, top=True):
    r = g.r
    c = r.random()
    if c < 0.04:
        return min(g.lit(M64 - 1, 1), M64 - 1 if top else ln + 3)
    if c < 0.65:
        return r.choice([0, 1, 2, 3, r.randint(0, max(1, ln))])
    if c < 0.85 or not top:
        return max(0, ln + r.choice([-2, -1, 0, 1, 2]))
    return r.choice(HUGE)


BLOCKS = [511, 512, 1000, 1024, 4095, 4096, 4097, 8191, 8192, 8193] + [x for x in literals.NEW if 41 < x <= 40000]


def blocks(g):
    """A length above the usual sizes of buffers."""
    r = g.r
    if literals.NEW and r.random() < 0.25:
        return max(2, g.lit(40000, 5000)) + r.choice([0, 0, 7])
    return r.choice([4097, 5000, 8192, 8200, 9001, 12288, 16385, 20000])


def large_ops(g, L, read=True):
    """Requests of several blocks."""
    r = g.r
    ops = []
    for _ in range(r.randint(1, 5)):
        o = r.choice(["all", "all", "all", "skip", "skip64", "read"])
        if o == "read":
            ops.append(dict(op=o))
        else:
            ops.append(dict(op=o, n=W(max(0, r.choice([L, L // 2, L // 3, L + 1] + BLOCKS) + r.choice([-1, 0, 0, 1, 5, 200])))))
    return ops


def large_pat(g):
    """Pieces that streams give or take: around blocks, tiny, or interrupted for long."""
    r = g.r
    return r.choice([[4096, 100], [4096, 1, 4000], [1000], [512, 0, 511], [8191, 2], [4095, 1, 1], [1 << 20], [4096], [8192, 0, 0, 3],
                     [0] * 200 + [1500], [700, 0, 0, 0, 4096], [r.choice(BLOCKS), r.choice(BLOCKS), r.randint(1, 900)]])


def io_mr(g, n):
    r = g.r
    for _ in range(n // 30):
        L = blocks(g)
        yield dict(su="mr", init=g.bytes(L), ops=large_ops(g, L))
    for _ in range(n):
        d = g.bytes(r.choice([0, 1, 2, 5, 10, 10, 10, 300, 600, 1500]) if r.random() < 0.8 else r.randint(0, 40))
        L = len(d)
        ops = []
        for _ in range(r.randint(3, 14)):
            o = r.choice(["read", "read", "all", "all", "skip", "skip64", "seek", "can"])
            if o == "read":
                ops.append(dict(op=o))
            else:
                ops.append(dict(op=o, n=W(count(g, L, o != "all"))))
        yield dict(su="mr", init=d, ops=ops)


def io_mw(g, n):
    r = g.r
    for j in range(n // 30):
        ops = []
        for _ in range(r.randint(1, 4)):
            ops.append(dict(op=r.choice(["wall", "dyn"]), b=g.bytes(blocks(g))))
            if r.random() < 0.5:
                ops.append(dict(op="seek", n=W(r.choice([0, 1] + BLOCKS))))
        yield dict(su="mw", kind=["vec", "bvec", "arr"][j % 3], init=g.bytes(r.choice([0, 20, 30000])), off=r.choice([0, 0, 20]), ops=ops)
    for j in range(n // 10):
        # writes of many sizes that just fit, or just do not
        L = r.choice([r.randint(21, 80), r.randint(21, 80), r.randint(80, 300), r.randint(300, 1200)])
        p = off = r.choice([0, 0, r.randint(0, L)])
        ops = []
        for _ in range(r.randint(2, 6)):
            c = r.random()
            if c < 0.25:
                p = r.choice([0, r.randint(0, L)])
                ops.append(dict(op="seek", n=W(p)))
            elif c < 0.3:
                ops.append(dict(op="ro", v=r.random() < 0.5))
            else:
                m = max(0, r.choice([L - p + r.choice([-1, 0, 1, 1, 2, 5, 40]), L - p - r.randint(1, 12), L - p + r.randint(0, 600), r.randint(0, max(0, L - p))]))
                ops.append(dict(op=r.choice(["wall", "dyn"]), b=g.bytes(m)))
                if p + m <= L:
                    p += m
        ops.append(dict(op="write", b=[7]))
        yield dict(su="mw", kind=["vec", "bvec", "arr", "arr"][j % 4], init=g.bytes(L), off=off, ops=ops)
    for j in range(n):
        kind = ["vec", "bvec", "arr"][j % 3]
        d = g.bytes(r.choice([0, 0, 1, 3, 8, 20]))
        ops = []
        for _ in range(r.randint(3, 14)):
            o = r.choice(["write", "write", "wall", "wall", "dyn", "seek", "seek", "ro"])
            if o == "write":
                ops.append(dict(op=o, b=[r.getrandbits(8)]))
            elif o in ("wall", "dyn"):
                ops.append(dict(op=o, b=g.bytes(r.choice([0, 1, 2, 3, 5, 9, 30]))))
            elif o == "seek":
                ops.append(dict(op=o, n=W(count(g, len(d)))))
            elif r.random() < 0.4:
                ops.append(dict(op="ro", v=r.random() < 0.6))
        off = r.choice([0, 0, len(d), r.randint(0, len(d) + 2)])
        yield dict(su="mw", kind=kind, init=d, off=off, ops=ops)


def io_lim(g, n):
    r = g.r
    for j in range(n // 60):
        # all that the limit has left, from a source that ends before, in or after it
        L = blocks(g)
        lim = L + r.choice([1, L // 3, L // 2, L, 3 * L])
        a = r.choice([0, 0, 5])
        ops = [dict(op="all", n=W(a))] if a else []
        for o in ("all", "skip", "skip64", "end"):
            ops += [dict(op=o, n=W(lim - a)) if o != "end" else dict(op=o), dict(op="query")]
        ops += [dict(op="all", n=W(L - a)), dict(op="query"), dict(op="read"), dict(op="query")]
        if r.random() < 0.3:
            ops = [dict(op="push", n=W(lim))] + ops + [dict(op="pop"), dict(op="query")]
        yield dict(su="lim", kind=["one", "src"][j % 2], init=g.bytes(L), zeros=W(0), fault=W(r.choice([L + 5, L + 5, L - 3])), lim=W(lim), ops=ops)
    for j in range(n // 30):
        L = blocks(g)
        lim = r.choice([L, L - 1, L + 1, r.choice(BLOCKS)])
        ops = []
        for o in large_ops(g, min(lim, L)) + large_ops(g, min(lim, L)):
            ops.append(o)
            if r.random() < 0.4:
                ops.append(dict(op="query"))
        yield dict(su="lim", kind=["one", "src"][j % 2], init=g.bytes(L), zeros=W(0), fault=W(r.choice([L + 5, L + 5, L - 3])), lim=W(lim), ops=ops)
    for j in range(n):
        L = r.choice([0, 1, 3, 8, 20, 40, 700, 1300]) if r.random() < 0.7 else r.randint(0, 50)
        d = g.bytes(L)
        fault = L + 5 if r.random() < 0.6 else r.randint(0, L)
        lim = r.choice([L, L, L + 3, max(0, L - 2), r.randint(0, L + 2), 0, 1 << 20])
        ops = []
        depth = 1
        cur = lim
        for _ in range(r.randint(3, 16)):
            o = r.choice(["read", "read", "all", "all", "skip", "skip", "skip64", "can", "query", "push", "pop", "end"])
            if o == "push":
                if depth >= 4:
                    continue
                depth += 1
                cur = r.choice([cur, cur + 1, max(0, cur - 1), r.randint(0, min(L, 1000) + 2), 0])
                ops.append(dict(op=o, n=W(cur)))
            elif o == "pop":
                if depth > 1:
                    depth -= 1
                    ops.append(dict(op=o))
            elif o in ("read", "query"):
                ops.append(dict(op=o))
            elif o == "end":
                if r.random() < 0.5:
                    ops.append(dict(op=o))
            else:
                ops.append(dict(op=o, n=W(count(g, r.choice([L, min(cur, 2000)]), o != "all"))))
        yield dict(su="lim", kind=["one", "src"][j % 2], init=d, zeros=W(0), fault=W(fault), lim=W(lim), ops=ops)
    # all that a large limit has left, from a source that ends before
    for j in range(n // 20):
        d = g.bytes(r.choice([0, 3, 20]))
        lim = r.choice([1 << r.randint(14, 20), 1 << r.randint(14, 20), 1000000, g.lit(1 << 21, 1 << 17)]) + r.choice([-1, 0, 1, 2, 777])
        L = r.choice([0, lim // 3, lim // 2, lim // 2 + 7, lim - 1, lim * 3 // 4])
        ops = []
        if r.random() < 0.3:
            ops = [dict(op="push", n=W(lim + 5))]
            d, lim = g.bytes(5), lim + 5
        ops += [dict(op="all", n=W(lim)), dict(op="query"), dict(op="end"), dict(op="query"), dict(op="skip64", n=W(lim)), dict(op="query"), dict(op="all", n=W(lim)),
                dict(op="all", n=W(min(5, len(d) + L))), dict(op="query"), dict(op="skip", n=W(lim)), dict(op="query")]
        z = max(0, L - len(d))
        yield dict(su="lim", kind="src", init=d, zeros=W(z), fault=W(r.choice([M64 - 1, len(d) + z, (len(d) + z) // 2])), lim=W(lim), ops=ops)
    # beyond 31, 32, ... bits: a source that goes on with zeros
    for j in range(n // 5):
        d = g.bytes(r.choice([0, 3, 20]))
        z = r.choice(BIG)
        full = len(d) + z
        lim = min(M64 - 1, max(0, full + r.choice([0, 0, -1, 1, -(1 << 20), 100])))
        fault = r.choice([M64 - 1, M64 - 1, full, full - 1, 1 << 31])
        ops, depth, cur, used = [], 1, lim, 0
        for _ in range(r.randint(3, 12)):
            o = r.choice(["read", "all", "skip", "skip", "skip64", "skip64", "can", "query", "push", "pop", "end"])
            if o in ("read", "query"):
                ops.append(dict(op=o))
            elif o == "all":
                ops.append(dict(op=o, n=W(r.randint(0, 30))))
            elif o == "pop":
                if depth > 1:
                    depth -= 1
                    ops.append(dict(op=o))
            elif o == "push":
                if depth < 4:
                    depth += 1
                    ops.append(dict(op=o, n=W(max(0, min(M64 - 1, r.choice([lim - used, lim, z // 2] + BIG) + r.randint(-2, 2))))))
            elif o == "end":
                if r.random() < 0.3:
                    ops.append(dict(op=o))
            else:
                m = max(0, min(M64 - 1, r.choice([lim - used, z, z // 2, 1 << 31, 1 << 32, r.randint(0, 9)] + BIG) + r.choice([-2, -1, 0, 0, 0, 1])))
                ops.append(dict(op=o, n=W(m)))
                if used + m <= min(lim, full):
                    used += m
        yield dict(su="lim", kind="src", init=d, zeros=W(z), fault=W(fault), lim=W(lim), ops=ops)


def io_rr(g, n):
    r = g.r
    for _ in range(n // 12):
        L = blocks(g)
        yield dict(su="rr", init=g.bytes(L), fault=r.choice([L + 1, L + 1, L, r.randint(0, L)]), pat=large_pat(g), ops=large_ops(g, L),
                   once=r.random() < 0.5)
    for _ in range(n):
        L = r.choice([0, 1, 3, 8, 20, 600, 1100]) if r.random() < 0.7 else r.randint(0, 60)
        d = g.bytes(L)
        fault = L + 1 if r.random() < 0.6 else r.randint(0, L)
        pat = [r.choice([0, 0, 1, 1, 2, 3, 7, 1000]) for _ in range(r.randint(1, 7))]
        if not any(pat):
            pat.append(1)
        ops = []
        for _ in range(r.randint(2, 14)):
            o = r.choice(["read", "read", "all", "all", "skip", "skip64"])
            ops.append(dict(op=o) if o == "read" else dict(op=o, n=W(count(g, L, o != "all"))))
        yield dict(su="rr", init=d, fault=fault, pat=pat, ops=ops, once=r.random() < 0.5)


def io_ww(g, n):
    r = g.r
    for _ in range(n // 12):
        ops = []
        for _ in range(r.randint(1, 4)):
            ops.append(dict(op=r.choice(["wall", "wall", "dyn", "write"]), b=[]))
            ops[-1]["b"] = g.bytes(1 if ops[-1]["op"] == "write" else r.choice([blocks(g), r.choice(BLOCKS), 3]))
        yield dict(su="ww", pat=large_pat(g), cap=r.choice([1 << 20, 1 << 20, 5000, 4096]), zero=r.random() < 0.5, ops=ops)
    for _ in range(n):
        cap = r.choice([0, 1, 3, 10, 20, 1 << 20, 1 << 20])
        pat = [r.choice([0, 0, 1, 1, 2, 3, 7, 1000]) for _ in range(r.randint(1, 7))]
        if not any(pat):
            pat.append(1)
        ops = []
        for _ in range(r.randint(2, 10)):
            o = r.choice(["write", "wall", "wall", "dyn"])
            ops.append(dict(op=o, b=g.bytes(1 if o == "write" else r.choice([0, 1, 2, 4, 9, 30]))))
        yield dict(su="ww", pat=pat, cap=cap, zero=r.random() < 0.5, ops=ops)


def io_seek(g, n):
    r = g.r
    for j in range(n // 30):
        L = blocks(g)
        ops = []
        for o in large_ops(g, L) + large_ops(g, L):
            ops.append(o)
            c = r.random()
            if c < 0.3:
                ops.append(dict(op=r.choice(["len", "off", "av", "empty"])))
            elif c < 0.5:
                ops.append(dict(op="jump", n=W(r.choice([0, L, L // 2, L - 1] + BLOCKS))))
            elif c < 0.6:
                ops.append(dict(op="wall", b=g.bytes(r.choice(BLOCKS))))
        yield dict(su="seek", kind=["cur", "file", "fault", "chunk"][j % 4], init=g.bytes(L), zeros=W(0), ops=ops)
    for j in range(n):
        kind = ["cur", "file", "fault", "chunk", "far"][j % 5]
        z = r.choice(BIG + [5]) - 3000 if kind == "far" else 0
        L = r.choice([0, 1, 3, 8, 20]) if r.random() < 0.8 else r.choice([600, 1100])
        d = g.bytes(L)
        ops = []
        far = False
        for _ in range(r.randint(3, 16)):
            o = r.choice(["len", "off", "av", "empty", "jump", "read", "read", "all", "all", "skip", "skip", "skip64",
                          "write", "wall", "dyn", "arm"])
            if o in ("write", "wall", "dyn"):
                if far or z:
                    continue
                ops.append(dict(op=o, b=g.bytes(1 if o == "write" else r.choice([0, 1, 2, 5, 12]))))
            elif o == "jump":
                far = r.random() < 0.2
                p = r.choice([1 << 31, 1 << 32, 1 << 40] + ([1 << 62, (1 << 63) - 1, 1 << 63, M64 - 1, M64 - 2] if kind != "file" else [])) \
                    if far else r.choice([z + L, z + L + 1, z + L - 1, z, z // 2, 0]) if z > 0 else r.choice([0, 1, L, L + 1, L + 5, max(0, L - 1), r.randint(0, L)])
                ops.append(dict(op=o, n=W(p)))
            elif o == "arm":
                if kind == "fault":
                    ops.append(dict(op=o, what=r.choice(["seek", "end", "start", "start", "cur", "read", "write"]), v=r.random() < 0.5))
            elif o in ("all", "skip", "skip64"):
                if z > 0 and o != "all" and r.random() < 0.6:
                    ops.append(dict(op=o, n=W(max(0, min(M64 - 1, r.choice([z, z + L, z // 2, 1 << 31, 1 << 32]) + r.randint(-2, 2))))))
                else:
                    ops.append(dict(op=o, n=W(count(g, L, o != "all"))))
            else:
                ops.append(dict(op=o))
        yield dict(su="seek", kind=kind, init=d, zeros=W(max(0, z)), ops=ops)


def t_threads(g, n):
    """Jobs on a shared factory under random schedules (P24)."""
    r = g.r
    for _ in range(n):
        nt = r.choice([2, 2, 3, 4])
        reg = R0
        jobs = []
        for _ in range(nt):
            js = []
            for _ in range(r.randint(1, 3)):
                c = r.random()
                if c < 0.7:
                    b = g.enc(g.tag(r.randint(0, 2), std=1))
                else:
                    b = g.mutate(g.enc(g.tag(r.randint(0, 2), std=1)), 1)
                if len(b) > 120:
                    b = g.enc(g.tag(0, std=1))
                js.append(b)
            jobs.append(js)
        order = []
        total = sum(2 * len(b) + 2 for js in jobs for b in js)
        burst = r.choice([1, 1, 2, 5])
        while len(order) < total:
            order += [r.randrange(nt)] * r.randint(1, burst)
        yield dict(su="thr", R=r.choice([R0, R0, RS]), jobs=jobs, order=order)
