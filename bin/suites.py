"""Which models, and which recorded sessions, decide which property."""
import gen, gen_state
from gen import G, sessions

BATCH = 5000        # events per trace validation

# trace suites: name -> (kind, function of (G, n)); kind "pure" yields operations
PURE = {
    "ilint": gen.p_ilint, "idec": gen.p_idec, "signed": gen.p_signed, "prim": gen.p_prim, "strtag": gen.p_strtag,
    "ids": gen.p_ids, "ser": gen.p_ser, "sizes": lambda g, n: gen.p_ser_sizes(g), "round": gen.p_round,
    "dec": gen.p_dec, "trunc": gen.p_trunc, "into": gen.p_into, "eqclone": gen.p_eqclone, "eqbig": gen.p_eqbig, "scan": gen.p_scan,
    "ext": gen.p_ext, "nest": gen.p_nest, "fault": gen.p_fault, "mem": gen.p_mem,
    "membig": lambda g, n: gen.p_mem_big(g), "greedy": gen.p_greedy, "rep": gen.p_rep, "near": gen.p_near, "inter": gen.p_inter,
    "val": gen.p_val, "pad": gen.p_pad, "huge": gen.p_huge, "lie": gen.p_lie, "broken": gen.p_broken,
    "work": lambda g, n: gen.p_work(g, sorted({1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 24, 32, 40, 48, 64} & set(range(n + 1)))),
    "blocks": gen.p_blocks, "special": gen.p_special,
    "ldec": lambda g, n: gen.p_large(g, n, ["dec"]), "lcut": lambda g, n: gen.p_large(g, n, ["cut"]),
    "linto": lambda g, n: gen.p_large(g, n, ["into", "val"]), "leq": lambda g, n: gen.p_large(g, n, ["eq"]),
    "lscan": lambda g, n: gen.p_large(g, n, ["scan"]), "lser": lambda g, n: gen.p_large(g, n, ["ser"]),
    "lfault": lambda g, n: gen.p_large(g, n, ["fault"]),
    "ldict": lambda g, n: gen.p_large(g, n, ["dec", "into", "ser", "dec", "eq"], ["dict", "sdict"]),
    "big": lambda g, n: gen.p_big(g, [0, 1, 247, 248, 503, 504, 65535, 65783, 65784, 70000, 1 << 20, (1 << 24) + 248, (1 << 24) + 247][:n]),
    "many": lambda g, n: gen.p_many(g, [0, 1, 2, 100, 246, 247, 248, 249, 255, 256, 257, 503, 504, 505, 760, 3000, 65536, 65784][:n]),
    "depth": lambda g, n: gen.p_depth(g, [d for d in (1, 2, 3, 10, 50, 100, 300, 600, 1000) if d <= n]),
}
STATE = {
    "ospecial": gen_state.o_special,
    "accessors": gen_state.o_accessors, "dict": gen_state.o_dict, "registry": gen_state.o_registry,
    "ointo": gen_state.o_into, "turns": gen_state.o_turns, "mixed": gen_state.o_mixed, "mr": gen_state.io_mr, "mw": gen_state.io_mw,
    "lim": gen_state.io_lim, "rr": gen_state.io_rr, "ww": gen_state.io_ww, "seek": gen_state.io_seek,
    "threads": gen_state.t_threads,
}

MODELS = {}


def ilint(tier):
    sizes = [(16, 2), (12, 3), (6, 4)] if tier == "quick" else [(16, 2), (32, 2), (12, 3), (24, 3), (6, 4), (10, 4), (9, 5), (256, 2)]
    for b, n in sizes:
        yield dict(name=f"ilint base {b} length {n}", module="MC_ilint",
                   cfg=f"CONSTANTS\n WB = {b}\n WN = {n}\nINIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n")


MODELS["ilint"] = ilint


W64 = "CONSTANTS\n WB = 256\n WN = 8\n"
RUN = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"


def io(suite, quick, deep):
    def f(tier):
        for k, small in (quick if tier == "quick" else deep):
            yield dict(name=f"{suite} " + (f"histories of {k} operations" if k else "transitions") + (" (small)" if small else ""),
                       module="MC_io", vectors=True,
                       cfg=W64 + f" SUITE = \"{suite}\"\n K = {k}\n SMALL = {'TRUE' if small else 'FALSE'}\n" + RUN
                       + "VIEW View\nINVARIANT Inv\nPROPERTY Good\n", timeout=800)
    return f


MODELS["mr"] = io("mr", [(3, True), (2, False), (0, False)], [(4, True), (3, False), (0, False)])
MODELS["mw"] = io("mw", [(3, True), (2, False), (0, True)], [(3, False), (0, False)])
MODELS["lim"] = io("lim", [(3, True), (2, False), (0, True)], [(3, False), (0, False)])
MODELS["seek"] = io("seek", [(3, True), (2, False), (0, True)], [(3, False), (0, False)])


def adapter(tier):
    for side in ("rr", "ww"):
        n, ln = (5, 4) if tier == "quick" else (7, 5)
        yield dict(name=f"{side} adapter, all outcomes of {n} stream calls", module="MC_adapter", vectors=True,
                   cfg=W64 + f" SIDE = \"{side}\"\n MaxCalls = {n}\n LEN = {ln}\n" + RUN + "INVARIANT Inv\nINVARIANT Ends\nINVARIANT Emit\n")


MODELS["adapter"] = adapter


# family -> (quick, thorough) input length
DECODER = {"scalar": (8, 10), "fixed": (20, 22), "box": (6, 8), "deep": (9, 11), "arr": (8, 10), "dict": (10, 12), "reg": (6, 8),
           "into": (6, 8)}


def decoder(*fams):
    def f(tier):
        for fam in fams:
            n = DECODER[fam][tier == "thorough"]
            yield dict(name=f"decoding machine, {fam} inputs of at most {n} bytes", module="MC_decoder", vectors=True,
                       cfg=W64 + f" FAM = \"{fam}\"\n N = {n}\n" + RUN + "INVARIANT Inv\nINVARIANT Emit\n")
    return f


for _f in DECODER:
    MODELS["decoder-" + _f] = decoder(_f)
MODELS["decoder"] = decoder(*(f for f in DECODER if f != "into"))


def tree(emit, quick, deep):
    """All trees of a family of leaves with at most so many nodes, each in an operation."""
    def f(tier):
        for fam, n in (quick if tier == "quick" else deep):
            yield dict(name=f"{fam} trees of at most {n} nodes, {emit}", module="MC_tree", vectors=True, judge=True,
                       cfg=W64 + f" FAM = \"{fam}\"\n NODES = {n}\n EMIT = \"{emit}\"\n" + RUN + "INVARIANT Inv\nINVARIANT Emit\n")
    return f


for _e in ("ser", "dec", "strict", "trunc", "into", "clone", "eq", "scan", "nest", "fault"):
    MODELS["tree-" + _e] = tree(_e, [("leaf", 2 if _e in ("ser", "clone", "fault") else 1), ("tree", 3)], [("leaf", 2), ("tree", 4)])


def obj(fam):
    """Every transition of a small world of objects."""
    def f(tier):
        small = tier == "quick"
        yield dict(name=f"objects, {fam}" + (" (small)" if small else ""), module="MC_obj", vectors=True,
                   cfg=W64 + f" FAM = \"{fam}\"\n SMALL = {'TRUE' if small else 'FALSE'}\n" + RUN
                   + "VIEW View\nINVARIANT Inv\nPROPERTY Good\n")
    return f


for _f in ("dict", "reg", "acc", "own", "into"):
    MODELS["obj-" + _f] = obj(_f)


def text(tier):
    n = 4 if tier == "quick" else 5
    yield dict(name=f"texts of at most {n} bytes", module="MC_utf8", vectors=True,
               cfg=W64 + f" N = {n}\n" + RUN + "INVARIANT Inv\nINVARIANT Emit\n")


def scanner(tier):
    n = 5 if tier == "quick" else 7
    yield dict(name=f"scanning machine, inputs of at most {n} bytes", module="MC_scan", vectors=True, judge=True,
               cfg=W64 + f" N = {n}\n" + RUN + "INVARIANT Inv\nINVARIANT Emit\n")


def extents(tier):
    for k, small in ([(2, True), (1, False)] if tier == "quick" else [(3, True), (1, False)]):
        yield dict(name=f"extents through {k} parents" + (" (small)" if small else ""), module="MC_ext", vectors=True, judge=True,
                   cfg=W64 + f" K = {k}\n SMALL = {'TRUE' if small else 'FALSE'}\n" + RUN + "INVARIANT Inv\nINVARIANT Emit\n")


def cost(fam, quick, deep):
    def f(tier):
        for k, small in (quick if tier == "quick" else deep):
            yield dict(name=f"cost of {fam}, chains of at most {k}" + (" (small)" if small else ""), module="MC_cost", vectors=True,
                       judge=True, cfg=W64 + f" FAM = \"{fam}\"\n K = {k}\n SMALL = {'TRUE' if small else 'FALSE'}\n" + RUN
                       + "INVARIANT Inv\nINVARIANT Emit\n", timeout=1500)
    return f


def word(fam):
    def f(tier):
        for n, wide in ([(2, False)] if tier == "quick" else [(3, False), (2, True)]):
            yield dict(name=f"64-bit integers, {fam}, {n} changes of digit" + (" (wide)" if wide else ""), module="MC_word", vectors=True,
                       cfg=W64 + f" FAM = \"{fam}\"\n F = {n}\n WIDE = {'TRUE' if wide else 'FALSE'}\n" + RUN
                       + "INVARIANT Inv\nINVARIANT Emit\n")
    return f


MODELS["word-bytes"] = word("bytes")
MODELS["word-values"] = word("values")


def inter(tier):
    for mode, n, procs in ([("nest", 0, 2), ("threads", 8, 2)] if tier == "quick" else [("nest", 0, 2), ("nest", 0, 3), ("threads", 11, 2), ("threads", 7, 3)]):
        yield dict(name=f"{procs} operations interleaved, {mode}" + (f", at most {n} calls" if n else ""), module="MC_inter", vectors=True, judge=True,
                   cfg=W64 + f" MODE = \"{mode}\"\n MAXLEN = {n}\n PROCS = {procs}\n" + RUN + "INVARIANT Inv\nINVARIANT Emit\n", timeout=1500)


MODELS["inter"] = inter
MODELS["utf8"] = text
MODELS["scan"] = scanner
MODELS["ext"] = extents
MODELS["cost-work"] = cost("work", [(4, True)], [(6, True)])
MODELS["cost-mem"] = cost("mem", [(1, True)], [(1, False)])


def batches(done):
    """Executed sessions in parts of about BATCH events."""
    part, n = [], 0
    for x in done:
        part.append(x)
        n += len(x[1])
        if n >= BATCH:
            yield part
            part, n = [], 0
    if part:
        yield part


def model(name, tier):
    return list(MODELS[name](tier))


def vector_sessions(vecs):
    """Vectors are sessions, or stateless operations to be grouped."""
    ss = [v for v in vecs if "su" in v]
    ss += sessions([v for v in vecs if "su" not in v], 50)
    return ss


def traces(prop, seed, tier):
    k = 1 if tier == "quick" else prop.get("deep", 12)
    pure, state = [], []
    for name, n in prop.get("traces", {}).items():
        rounds = 1 if tier == "quick" or name in ("sizes", "membig", "work", "big", "many", "depth", "special", "ospecial") else k
        if tier == "thorough":
            n = {"work": 64, "depth": 1000, "big": 13, "many": 18}.get(name, n)
        for i in range(rounds):
            g = G(seed + 1000 * i, name)
            if name in PURE:
                pure.append((name, sessions(PURE[name](g, n))))
            else:
                state.append((name, list(STATE[name](g, n))))
    for su, items in (("pure", pure), ("state", state)):
        batch, names, cnt = [], [], 0
        for name, ss in items:
            for i in range(0, len(ss), 100):
                part = ss[i:i + 100]
                batch += part
                if name not in names:
                    names.append(name)
                cnt += sum(len(s.get("ops") or s.get("jobs") or [0]) for s in part)
                if cnt >= BATCH:
                    yield "+".join(names), su, batch
                    batch, names, cnt = [], [], 0
        if batch:
            yield "+".join(names), su, batch


def depth_case(m, k, d, st):
    return dict(su="pure", ops=[dict(op="depth", m=m, k=k, d=d, st=st, R=gen.R0)])


PROPS = {
    "P01": dict(mc=["ilint", "word-values"], traces=dict(ilint=1500, idec=300)),
    "P02": dict(mc=["ilint", "word-bytes"], traces=dict(idec=3000, ilint=300)),
    "P03": dict(mc=["ilint", "word-values", "word-bytes"], traces=dict(signed=1200, accessors=60)),
    "P04": dict(mc=["utf8"], traces=dict(prim=500, strtag=300, round=150)),
    "P05": dict(mc=["tree-ser"], traces=dict(special=1, many=18, huge=300, lie=200, ser=600, lser=80, sizes=1, big=12, blocks=6, strtag=100, fault=60, into=250, linto=40, val=100, turns=150)),
    "P06": dict(mc=["decoder-box", "decoder-arr", "tree-dec"], traces=dict(special=3, many=18, blocks=14, round=600, ser=150, dec=600, ldec=80, accessors=40)),
    "P07": dict(mc=["decoder", "utf8"], traces=dict(special=2, dec=4500, ldec=120, trunc=60, val=500, pad=3)),
    "P08": dict(mc=["decoder-deep", "decoder-box"], traces=dict(dec=2500, ldec=60, val=600, greedy=400, lim=100, trunc=60)),
    "P09": dict(mc=["decoder-scalar", "decoder-fixed", "tree-trunc"], traces=dict(trunc=600, lcut=120, dec=1200, mr=60, strtag=150, blocks=3)),
    "P10": dict(mc=["decoder-dict", "obj-dict"], traces=dict(special=1, many=18, dict=300, turns=150, ldict=150, dec=400, eqclone=100)),
    "P11": dict(mc=["decoder-reg", "obj-reg", "tree-strict"], traces=dict(registry=500, dec=800, ldec=60, ids=50)),
    "P12": dict(mc=["decoder-into", "obj-into", "tree-into"], traces=dict(special=16, into=700, linto=100, val=400, ointo=350)),
    "P13": dict(mc=["tree-eq", "tree-clone", "obj-own"], traces=dict(special=36, eqclone=1200, lie=400, broken=100, leq=80, eqbig=120, mixed=60, dict=60)),
    "P14": dict(mc=["scan", "tree-scan"], traces=dict(scan=1500, lscan=150, nest=60)),
    "P15": dict(mc=["ext", "tree-nest"], traces=dict(ext=1200, nest=500)),
    "P16": dict(mc=["mr"], traces=dict(mr=900)),
    "P17": dict(mc=["mw"], traces=dict(mw=900)),
    "P18": dict(mc=["lim"], traces=dict(lim=1200, greedy=60)),
    "P19": dict(mc=["adapter"], traces=dict(rr=700, ww=500)),
    "P20": dict(mc=["seek"], traces=dict(seek=1000)),
    "P21": dict(mc=["tree-fault"], traces=dict(special=8, fault=400, lfault=60, ww=100)),
    "P22": dict(mc=["cost-work"], traces=dict(work=64)),
    "P23": dict(mc=["cost-mem"], traces=dict(mem=600, membig=1)),
    "P24": dict(mc=["inter"], traces=dict(near=300, rep=8, threads=250, inter=500, broken=300, mixed=200, turns=300, registry=60)),
    "P25": dict(mc=["obj-acc"], traces=dict(ospecial=1, accessors=600, ids=500)),
    "P26": dict(traces=dict(depth=1000),
                known=[("deep-drop", depth_case("drop", "seq", 300000, 8192), "overflowed its stack"),
                       ("deep-decode", depth_case("dec", "seq", 6000, 512), "overflowed its stack")]),
}
