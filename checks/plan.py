"""Which harness runs, with which bounds, decide each property."""
import json, os, random

ASSUMPTIONS = [
    "every run stays within the stated bounds (vertices, symbolic bits, operations, loop iterations); nothing is claimed outside them",
    "libc is modelled by rt/vs_env.c (heap, strings, in-memory stdio, scripted rand, clock 0); the model is compared with the native build on sampled inputs of every job",
    "clang -O0 IR of the current /repo sources (x86-64, NIL==0) represents the program; LLVM passes mem2reg/sroa/early-cse/simplifycfg are trusted",
    "heap requests above 16 MiB fail in the model",
]
PROPS = {}
def prop(pid, **kw):
    def deco(f): PROPS[pid] = dict(kw, fn=f); return f
    return deco
def jobs(pid, tier, seed): return PROPS[pid]["fn"](tier, seed)
def J(name, h, cube=0, covers=(), cost=1, **kw):
    defs = {k: v for k, v in kw.items() if k.isupper()}
    rest = {k: v for k, v in kw.items() if not k.isupper()}
    return dict(name=name, h=h, cube=cube, covers=list(covers), cost=cost, defs=defs, **rest)

# ---------------------------------------------------------------- families of larger graphs
def es(edges): return ",".join("{%d,%d}" % e for e in edges)
def family(n, m, k, seed):
    """random labelled graph on n vertices with m candidate edges, the last k of them free"""
    r = random.Random(seed * 7919 + n * 101 + m)
    pairs = [(i, j) for i in range(1, n + 1) for j in range(i + 1, n + 1)]; r.shuffle(pairs)
    c = pairs[:m]
    return dict(NN=n, FIXED=es(c[:m - k]), FREE=es(c[m - k:]))
def subdivided(base, n, k, seed):
    """a base obstruction with randomly subdivided edges, randomly labelled, k edges free (some of them extra chords)"""
    r = random.Random(seed * 104729 + n)
    e = [tuple(x) for x in base]; nv = max(max(x) for x in e)
    while nv < n:
        i = r.randrange(len(e)); u, v = e.pop(i); nv += 1; e += [(u, nv), (nv, v)]
    lab = list(range(1, n + 1)); r.shuffle(lab)
    e = [tuple(sorted((lab[u - 1], lab[v - 1]))) for u, v in e]; r.shuffle(e)
    have = set(e); extra = [(i, j) for i in range(1, n + 1) for j in range(i + 1, n + 1) if (i, j) not in have]; r.shuffle(extra)
    ne = k // 2; free = extra[:ne] + e[:k - ne]; fixed = e[k - ne:]
    return dict(NN=n, FIXED=es(fixed), FREE=es(free))
K5 = [(i, j) for i in range(1, 6) for j in range(i + 1, 6)]
K33 = [(i, j) for i in range(1, 4) for j in range(4, 7)]
K4 = [(i, j) for i in range(1, 5) for j in range(i + 1, 5)]
K23 = [(i, j) for i in range(1, 3) for j in range(3, 6)]
PETERSEN = [(1, 2), (2, 3), (3, 4), (4, 5), (1, 5), (1, 6), (2, 7), (3, 8), (4, 9), (5, 10), (6, 8), (8, 10), (7, 10), (7, 9), (6, 9)]
OCTA = [(1, 2), (1, 3), (1, 4), (1, 5), (2, 3), (3, 4), (4, 5), (2, 5), (6, 2), (6, 3), (6, 4), (6, 5)]
CUBE = [(1, 2), (2, 3), (3, 4), (1, 4), (5, 6), (6, 7), (7, 8), (5, 8), (1, 5), (2, 6), (3, 7), (4, 8)]

def ksum(n, k, seed, plant=False):
    """random labelled 2-sum of K5s, K4s and triangles: nonplanar, yet without a K3,3 homeomorph whatever edges are taken out;
    with plant, 2-summed onto a K3,3 each of whose edges stays replaced by a path, so that every choice contains a K3,3 homeomorph"""
    r = random.Random(seed * 67867967 + n + 500 * plant)
    base = K33 if plant else K5; e = [(u, v, t) for t, (u, v) in enumerate(base)]; nv = max(max(x) for x in base)
    while nv < n:
        new = r.choice((3, 3, 1, 2)) if n - nv >= 3 else min(n - nv, 1)
        i = r.randrange(len(e)); u, v, t = e[i]; c = [u, v] + list(range(nv + 1, nv + 1 + new)); nv += new
        if r.random() < 0.6: e.pop(i)
        e += [(a, b, t) for x, a in enumerate(c) for b in c[x + 1:] if (a, b) != (u, v)]
    r.shuffle(e); free = []
    def joined(t, edges):
        a, b = base[t]; seen = {a}; grow = True
        while grow:
            grow = False
            for x, y, q in edges:
                if q == t and (x in seen) != (y in seen): seen |= {x, y}; grow = True
        return b in seen
    for x in list(e):
        if len(free) < k and (not plant or joined(x[2], [y for y in e if y != x and y not in free])): free.append(x)
    lab = list(range(1, n + 1)); r.shuffle(lab); m = lambda x: tuple(sorted((lab[x[0] - 1], lab[x[1] - 1])))
    return dict(NN=n, FREE=es([m(x) for x in free]), FIXED=es([m(x) for x in e if x not in free]))

CORPUS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "corpus.json")))
BOTH = ["embeddable", "nonembeddable"]
def triangulated(n, nfix, k, seed, outer=False):
    """random labelled maximal planar (or maximal outerplanar) graph; nfix edges fixed, k free"""
    r = random.Random(seed * 15485863 + n + 1000 * outer)
    if outer:
        e = [(1, 2), (1, 3), (2, 3)]; hull = [(1, 3), (2, 3), (1, 2)]
        for v in range(4, n + 1):
            u, w = hull.pop(r.randrange(len(hull))); e += [(u, v), (w, v)]; hull += [(u, v), (w, v)]
    else:
        e = [(1, 2), (1, 3), (2, 3)]; f = [(1, 2, 3), (1, 2, 3)]
        for v in range(4, n + 1):
            a, b, c = f.pop(r.randrange(len(f))); e += [(a, v), (b, v), (c, v)]; f += [(a, b, v), (a, c, v), (b, c, v)]
    lab = list(range(1, n + 1)); r.shuffle(lab)
    e = [tuple(sorted((lab[u - 1], lab[v - 1]))) for u, v in e]; r.shuffle(e)
    return dict(NN=n, FREE=es(e[:k]), FIXED=es(e[k:k + nfix]))
def sparse(n, k, seed):
    """random labelled spanning tree with a few triangle chords of a planar graph; some of them free"""
    r = random.Random(seed * 86028121 + n); e = []
    for v in range(2, n + 1): e.append((r.randrange(max(1, v - 3), v), v))
    have = set(e); par = {v: u for u, v in e}; ch = [tuple(sorted((par[par[v]], v))) for v in range(3, n + 1) if par[v] != 1]
    r.shuffle(ch); seen = set(); out = []
    for c in ch:
        if par[c[1]] not in seen: seen.add(par[c[1]]); out.append(c)
    lab = list(range(1, n + 1)); r.shuffle(lab); m = lambda x: tuple(sorted((lab[x[0] - 1], lab[x[1] - 1])))
    e = [m(x) for x in e]; r.shuffle(e); out = [m(x) for x in out]; kc = min(len(out), k // 2)
    return dict(NN=n, FREE=es(out[:kc] + e[:k - kc]), FIXED=es(e[k - kc:]))
def planted(base, n, k, seed):
    """a subdivided obstruction, all of it fixed, and k other edges free: certainly not embeddable"""
    r = random.Random(seed * 32452843 + n)
    e = [tuple(x) for x in base]; nv = max(max(x) for x in e)
    while nv < n - 1:
        i = r.randrange(len(e)); u, v = e.pop(i); nv += 1; e += [(u, nv), (nv, v)]
    lab = list(range(1, n + 1)); r.shuffle(lab)
    e = [tuple(sorted((lab[u - 1], lab[v - 1]))) for u, v in e]
    have = set(e); extra = [(i, j) for i in range(1, n + 1) for j in range(i + 1, n + 1) if (i, j) not in have]; r.shuffle(extra)
    return dict(NN=n, FIXED=es(e), FREE=es(extra[:k]))
def planar_plus(n, k, seed):
    """random maximal planar graph with some edges and some non-edges free"""
    r = random.Random(seed * 49979687 + n)
    t = triangulated(n, 0, 3 * n - 6, seed)
    e = [tuple(map(int, x.strip("{}").split(","))) for x in t["FREE"].replace("},{", "};{").split(";")]
    have = set(e); extra = [(i, j) for i in range(1, n + 1) for j in range(i + 1, n + 1) if (i, j) not in have]; r.shuffle(extra)
    return dict(NN=n, FIXED=es(e[k // 2:]), FREE=es(e[:k // 2] + extra[:k - k // 2]))

def embed_jobs(cmd, tier, seed):
    """all graphs up to 6 (7: thorough) vertices, and families of larger ones"""
    th = tier == "thorough"; h = "embed.c"
    js = [J("all-graphs-%d" % n, h, CMD=cmd, NN=n) for n in (1, 2, 3)]
    js += [J("all-graphs-4-prepend", h, CMD=cmd, NN=4, ORDER=2), J("all-graphs-5", h, CMD=cmd, NN=5, samples=12), J("all-graphs-5-mixed", h, CMD=cmd, NN=5, ORDER=3)]
    if cmd == 5: js.append(J("all-graphs-4-to-file", h, CMD=cmd, NN=4, RFILE=1)); js.append(J("sparse-n12-to-file", h, CMD=cmd, RFILE=1, MUST=1, cost=4, **sparse(12, 5, seed)))
    if cmd != 5: js.append(J("all-graphs-5-deleted", h, CMD=cmd, NN=5, ORDER=4))
    js += [J("all-graphs-6", h, cube=3, CMD=cmd, NN=6, covers=BOTH, cost=20)]
    if th: js += [J("all-graphs-6-backward", h, cube=3, CMD=cmd, NN=6, ORDER=1, cost=20), J("all-graphs-6-mixed", h, cube=3, CMD=cmd, NN=6, ORDER=3, cost=20), J("all-graphs-7", h, cube=6, CMD=cmd, NN=7, covers=BOTH, cost=100)]
    obstr = {0: [K5, K33], 1: [K4, K23], 2: [K23], 3: [K33], 4: [K4], 5: [K5, K33]}[cmd]
    twosided = cmd != 3
    reps = 6 if th else 2
    for q in range(reps):
        for bi, b in enumerate(obstr):
            n = 8 + (q + bi) % 2 if not th else 7 + (q + bi) % 4
            if twosided: js.append(J("subdivision-%d-%d-n%d" % (bi, q, n), h, CMD=cmd, ORDER=(4 if cmd != 5 else 3) if q % 2 else 0, cost=5, covers=BOTH, **subdivided(b, n, 10 if not th else 12, 10 * seed + q)))
            js.append(J("planted-%d-%d-n%d" % (bi, q, n + 1), h, CMD=cmd, ORDER=1 if q % 2 else 2, cost=5, MUST=-1, **planted(b, n + 1, 8 if not th else 10, 10 * seed + q)))
        n = 9 + q % 3
        js.append(J("sub-%s-%d-n%d" % ("planar" if cmd in (0, 3, 5) else "outerplanar", q, n), h, CMD=cmd, ORDER=(0, 3)[q % 2], cost=4, MUST=1, **triangulated(n, 40, 12 if not th else 14, 10 * seed + q, cmd in (1, 2, 4))))
        if cmd in (0, 5):
            n = 8 + q % 2
            js.append(J("near-planar-%d-n%d" % (q, n), h, CMD=cmd, ORDER=(3, 1)[q % 2], cost=8, covers=BOTH, **planar_plus(n, 10 if not th else 13, 10 * seed + q)))
    for q in range(3 if th else 1): js.append(J("sparse-%d-n12" % q, h, CMD=cmd, ORDER=(3, 0, 1)[q], cost=4, MUST=1, **sparse(12, 9, 10 * seed + q)) if cmd in (0, 3, 5) else J("sparse-%d-n11" % q, h, CMD=cmd, ORDER=(3, 0, 1)[q], cost=4, **sparse(11, 9, 10 * seed + q)))
    for q in range(16 if th else 6): # larger graphs, each with few free edges
        b = obstr[q % len(obstr)]; n = (16, 19, 22, 25, 28, 30)[q % 6]; sd = 100 * seed + q; o = (0, 3, 1, 2)[q % 4]; fr = 11 if th else 8
        if twosided and cmd != 2: js.append(J("large-subdivision-%d-n%d" % (q, n), h, CMD=cmd, ORDER=o, ON=n + 1, cost=6, loop=100000, covers=BOTH, **subdivided(b, n, fr, sd)))
        js.append(J("large-planted-%d-n%d" % (q, n - 2), h, CMD=cmd, ORDER=o, ON=n + 1, cost=6, loop=100000, MUST=-1, **planted(b, n - 2, fr, sd)))
        js.append(J("large-dense-%d-n%d" % (q, n - 4), h, CMD=cmd, ORDER=o, ON=n + 1, cost=6, loop=100000, MUST=1, **triangulated(n - 4, 3 * n - fr - 14 if cmd not in (1, 2, 4) else n, fr, sd, cmd in (1, 2, 4))))
        if cmd in (0, 5): js.append(J("large-near-planar-%d-n%d" % (q, n - 5), h, CMD=cmd, ORDER=o, ON=n + 1, cost=6, loop=100000, covers=BOTH, **planar_plus(n - 5, fr, sd)))
    if cmd == 3:
        for q in range(24 if th else 12): # graphs in which the search meets many K5s and reduces them
            n = (8, 11, 12, 14, 17, 20)[q % 6]; sd = 100 * seed + q; o = (0, 3, 1, 2)[q % 4]; fr = 10 if th else 6
            js += [J("k5-sum-%d-n%d" % (q, n), h, CMD=cmd, ORDER=o, ON=n + 1, cost=6, loop=100000, MUST=1, **ksum(n, fr, sd)), J("k5-sum-k33-%d-n%d" % (q, n), h, CMD=cmd, ORDER=o, ON=n + 1, cost=6, loop=100000, MUST=-1, **ksum(n, fr, sd, True))]
    for q, (n, fixed, free, *tab) in enumerate(CORPUS[str(cmd)]): # small graphs that reach rarely executed branches, and their neighbours
        js.append(J("rare-%d-n%d" % (q, n), h, CMD=cmd, cost=3, loop=20000, ON=max(13, n + 1), NN=n, FIXED=es(map(tuple, fixed)), FREE=es(map(tuple, free)), **({"VERD": ",".join(tab[0])} if tab else {})))
    js += [J("dense-n%d" % n, h, CMD=cmd, ORDER=o, MUST=-1, cost=5, loop=20000, ON=max(13, n + 1), **family(n, n * (n - 1) // 2, fr, seed)) for n, o, fr in ((9, 0, 7), (11, 3, 9))]
    if cmd in (0, 3, 5): js.append(J("petersen", h, CMD=cmd, MUST=-1, cost=4, **(lambda e: dict(NN=10, FIXED=es(e), FREE="{1,3},{2,9},{3,7},{4,6},{5,8},{1,9},{2,4}"))(PETERSEN)))
    return js
LARGE = " Larger graphs only within the listed families (fixed edges plus every subset of the free edges)."
for i, c in (("P01", 0), ("P02", 1), ("P03", 2), ("P04", 3), ("P05", 4), ("P06", 5)):
    PROPS[i] = dict(fn=lambda tier, seed, c=c: embed_jobs(c, tier, seed), outside="graphs with more than 6 (thorough: 7) vertices outside the listed families; edge insertion orders other than the listed ones")

@prop("P07")
def p07(tier, seed):
    d = tier == "thorough"; js = []; I = ["invalid"]
    for c in range(6):
        obstr = {0: [K5, K33], 1: [K4, K23], 2: [K23], 3: [K33], 4: [K4], 5: []}[c]
        n = 6 if d or c in (0, 1) else 5
        js.append(J("edges-c%d" % c, "tamper.c", CMD=c, KIND=0, NN=5, covers=I if c != 3 else [], cost=4))
        if c in (0, 1): js.append(J("verdict-c%d" % c, "tamper.c", CMD=c, KIND=3, NN=5, covers=I))
        for bi, b in enumerate(obstr): js.append(J("edges-c%d-b%d" % (c, bi), "tamper.c", CMD=c, KIND=0, covers=I, cost=5, **planted(b, 7 if not d else 8, 4 if not d else 6, seed + bi)))
    for c in (0, 1, 5): js += [J("rotation-c%d" % c, "tamper.c", CMD=c, KIND=1, NN=5, covers=I + (["still valid"] if c != 1 else [])), J("rotation-c%d-n8" % c, "tamper.c", CMD=c, KIND=1, cost=6, covers=I, **triangulated(8, 40, 6 if not d else 9, seed, c == 1))]
    js += [J("drawing", "tamper.c", CMD=5, KIND=2, NN=4, covers=I), J("drawing-n6", "tamper.c", CMD=5, KIND=2, covers=I, cost=5, **triangulated(6, 40, 5 if not d else 9, seed))]
    return js
@prop("P08")
def p08(tier, seed):
    d = tier == "thorough"; js = []; r = random.Random(seed)
    k5 = [(i, j) for i in range(1, 6) for j in range(i + 1, 6)]; k33 = list(K33); r.shuffle(k5)
    for c, pc in ((0, 0), (1, 1), (5, 5), (2, 2), (4, 4), (3, 3), (0, 3), (5, 0), (1, 4), (3, 2), (4, 5), (2, 1)):
        js.append(J("reuse-c%d-after-c%d" % (c, pc), "embed.c", CMD=c, PCMD=pc, NN=5, PRIOR=es(k5), PFREE=4 if not d else 10, cost=5, cube=0 if not d else 3, covers=["first graph refused"] if pc not in (3,) else []))
    for c in (0, 1, 2, 3, 4, 5):
        js.append(J("reuse-grown-c%d" % c, "embed.c", CMD=c, PCMD=c, CAP=4, PRIOR=es(K33 if c in (0, 3, 5) else K4 if c != 2 else K23), PFREE=2, cost=4, covers=["first graph refused"], **subdivided(K33 if c in (0, 3, 5) else K4 if c != 2 else K23, 7, 7 if not d else 11, seed)))
        js.append(J("again-c%d" % c, "embed.c", CMD=c, AGAIN=1, NN=4, cost=4, covers=["processed before"])); js.append(J("again-sub-c%d" % c, "embed.c", CMD=c, AGAIN=1, cost=4, covers=["processed before", "obstruction reused"], **subdivided(K5 if c in (0, 3, 5) else K4 if c != 2 else K23, 6, 5 if not d else 8, seed)))
        if c != 5: js.append(J("deleted-c%d" % c, "embed.c", CMD=c, ORDER=4, cost=4, covers=BOTH, **subdivided(K33 if c in (0, 3) else K4 if c != 2 else K23, 7, 8 if not d else 11, seed + 1)))
    return js
@prop("P09")
def p09(tier, seed):
    d = tier == "thorough"
    return [J("n3-ops4", "ops.c", NN=3, STEPS=5 if d else 4, DYN=0, covers=["insert", "delete"], cost=5), J("n4-pre5-ops3", "ops.c", NN=4, STEPS=4 if d else 3, PRE=5, DYN=0, covers=["insert", "delete"], cost=5),
            J("n3-cap2-ops4", "ops.c", NN=3, STEPS=4, CAP=4, DYN=0, covers=["full"])]
@prop("P10")
def p10(tier, seed):
    d = tier == "thorough"
    return [J("hide", "ops.c", NN=4, STEPS=4, PRE=5, MODE=1, DYN=0), J("hide-multi", "ops.c", NN=3, STEPS=6 if d else 5, PRE=6, MODE=1, DYN=0)] + ([J("hide-deep", "ops.c", NN=4, STEPS=6, PRE=5, MODE=1, DYN=0, cost=9), J("hide-n5", "ops.c", NN=5, STEPS=5, PRE=6, MODE=1, DYN=0, cost=9)] if d else [])
@prop("P12")
def p12(tier, seed):
    d = tier == "thorough"
    return [J("n4-cap2-ops4", "ops.c", NN=4, STEPS=5 if d else 4, CAP=2, DYN=1, covers=["grown", "ensured"], cost=9), J("n4-pre2-cap4", "ops.c", NN=4, STEPS=3, PRE=2, CAP=4, DYN=1, covers=["grown"]),
            J("n3-cap2-ops5", "ops.c", NN=3, STEPS=6 if d else 5, CAP=2, DYN=1, covers=["grown", "ensured"], cost=9), J("n3-pre4", "ops.c", NN=3, STEPS=4, PRE=4, CAP=8, DYN=1, covers=["delete", "ensured"])]
@prop("P11")
def p11(tier, seed): return ([J("n5-two", "contract.c", NN=5, STEPS=2, cube=4, cost=20, time=3000), J("n4-three", "contract.c", NN=4, STEPS=3, cube=3, cost=20, time=3000), J("n6-one", "contract.c", NN=6, STEPS=1, cube=4, cost=20, time=3000)] if tier == "thorough" else []) + [J("n4-one", "contract.c", NN=4, STEPS=1, covers=["hide vertex", "identify", "contract", "identify adjacent"]), J("n4-two", "contract.c", NN=4, STEPS=2, ORDER=2), J("n5-one", "contract.c", NN=5, STEPS=1, ORDER=3)]

def dfs_jobs(part, tier):
    js = [J("n5", "dfs.c", NN=5, PART=part, samples=8), J("n5-prepend", "dfs.c", NN=5, PART=part, ORDER=2), J("n5-mixed", "dfs.c", NN=5, PART=part, ORDER=3), J("n4-holes", "dfs.c", NN=4, PART=part, HOLES=1), J("n1", "dfs.c", NN=1, PART=part), J("n6", "dfs.c", NN=6, PART=part, cube=3, cost=5)]
    if tier == "thorough": js += [J("n7", "dfs.c", NN=7, PART=part, cube=6, cost=9), J("n5-holes", "dfs.c", NN=5, PART=part, HOLES=1)]
    return js
@prop("P14")
def p14(tier, seed): return dfs_jobs(14, tier)
@prop("P15")
def p15(tier, seed): return dfs_jobs(15, tier)
@prop("P16")
def p16(tier, seed): return dfs_jobs(16, tier)

def io_jobs(fmt, tier, seed):
    d = tier == "thorough"; js = []
    for via in (0, 1):
        v = ("file", "memory")[via]; h = "io.c"
        if d: js += [J("all-n6-%s" % v, h, FMT=fmt, VIA=via, NN=6, ORDER=3, cube=2, cost=9), J("all-n7-%s" % v, h, FMT=fmt, VIA=via, NN=7, ORDER=1, cube=5, cost=20), J("holes-n5-%s" % v, h, FMT=fmt, VIA=via, NN=5, ORDER=4, cost=9), J("dense-n11-%s" % v, h, FMT=fmt, VIA=via, cost=9, **family(11, 55, 9, seed)), J("mid-n30-%s" % v, h, FMT=fmt, VIA=via, ON=31, loop=100000, cost=9, **sparse(30, 9, seed))]
        if d and fmt == 1: js += [J("digraph-n4-" + v, h, FMT=1, VIA=via, NN=4, DIG=1, ZB=1, cube=2, cost=9)]
        js += [J("dense-n9-%s" % v, h, FMT=fmt, VIA=via, cost=5, **family(9, 36, 5, seed))]
        if fmt == 1:
            js += [J("list-n4-" + v, h, FMT=1, VIA=via, NN=4, ZB=1), J("list-n4-holes-" + v, h, FMT=1, VIA=via, NN=4, ORDER=4, ZB=1), J("list-n5-" + v, h, FMT=1, VIA=via, NN=5, ORDER=3, cost=6), J("digraph-n3-" + v, h, FMT=1, VIA=via, NN=3, DIG=1, ZB=1), J("list-n1-" + v, h, FMT=1, VIA=via, NN=1, ZB=1), J("list-n2-" + v, h, FMT=1, VIA=via, NN=2, ZB=1, DIG=1),
                   J("list-n11-" + v, h, FMT=1, VIA=via, ZB=1, cost=6, **sparse(11, 7, seed))]
        if fmt == 2: js += [J("matrix-n%d-%s" % (n, v), h, FMT=2, VIA=via, NN=n) for n in (1, 2, 3, 5)] + [J("matrix-n4-holes-" + v, h, FMT=2, VIA=via, NN=4, ORDER=4), J("matrix-n11-" + v, h, FMT=2, VIA=via, cost=6, **sparse(11, 7, seed)), J("matrix-digraph-" + v, h, FMT=2, VIA=via, NN=3, DIG=1, covers=["refused"])]
        if fmt == 4: js += [J("g6-n%d-%s" % (n, v), h, FMT=4, VIA=via, NN=n, HDR=n & 1) for n in (1, 2, 3, 4, 5, 6)] + [J("g6-n5-holes-" + v, h, FMT=4, VIA=via, NN=5, ORDER=4), J("g6-n11-" + v, h, FMT=4, VIA=via, cost=6, **sparse(11, 7, seed))]
        if fmt == 4: js += [J("g6-n%d-%s" % (n, v), h, FMT=4, VIA=via, ON=n + 1, HDR=n & 1, cost=5, loop=20000, **sparse(n, k, seed)) for n, k in ((62, 4), (63, 4), (64, 5), (67, 4))]
        if fmt == 4 and via: js += [J("g6-n%d" % n, "bigio.c", NN=n, EDGES="{1,2},{%d,%d},{3,%d},{%d,%d}" % (n - 1, n, n, n // 2, n // 3), loop=20000000, samples=1, time=800, cost=9) for n in (300, 1000, 4100)]
        if fmt == 1: js += [J("list-n%d-%s" % (n, v), h, FMT=1, VIA=via, ON=n + 1, ZB=1, cost=5, loop=20000, **sparse(n, 4, seed)) for n in (100, 101)]
        if fmt == 2: js += [J("matrix-n%d-%s" % (n, v), h, FMT=2, VIA=via, ON=n + 1, cost=5, loop=20000, **sparse(n, 4, seed)) for n in (61,)]
    return js
@prop("P17")
def p17(tier, seed): return io_jobs(1, tier, seed)
@prop("P18")
def p18(tier, seed): return io_jobs(2, tier, seed)
@prop("P19")
def p19(tier, seed): return io_jobs(4, tier, seed)
@prop("P20")
def p20(tier, seed):
    d = tier == "thorough"; h = "g6iter.c"; js = []
    for via in (0, 1):
        v = ("file", "memory")[via]
        js += [J("written-2xn4-" + v, h, SRC=0, VIA=via, NN=4, KG=2), J("written-3xn3-" + v, h, SRC=0, VIA=via, NN=3, KG=3), J("written-3xn8-" + v, h, SRC=0, VIA=via, KG=3, cost=3, **subdivided(K33, 8, 5, seed)),
               J("given-2xn4-" + v, h, SRC=1, VIA=via, NN=4, KG=2), J("given-3xn3-" + v, h, SRC=1, VIA=via, NN=3, KG=3), J("given-3xn2-" + v, h, SRC=1, VIA=via, NN=2, KG=3), J("given-2xn5-" + v, h, SRC=1, VIA=via, NN=5, KG=2, cost=4)]
        js += [J("%s-n%d-%s" % (("written", "given")[src], n, v), h, SRC=src, VIA=via, KG=2, ON=n + 1, loop=20000, cost=6, **sparse(n, 3, seed)) for src in (0, 1) for n in (63, 64)]
        if d: js += [J("given-4xn4-" + v, h, SRC=1, VIA=via, NN=4, KG=4, cube=2), J("written-4xn4-" + v, h, SRC=0, VIA=via, NN=4, KG=4, cube=2)]
    return js

def S(t): return '"' + "".join(c if 32 <= ord(c) < 127 and c not in '"\\' else "\\%03o" % ord(c) for c in t) + '"'
AR = ["accepted", "refused"]
@prop("P21")
def p21(tier, seed):
    d = tier == "thorough"; h = "text.c"; js = []
    def free(name, pre, n, alph, post="", covers=AR, via=2, lo=0, **kw): js.append(J("free-" + name, h, KIND=0, VIA=via, PRE=S(pre), LEN=n, LO=lo, ALPH=S(alph), POST=S(post), covers=covers, cost=5, **kw))
    def corrupt(name, base, nc, alph, via=2, **kw): js.append(J("corrupt-" + name, h, KIND=1, VIA=via, BASE=S(base), NC=nc, ALPH=S(alph), covers=AR, cost=6, **kw))
    AL = "0123 -:\nx"
    free("list", "N=", 3, "12 -:\nx", covers=["refused"]); free("list-huge", "N=", 9, "29", "\n", covers=["refused"], lo=8); free("matrix-huge", "", 9, "92", "\n1", covers=["refused"], lo=8)
    free("list-n1", "N=1\n", 5, "0127 -:+x\n"); free("list-n2", "N=2\n1:", 4, "0123 -+\n", "\n2: 0\n"); free("list-n3", "N=3\n1: 2 0\n2:", 4, "123 -", " 0\n3: 0\n")
    free("matrix-n2", "2\n", 3, "012 -\nx"); free("matrix-n3", "3\n", 5, "01 -\n")
    free("first", "", 3, "N=2>0LB \n")
    L1 = "N=3\n0: 1 2 -1\n1: 0 -1\n2: 1 -1\n"; L2 = "N=3\n1: 2 3 0\n2: 1 0\n3: 1 0\n"; M1 = "4\n110\n01\n1\n"; E1 = "LEDA.GRAPH\nstring\nint\n3\n|{a}|\n|{}|\n|{}|\n2\n1 2 0 |{}|\n2 3 0 |{}|\n"
    corrupt("list0", L1, 1, AL); corrupt("list1", L2, 1, AL); corrupt("list1-twice", "N=2\n1: 2 0\n2: 1 0\n", 2, "02 -:\n+"); corrupt("matrix", M1, 1, "013 -\nx"); corrupt("matrix-twice", "3\n01\n1\n", 2, "01x -\n"); corrupt("edgelist", E1, 1, "0139 -\n|", via=0); corrupt("edgelist-twice", "LEDA.GRAPH\n\n\n3\n||\n||\n||\n2\n1 2 0 ||\n3 1 0\n", 2, "02 -\n", via=0, time=800)
    if d: corrupt("list0-twice", L1, 2, "02 -:\n+"); corrupt("list1-3", "N=2\n1: 2 0\n2: 1 0\n", 3, "02 -\n"); corrupt("list3-twice", "N=3\n1: 3 0\n2: 3 0\n3: 1 0\n", 2, AL[:7])
    free("edgelist", "LEDA.GRAPH\nstring\nint\n2\n|{}|\n|{}|\n", 5, "0123 -\n", via=0)
    js.append(J("bytes-list", h, KIND=0, VIA=2, PRE=S("N=2\n1: "), LEN=2, LO=0, POST=S(" 0\n2: 0\n"), covers=AR, cost=5)); js.append(J("bytes-matrix", h, KIND=0, VIA=2, PRE=S("3\n01"), LEN=2, LO=0, covers=AR, cost=5))
    return js
@prop("P22")
def p22(tier, seed):
    d = tier == "thorough"; h = "text.c"; js = []
    for via in (0, 1):
        v = ("file", "memory")[via]
        js += [J("bytes-%s" % v, h, KIND=0, VIA=via, LEN=2, LO=0, G6=1, GN=3, PRE=S(""), covers=["valid", "invalid"], cost=4)]
        for n in (1, 2, 3, 4, 5):
            js.append(J("order%d-%s" % (n, v), h, KIND=0, VIA=via, PRE=S(chr(63 + n)), LEN=(n * (n - 1) // 2 + 5) // 6 + 1, LO=0, G6=1, GN=6, covers=["valid", "invalid"], cost=3))
        js.append(J("header-%s" % v, h, KIND=1, VIA=via, BASE=S(">>graph6<<Bw\n"), NC=1, G6=1, GN=8, covers=["valid", "invalid"], cost=6))
        js.append(J("header2-%s" % v, h, KIND=1, VIA=via, BASE=S(">>graph6<<CF"), NC=2, ALPH=S(">g6sC^?@\n"), G6=1, GN=8, covers=["valid", "invalid"], cost=6))
        for n, o in ((63, "~??~"), (65, "~?@@")):
            nc = (n * (n - 1) // 2 + 5) // 6; t = o + "?" * 5 + "G" + "?" * (nc - 9) + "C?_" + "\n"
            for part, lo, hi, al, c in (("head", 0, 5, "?@~>A}\n", ["valid", "invalid"]), ("tail", len(t) - 3, len(t) - 1, "?_~>@\n", ["valid", "invalid"])):
                js.append(J("order%d-%s-%s" % (n, part, v), h, KIND=1, VIA=via, BASE=S(t), NC=1, ALO=lo, AHI=hi, ALPH=S(al), G6=1, GN=n, ON=n + 1, loop=20000, covers=c, cost=8))
        js.append(J("longorder-%s" % v, h, KIND=0, VIA=via, PRE=S("~"), LEN=4, LO=0, ALPH=S("?@~>\n"), covers=["refused"], cost=4))
        js.append(J("corrupt-n5-%s" % v, h, KIND=1, VIA=via, BASE=S("DQc\n"), NC=2, ALPH=S("DQc?^\x7f>@\n\r"), G6=1, GN=6, covers=["valid", "invalid"], cost=4))
    for via in (3, 4):
        v = ("memory", "file")[via - 3]
        js += [J("stream-%s" % v, h, KIND=1, VIA=via, BASE=S("Bw\nBW\nBo\n"), NC=2 if d else 1, ALPH=S("BCw?~>:&\n\r"), covers=AR, cost=4), J("stream-bytes-%s" % v, h, KIND=1, VIA=via, BASE=S("Bw\nBW"), NC=1, covers=AR, cost=4), J("stream-free-%s" % v, h, KIND=0, VIA=via, PRE=S("A_\n"), LEN=5 if d else 4, LO=0, ALPH=S("A_?~\n\r&"), covers=AR, cost=4)]
    return js

@prop("P13")
def p13(tier, seed):
    d = tier == "thorough"; h = "copy.c"; js = []; F = ["freed", "deleted", "emptied"]
    k = 5 if not d else 9
    fam = {0: planted(K5, 6, 3, seed), 2: subdivided(K23, 6, k, seed), 3: subdivided(K33, 6, k, seed), 4: subdivided(K4, 5, k, seed), 5: subdivided(K5, 5, k, seed)}
    js += [J("dup-n4", h, KIND=0, NN=4, ORDER=4, covers=F + ["added", "embedded"]), J("dup-digraph", h, KIND=0, NN=4, DIRS=1), J("dup-embedded", h, KIND=0, NN=5, STATE=1, covers=F, cost=3), J("dup-sorted", h, KIND=0, NN=5, STATE=2, cost=3)]
    for c, e in ((2, "2"), (3, "3"), (4, "4"), (5, "5"), (3, "5,3"), (4, "4,2"), (0, "2,3,4,5"), (5, "3,5,4")):
        f = fam[c]; o = 0 if "5" in e or "3" in e or "4" in e else 4
        js.append(J("dup-ext" + e.replace(",", ""), h, KIND=0, CMD=c, EXT=e, ORDER=o, covers=F + ["detached", "embedded"], cost=4, **f))
        js.append(J("copy-ext" + e.replace(",", ""), h, KIND=1, CMD=c, EXT=e, DEXT=(5, 2, 3, 4)[c % 4], DCAP=60, covers=F + ["detached", "history"], cost=4, **f))
    js += [J("copy-n4", h, KIND=1, NN=4, ORDER=4, covers=F + ["history"]), J("copy-n4-roomy", h, KIND=1, NN=4, DCAP=48, covers=F + ["history"]), J("copy-tight", h, KIND=1, NN=4, SCAP=2, covers=["history"]), J("lists-tight", h, KIND=2, NN=4, SCAP=2), J("copy-grown", h, KIND=1, NN=4, SCAP=44, DEXT=2), J("copy-embedded", h, KIND=1, NN=5, STATE=1, cost=3), J("dup-drawn", h, KIND=0, NN=4, STATE=3, EXT=5), J("copy-drawn", h, KIND=1, NN=4, STATE=3, EXT="5", DCAP=60, DEXT=4),
           J("lists-n4", h, KIND=2, NN=4, ORDER=4, covers=F + ["history"]), J("lists-grown", h, KIND=2, NN=4, SCAP=44, DEXT=2), J("lists-ext", h, KIND=2, CMD=3, EXT=3, DEXT="3,5", **fam[3]),
           J("refused-order", h, KIND=3, NN=4, DN=5), J("refused-order-ext", h, KIND=3, NN=4, DN=3, EXT="3", DEXT="5"), J("refused-growth", h, KIND=3, NN=4, DN=4, SCAP=44, DEXT="3")]
    return js

@prop("P24")
def p24(tier, seed):
    d = tier == "thorough"; h = "ext.c"; C = ["again", "removed", "emptied", "duplicated", "grown"]
    return [J("steps3-n3", h, STEPS=5 if d else 4, NN=4, covers=["again", "removed"], cost=3), J("steps4-n2", h, STEPS=7 if d else 6, NN=2, covers=C, cost=5),
            J("steps4-k33", h, STEPS=4, covers=["nonembeddable"], cost=5, **subdivided(K33, 6, 4, seed)), J("steps4-k5", h, STEPS=4, covers=["nonembeddable"], cost=5, **subdivided(K5, 5, 4, seed)), J("removals-n2", h, STEPS=8 if d else 7, OPLO=1, OPHI=2, NN=2, covers=["removed"], cost=5)]

@prop("P23")
def p23(tier, seed):
    d = tier == "thorough"; h = "nomem.c"; js = []; C = ["reported", "enough memory"]; n = 4 if not d else 5
    def add(name, sc, covers=C, **kw): js.append(J(name, h, SC=sc, covers=covers, cost=3, **kw))
    for c, e in ((0, 0), (2, 3), (3, 4), (4, 5), (5, 2), (3, 5)): add("new-ext%d-%d" % (c, e), 0, EXTC=c, EXTD=e, NN=4)
    for c, e in ((0, 0), (2, 0), (3, 5), (4, 2), (5, 4)): add("dup-ext%d-%d" % (c, e), 1, EXTC=c, EXTD=e, NN=n)
    for c, e in ((0, 0), (2, 5), (3, 4), (4, 3), (5, 2)): add("copy-ext%d-%d" % (c, e), 2, covers=C if c else ["enough memory"], EXTC=c, EXTD=e, NN=n)
    add("copy-roomy", 2, EXTC=5, EXTD=2, DCAP=60, NN=n); add("copy-tight", 2, EXTC=0, EXTD=0, DCAP=4, NN=n)
    for c in (0, 2): add("grow-ext%d" % c, 3, EXTC=c, NN=4)
    for c in (0, 1, 2, 3, 4, 5): add("embed-c%d" % c, 4, covers=["enough memory"], EXTC=c, NN=n)
    for f in (1, 2, 4): add("read-f%d" % f, 5, FMT=f, NN=3); add("write-f%d" % f, 6, FMT=f, NN=3)
    add("read-f1-draw", 5, FMT=1, EXTC=5, NN=3)
    add("draw", 7, NN=3); add("g6-read-iterator", 8, NN=3); add("g6-write-iterator", 9, NN=3)
    K = dict(app=1, FAILS=80, covers=["failed", "completed"], cost=4); hc = "nomemcli.c"; full = subdivided(K5, 5, 3, seed)
    for c in range(6):
        l = "po234d"[c]; f = dict(NN=4) if d else subdivided((K5, K23, K23, K33, K4, K4)[c], (5, 5, 5, 6, 4, 4)[c], 3, seed)
        js += [J("command-s-%s" % l, hc, ACT=0, CMD=c, **K, **f), J("command-t-%s" % l, hc, ACT=1, CMD=c, **K, **f), J("specific-%s" % l, hc, ACT=5, CMD=c, **K, **f), J("all-%s" % l, hc, ACT=6, CMD=c, **K, **f), J("command-r-%s" % l, hc, ACT=4, CMD=c, NN=4, FREE="{1,2}", **K)]
    for o in (1, 2, 4): js += [J("command-x-%d" % o, hc, ACT=2, OFMT=o, NN=3, **K), J("transform-%d" % o, hc, ACT=7, OFMT=o, NN=3, **K)]
    js.append(J("command-rm", hc, ACT=3, NN=5, FREE="{1,2}", **K))
    return js

@prop("P26")
def p26(tier, seed):
    d = tier == "thorough"; h = "models.c"; js = []
    for g in (0, 1):
        v = ("", "-checked")[g]; k = dict(DBG=1) if g else {}
        js += [J("stack" + v, h, KIND=0, STEPS=6 if d else 5, covers=["copied"] + (["full", "empty"] if g else []), cost=4, **k), J("lists-n4" + v, h, KIND=1, STEPS=6 if d else 5, NODES=4, covers=["append", "prepend", "insert after", "insert before", "delete"], cost=4, **k)]
    js += [J("text", h, KIND=2, STEPS=5 if d else 4, covers=["integer", "copied", "taken"], cost=5)]
    if d: js += [J("lists-n5-deep", h, KIND=1, STEPS=6, NODES=5, DBG=1, cost=9), J("stack-deep", h, KIND=0, STEPS=7, DBG=1, cost=9), J("text-deep", h, KIND=2, STEPS=6, cost=9)]
    return js

@prop("P29")
def p29(tier, seed):
    d = tier == "thorough"; h = "digr.c"; C = ["directed", "turned round", "deleted", "hidden", "duplicated"]
    return [J("n3-pre3", h, NN=3, PRE=3, STEPS=4 if d else 3, covers=C, cost=5), J("n3-cap4", h, NN=3, CAP=4, PRE=1, STEPS=5 if d else 4, covers=C + ["full", "grown"], cost=5), J("n4-pre6", h, NN=4, PRE=6, STEPS=3 if d else 2, covers=C, cost=4)]

@prop("P25")
def p25(tier, seed):
    d = tier == "thorough"; h = "random.c"; js = [J("range-%d" % i, h, KIND=2, NN=7, LOV=lo, HIV=hi) for i, (lo, hi) in enumerate([(1, 11), (3, 2), (5, 260)])]
    js += [J("any-n%d" % n, h, KIND=0, NN=n, SYM=s, REUSE=1 if n == 4 else 0, covers=["complete", "tree"] if n < 5 else []) for n, s in ((1, 2), (2, 4), (3, 6), (4, 8 if d else 6), (5, 8 if d else 7))]
    js += [J("any-tight-n4", h, KIND=0, NN=4, SYM=6, REUSE=0, CAP=c) for c in (4, 6, 8)]
    js += [J("planar-n%d" % n, h, KIND=1, NN=n, SYM=s, LO=0, HI=3 * n + 1, REUSE=1 if n == 4 else 0, covers=["sparse", "triangulation", "extra"] if n > 4 else []) for n, s in ((1, 2), (2, 3), (3, 5), (4, 6), (5, 7 if d else 6))]
    js += [J("triangulation-n6", h, KIND=1, NN=6, SYM=6, LO=12, HI=13, REUSE=0, covers=["triangulation", "extra"], cost=4), J("triangulation-n7", h, KIND=1, NN=7, SYM=6, RMAX=7, LO=15, HI=15, REUSE=0, covers=["triangulation"], cost=4), J("planar-tight-n5", h, KIND=1, NN=5, SYM=6, LO=3, HI=12, CAP=12, REUSE=0)]
    return js

@prop("P27")
def p27(tier, seed):
    d = tier == "thorough"; h = "cli.c"; js = [J("invocations", h, app=1, ACT=3, CMD=0, NN=2, IFMT=1, covers=["proper", "refused"]), J("long-names", h, app=1, ACT=5, CMD=0, NN=2, IFMT=1, covers=["no input", "proper name", "no output"])]
    fams = {0: [dict(NN=4), subdivided(K5, 5, 6, seed), subdivided(K33, 7, 5, seed)], 1: [dict(NN=4), subdivided(K23, 6, 6, seed)], 2: [dict(NN=4), subdivided(K23, 6, 6, seed)], 3: [dict(NN=4), subdivided(K33, 7, 6, seed)], 4: [dict(NN=4), subdivided(K4, 6, 6, seed)], 5: [dict(NN=4), subdivided(K5, 5, 5, seed)]}
    for c in range(6):
        for i, f in enumerate(fams[c]):
            cv = ([] if c in (2, 3, 4) else ["embedding"]) + (["drawing"] if c == 5 else []) + (["refused"] if i else []) + (["obstruction"] if i and c != 5 else [])
            js.append(J("s-%s-%d" % ("po234d"[c], i), h, app=1, ACT=0, CMD=c, IFMT=(1, 4, 2)[(c + i) % 3], covers=cv, cost=3, **f))
            js.append(J("mem-%s-%d" % ("po234d"[c], i), h, app=1, ACT=2, CMD=c, IFMT=(2, 1, 4)[(c + i) % 3], covers=cv, cost=3, **f))
    for i, f in enumerate(fams[0]): js.append(J("legacy-%d" % i, h, app=1, ACT=1, CMD=0, IFMT=(1, 2, 4)[i], covers=["embedding"] + (["obstruction"] if i else []), cost=2, **f))
    for z in (0, 1): js.append(J("s-zerobased-%d" % z, h, app=1, ACT=0, CMD=z, IFMT=1, ZB=1, NN=4, covers=["embedding"]))
    if d:
        for c in range(6):
            f = {0: triangulated(9, 40, 9, seed), 1: triangulated(9, 40, 9, seed, True), 2: subdivided(K23, 8, 9, seed), 3: subdivided(K33, 9, 9, seed), 4: subdivided(K4, 8, 9, seed), 5: triangulated(9, 40, 8, seed)}[c]
            js += [J("deep-s-%s-%d" % ("po234d"[c], i), h, app=1, ACT=a, CMD=c, IFMT=i, cost=9, loop=20000, **f) for i, a in ((1, 0), (2, 2), (4, 0))]
            js += [J("all-s-%s" % "po234d"[c], h, app=1, ACT=0, CMD=c, IFMT=(1, 4, 2)[c % 3], NN=6, cube=5, cost=20, loop=20000)]
    return js

@prop("P28")
def p28(tier, seed):
    d = tier == "thorough"; h = "batch.c"; js = []
    fams = {0: [subdivided(K5, 5, 5, seed)], 1: [subdivided(K23, 5, 5, seed)], 2: [subdivided(K23, 5, 5, seed)], 3: [subdivided(K33, 6, 5, seed)], 4: [subdivided(K4, 5, 5, seed)], 5: [subdivided(K33, 6, 5, seed)]}
    for c in range(6):
        l = "po234d"[c]
        for f in fams[c]: js += [J("t-%s" % l, h, app=1, ACT=0, CMD=c, KG=2, covers=["counted", "mixed"], cost=3, **f), J("t-%s-memory" % l, h, app=1, ACT=3, CMD=c, KG=2, covers=["counted", "mixed"], cost=3, **f)]
        js += [J("t-%s-n1" % l, h, app=1, ACT=0, CMD=c, KG=2, NN=1), J("t-%s-n2" % l, h, app=1, ACT=0, CMD=c, KG=3, NN=2), J("t-%s-n3" % l, h, app=1, ACT=0, CMD=c, KG=4 if d else 3, NN=3, cost=2), J("t-%s-n4" % l, h, app=1, ACT=3, CMD=c, KG=2, NN=4, cost=2)]
        js += [J("t-%s-bad%d" % (l, b), h, app=1, ACT=(0, 3)[b & 1], CMD=c, KG=3, NN=3, BADAT=b, covers=["broken"]) for b in (range(3) if d or c == 0 else [1 + c % 2])]
    for i in (1, 2, 4):
        for o in (1, 2, 4):
            for a in (1, 2): js += [J("x-%d-%d-%s" % (i, o, ("", "file", "memory")[a]), h, app=1, ACT=a, IFMT=i, OFMT=o, NN=5 if o != 1 else 4, covers=["transformed"], cost=2)]
    js += [J("x-zb-%d" % o, h, app=1, ACT=1 + (o == 2), IFMT=1, OFMT=o, NN=4, ZB=1, covers=["transformed"]) for o in (1, 2, 4)] + [J("x-n%d-%d-%d" % (n, i, o), h, app=1, ACT=1, IFMT=i, OFMT=o, NN=n, covers=["transformed"]) for n, i, o in ((1, 1, 4), (1, 4, 2), (2, 2, 1), (3, 4, 1))]
    js.append(J("x-refused", h, app=1, ACT=6, IFMT=1, OFMT=1, NN=2, covers=["transformed", "refused"]))
    js += [J("x-n11-%d-%d" % (i, o), h, app=1, ACT=1, IFMT=i, OFMT=o, covers=["transformed"], cost=3, **sparse(11, 7, seed)) for i, o in ((1, 4), (4, 1), (2, 1), (1, 2))]
    if d:
        for c in range(6): js += [J("deep-t-%s" % "po234d"[c], h, app=1, ACT=(0, 3)[c & 1], CMD=c, KG=3, cost=9, cube=3, loop=20000, **subdivided({0: K5, 1: K23, 2: K23, 3: K33, 4: K4, 5: K33}[c], 7, 6, seed))]
        js += [J("deep-x-%d-%d" % (i, o), h, app=1, ACT=1 + (i == o), IFMT=i, OFMT=o, NN=6, cube=3, cost=9, loop=20000) for i in (1, 2, 4) for o in (1, 2, 4)]
    return js

@prop("P30")
def p30(tier, seed):
    d = tier == "thorough"; h = "drawio.c"; js = []
    for via in (0, 1):
        v = ("file", "memory")[via]
        js += [J("drawn-n4-" + v, h, SRC=0, VIA=via, NN=4, ORDER=1, covers=["drawn"]), J("drawn-n5-" + v, h, SRC=0, VIA=via, NN=5, ORDER=2 + via, covers=["drawn"], cost=3), J("drawn-zb-" + v, h, SRC=0, VIA=via, NN=4, ZB=1, covers=["drawn"]), J("drawn-n1-" + v, h, SRC=0, VIA=via, NN=1), J("drawn-n2-" + v, h, SRC=0, VIA=via, NN=2)]
        js += [J("drawn-matrix-n4-" + v, h, SRC=0, VIA=via, NN=4, ORDER=1, DFMT="WRITE_ADJMATRIX", covers=["drawn"]), J("drawn-matrix-n5-" + v, h, SRC=0, VIA=via, NN=5, ORDER=3 - via, DFMT="WRITE_ADJMATRIX", covers=["drawn"], cost=3)]
        js += [J("plain-%d-%s" % (f, v), h, SRC=1, VIA=via, FMT=f, NN=4, covers=["read"]) for f in (1, 2, 4)]
        if d: js += [J("drawn-all-n6-" + v, h, SRC=0, VIA=via, NN=6, cube=3, ORDER=3 * via, cost=20), J("drawn-n9-" + v, h, SRC=0, VIA=via, cost=9, loop=20000, **triangulated(9, 40, 9, seed))] + [J("plain-n5-%d-%s" % (f, v), h, SRC=1, VIA=via, FMT=f, NN=5, cost=9) for f in (1, 2, 4)]
    return js

@prop("P31")
def p31(tier, seed):
    d = tier == "thorough"; h = "selftest.c"; js = []; C = ["equal", "different"]
    js += [J(n, h, app=1, KIND=k, LEN=(7 if d else 6) if k < 3 else 8, covers=C if k < 3 else ["read"], cost=3) for k, n in enumerate(("file-string", "files", "binary-files", "file-to-string"))]
    fams = {"p": subdivided(K5, 5, 4, seed), "o": dict(NN=4), "2": subdivided(K23, 5, 4, seed), "3": subdivided(K33, 6, 4, seed), "4": dict(NN=4), "d": dict(NN=4)}
    for w in "po234d": js.append(J("algorithm-%s" % w, h, app=1, KIND=4, ZB=1 if w in "o3" else 0, WHAT=ord(w), covers=["success", "failure"], cost=4, **fams[w]))
    for z in (0, 1):
        for w in "amg": js.append(J("transform-%s-%d" % (w, z), h, app=1, KIND=5, ZB=z, WHAT=ord(w), NN=4, covers=["success", "failure"], cost=2))
    if d:
        for w, f in (("p", subdivided(K33, 7, 8, seed)), ("o", subdivided(K23, 7, 8, seed)), ("2", subdivided(K23, 7, 8, seed)), ("3", subdivided(K33, 7, 8, seed)), ("4", subdivided(K4, 7, 8, seed)), ("d", triangulated(7, 40, 6, seed))): js.append(J("deep-algorithm-%s" % w, h, app=1, KIND=4, ZB=0, WHAT=ord(w), cost=9, loop=20000, **f))
        for w in "amg": js.append(J("deep-transform-%s" % w, h, app=1, KIND=5, ZB=0, WHAT=ord(w), NN=5, cost=9, loop=20000))
    return js

@prop("P32")
def p32(tier, seed):
    d = tier == "thorough"; h = "randcmd.c"; js = []
    for a, w in ((0, "rm"), (1, "rn")):
        js += [J("%s-n%d" % (w, n), h, app=1, ACT=a, NN=n, SYM=s, covers=["obstruction" if a and n > 4 else "embedding", "edge list"], cost=3) for n, s in ((1, 2), (2, 2), (3, 4), (4, 5), (5, 7 if d else 6), (6, 7 if d else 5))]
    for c in range(6):
        l = "po234d"[c]; js += [J("r-%s" % l, h, app=1, ACT=2, CMD=c, NN=5, SYM=6, KG=1, covers=["statistics"], cost=3), J("menu-r-%s" % l, h, app=1, loop=20000, ACT=3, CMD=c, NN=5, SYM=5, KG=1, covers=["statistics"] + ["embedding" if c in (0, 1, 5) else "searched"], cost=4), J("r-%s-two" % l, h, app=1, ACT=2, CMD=c, NN=4, SYM=4, KG=2, covers=["statistics"], cost=3)]
        js += [J("r-%s-n%d" % (l, n), h, app=1, ACT=2, CMD=c, NN=n, SYM=3, KG=2) for n in (1, 2, 3)]
    js += [J("menu-mn-%s-n%d" % ("po234d"[c], n), h, app=1, ACT=4, CMD=c, NN=n, SYM=4, loop=20000, cost=3, covers=["edge list"]) for c in range(6) for n in (3, 5, 6)]
    js += [J("r-p-n6", h, app=1, ACT=2, CMD=0, NN=6, SYM=7, KG=1, covers=["statistics", "kind of minor E"], cost=8), J("r-p-n7", h, app=1, ACT=2, CMD=0, NN=7, SYM=6, KG=1, covers=["statistics"], cost=5)]
    return js

@prop("P33")
def p33(tier, seed):
    d = tier == "thorough"; js = []
    fams = [dict(NN=4), dict(NN=4), dict(NN=4), subdivided(K33, 6, 5, seed), dict(NN=4), subdivided(K5, 5, 5, seed)]
    for c in range(6):
        l = "po234d"[c]
        js.append(J("menu-%s" % l, "cli.c", app=1, ACT=4, CMD=c, IFMT=(1, 4, 2)[c % 3], cost=3, **fams[c]))
        js.append(J("menu-t-%s" % l, "batch.c", app=1, ACT=4, CMD=c, KG=2, cost=2, NN=3))
    js += [J("menu-t-bad", "batch.c", app=1, ACT=4, CMD=0, KG=2, NN=3, BADAT=1)] + [J("menu-x-%d-%d" % (i, o), "batch.c", app=1, ACT=5, IFMT=i, OFMT=o, NN=3) for i in (1, 2, 4) for o in (1, 2, 4)]
    if d:
        for c in range(6): js += [J("deep-menu-%s" % "po234d"[c], "cli.c", app=1, ACT=4, CMD=c, IFMT=(4, 2, 1)[c % 3], cost=9, loop=20000, **subdivided({0: K5, 1: K23, 2: K23, 3: K33, 4: K4, 5: K33}[c], 7, 7, seed)), J("deep-menu-t-%s" % "po234d"[c], "batch.c", app=1, ACT=4, CMD=c, KG=2, cost=9, NN=4, loop=20000)]
        js += [J("deep-menu-x-%d-%d" % (i, o), "batch.c", app=1, ACT=5, IFMT=i, OFMT=o, NN=4, cost=9, loop=20000) for i in (1, 2, 4) for o in (1, 2, 4)]
    return js

@prop("P34")
def p34(tier, seed):
    d = tier == "thorough"; h = "leda.c"; js = [J("n%d" % n, h, KIND=0, NN=n, MM=m, covers=["read", "simplified"], cost=2) for n, m in ((1, 3), (2, 5), (3, 5), (4, 6 if d else 5), (5, 5 if d else 4), (12, 2))]
    full9 = es([(i, j) for i in range(1, 10) for j in range(i + 1, 10) if (i, j) not in ((1, 2), (4, 9))])
    js += [J("refused-n%d" % n, h, KIND=1, NN=n, MM=m, covers=["read", "refused"], cost=2) for n, m in ((1, 2), (3, 4 if d else 3), (12, 2))]
    js += [J("dense-n9", h, KIND=0, NN=9, MM=2, FIXED=full9, covers=["read", "simplified"]), J("memory", h, KIND=2, NN=3, MM=2, covers=["refused"]), J("with-k33", h, KIND=0, NN=6, MM=2, EXT=1, FIXED=es([(1, 4), (1, 5), (1, 6), (2, 4), (2, 5), (2, 6), (3, 4)]), covers=["read"])]
    if d: js += [J("deep-n6", h, KIND=0, NN=6, MM=5, cost=9, loop=20000), J("deep-n3", h, KIND=0, NN=3, MM=6, cost=9, loop=20000), J("deep-refused-n4", h, KIND=1, NN=4, MM=4, cost=9, loop=20000)]
    return js

@prop("P35")
def p35(tier, seed):
    d = tier == "thorough"; h = "stdio.c"; js = []; n = 4
    for f, hi in ((1, 40), (2, 14), (4, 14), (5, 60)):
        js.append(J("read-f%d" % f, h, KIND=0, FMT=f, NN=n, ALO=0, AHI=hi, covers=["read", "refused"], cost=2, app=1))
    js += [J("read-drawing", h, KIND=0, FMT=1, XD=1, NN=3, ALO=16, AHI=90, covers=["read"], cost=2, app=1)]
    for f in (1, 2, 3, 4): js.append(J("write-f%d" % f, h, KIND=1, FMT=f, NN=n, loop=20000, covers=["twice"], app=1))
    js += [J("write-zb", h, KIND=1, FMT=1, ZB=1, NN=n, loop=20000, app=1), J("write-drawing", h, KIND=1, FMT=1, XD=1, NN=n, loop=20000, app=1), J("write-rendition", h, KIND=1, FMT=1, XD=2, NN=n, loop=20000, app=1)]
    fams = {0: subdivided(K5, 5, 4, seed), 1: subdivided(K23, 5, 4, seed), 2: subdivided(K23, 5, 4, seed), 3: subdivided(K33, 6, 4, seed), 4: subdivided(K4, 5, 4, seed), 5: subdivided(K5, 5, 4, seed)}
    for c in range(6): js.append(J("command-%s" % "po234d"[c], h, KIND=2, CMD=c, FMT=(1, 4, 2)[c % 3], loop=20000, app=1, covers=["accepted", "refused"], cost=2, **fams[c]))
    if d: js += [J("deep-read-f%d" % f, h, KIND=0, FMT=f, NN=4 if f == 5 else 5, ALO=0, AHI=hi, cost=9, app=1, loop=20000) for f, hi in ((1, 60), (2, 20), (4, 14), (5, 120))] + [J("deep-write-f%d" % f, h, KIND=1, FMT=f, NN=5, cost=9, loop=100000, app=1) for f in (1, 2, 3, 4)]
    return js

# ---------------------------------------------------------------- the Python test support (checks/pyrun.py)
PY = dict(P36="graphs of more than 4 vertices or 4 edges in the deletion analysis; more than two graphs per file; degree sequences of more than 7 (thorough: 9) vertices",
          P37="files of more than 3 (thorough: 4) lines; encodings of more than one character", P38="more than 4 result files; orders other than 6")
for pid_, out_ in PY.items(): PROPS[pid_] = dict(py=True, outside=out_, fn=lambda tier, seed: [])
