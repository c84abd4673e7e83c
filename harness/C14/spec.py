import numpy as np, vx
def gain(x):
    n, F, g0 = int(x.p[0]), int(x.p[1]), float(x.p[2])
    w = .25 * np.cos(np.pi * np.arange(1024) / 1023.) + .75
    g = [g0] * n
    r = {}
    for f in range(F):
        M = []
        for c in range(n):
            e, exc = x.p[3 + 2 * (f * n + c)], x.p[4 + 2 * (f * n + c)]
            M.append((np.full(1024, 2.0 ** e) if exc and e else w ** -e) / g[c])
            g[c] *= 2.0 ** -e
        M = np.concatenate(M)
        r[f] = (x.vec(f) * M, 1e-4 * max(1, M.max()))
        r[100 + f] = ([0], .5)
    return r
def amb(x):
    nc, lo, fl, ps = (int(v) for v in x.p[:4])
    ch = [int(v) for v in x.p[4:4 + nc]]
    A = np.array(x.p[4 + nc:], dtype=float).reshape(lo, lo) if lo else None
    s, old = x.vec(0), x.vec(1)
    M, O = np.zeros((nc * fl, 16 * fl)), np.zeros((nc * fl, nc * fl))
    I = np.eye(fl)
    for c in range(nc):
        if c >= lo:
            if ch[c] >= 0: M[c * fl:(c + 1) * fl, ch[c] * fl:(ch[c] + 1) * fl] = I
        elif ps: O[c * fl:(c + 1) * fl, c * fl:(c + 1) * fl] = I
        else:
            for k in range(lo):
                if ch[k] >= 0: M[c * fl:(c + 1) * fl, ch[k] * fl:(ch[k] + 1) * fl] += I * A[c, k]
    return {0: (M @ s + O @ old, 1e-4), 2: ([0], .5)}
def clear(x):
    n, fl, v, d = (int(a) for a in x.p[:4])
    keep = set(x.p[4:4 + v + d])
    m = np.array([1.0 if c >= n or c + 1 in keep else 0.0 for c in range(16)]).repeat(fl)
    return {0: (x.vec(0) * m, 1e-6), 1: ([0], .5)}
V = []
def g(name, n, g0, fr): V.append(dict(name=name, entry="h_gain", params=tuple([n, len(fr), g0] + [v for f in fr for c in f for v in c]), spec=gain, bounds="every signal of %d channels over %d frames of 1024" % (n, len(fr))))
g("gain_none_down_up", 2, 1.0, [[(0, 0), (-1, 0)], [(-1, 0), (1, 0)], [(1, 0), (0, 1)]])
for e in range(1, 7): g("gain_up_%d" % e, 1, 0.5, [[(e, 0)], [(0, 0)], [(-1, 0)]])
g("gain_up_8", 1, 2.0, [[(8, 0)], [(0, 0)], [(-1, 0)]])
g("gain_up_12_then_7", 1, 64.0, [[(12, 0)], [(7, 0)], [(0, 0)]])
g("gain_exceptions", 2, 4.0, [[(3, 1), (-1, 1)], [(0, 1), (9, 1)], [(-1, 0), (2, 0)]])
rng = np.random.RandomState(5)
def a(name, nc, lo, fl, ps, ch): V.append(dict(name=name, entry="h_amb", params=tuple([nc, lo, fl, ps] + ch + [round(float(t), 3) for t in rng.uniform(-1, 1, lo * lo)]), spec=amb, bounds="every frame of %d transport channels of %d samples, arbitrary fixed matrix" % (16, fl)))
a("ambient_order1_all", 4, 4, 16, 0, [3, 1, 0, 2])
a("ambient_order1_some", 4, 4, 16, 0, [3, -1, 0, -1])
a("ambient_order2", 9, 4, 16, 0, [5, 6, 7, 8, -1, 0, -1, 3, 1])
a("ambient_order3", 16, 9, 16, 0, [7, 8, 9, 10, 11, 12, 13, 14, 15, -1, 0, -1, 3, -1, 1, 2])
a("ambient_order3_nomatrix", 16, 0, 16, 0, [7, 8, 9, 10, -1, 12, 13, -1, 15, 11, 0, -1, 3, -1, 1, 2])
for nm, n, v, d in (("two_vectors", 5, [2, 5], []), ("mixed", 6, [4], [1, 6]), ("none", 4, [], []), ("dirs", 8, [], [3, 7, 8])):
    V.append(dict(name="kept_" + nm, entry="h_clear", params=tuple([n, 16, len(v), len(d)] + v + d), spec=clear, bounds="every frame"))
def extra(ctx):
    return vx.run(ctx, ["impeghd_hoa_inverse_dyn_correction.c", "impeghd_hoa_amb_syn.c", "impeghd_hoa_ch_reassignment.c"], V)
QUERIES = []
ASSUMPTIONS = ["real arithmetic; rounding is covered by the tolerance"]
