import numpy as np, vx
def pre(x):
    p = [int(v) for v in x.p]
    P = lambda: p.pop(0)
    nc, fl, ip, vs, cv, ps, nf = (P() for _ in range(7))
    i = np.arange(fl)
    din, vin = (i + 1.) / (fl + 1), np.where(i < ip, (i + .5) / ip, 1.)
    dout, vout = 1 - din, 1 - vin
    grid = lambda d, c: ((d * 13 + c * 5) % 17 - 8) / 8.
    mode = lambda c, g: ((c * 3 + g * 7) % 13 - 6) / 8.
    pvec, pset, pdir, ppred = [], set(), {}, []
    r = {}
    for f in range(nf):
        T = lambda: np.zeros((nc, fl, 6, fl))  # output coefficient and sample <- channel and sample
        def add(M, c, ch, w):
            n = len(w)
            M[c, range(n), ch - 1, range(n)] += w
        dirs = [(P(), P()) for _ in range(P())]
        vec = [P() for _ in range(P())]
        vec = [(k, [((k * 7 + f * 5 + j * 3) % 11 - 5) / 4. for j in range(nc - vs)]) for k in vec]
        en, dis, non = ([P() for _ in range(P())] for _ in range(3))
        pred = []
        for g in range(nc):
            if P(): pred.append((g, [(P(), P()) for _ in range(ps)]))
        cset = {d[0] for d in dirs} | {v[0] for v in vec}
        M = T()
        for k, v in pvec:
            if k in cset:
                w = vout[:ip] if k in [t[0] for t in vec] else dout
                for c in range(vs, nc): add(M, c, k, v[c - vs] * w)
        for k, v in vec:
            for c in range(vs, nc): add(M, c, k, v[c - vs] * (vin if k in pset else np.ones(fl)))
        if cv == 1:
            for e in en: M[e - 1] *= dout[:, None, None]
            for e in dis: M[e - 1] *= din[:, None, None]
        pvec = [(k, [0 if cv == 1 and c + 1 in en else v[c - vs] for c in range(vs, nc)]) for k, v in vec]
        D = T()
        cdir = dict(dirs)
        for k, d in pdir.items():
            if not d: continue
            w = np.ones(fl)
            if k in cdir: w = dout if cdir[k] else w
            elif k in cset: w = vout
            for c in range(nc): add(D, c, k, grid(d - 1, c) * w)
        for k, d in dirs:
            if not d: continue
            w = np.ones(fl)
            if k in pdir: w = din if pdir[k] else w
            elif k in pset: w = din
            for c in range(nc): add(D, c, k, grid(d - 1, c) * w)
        Q = T()
        for pr, w in ((ppred, dout), (pred, din)):
            for g, l in pr:
                for k, q in l:
                    if not k: break
                    for c in range(nc): add(Q, c, k, mode(c, g) * w * (q + .5) / 8.)
        for e in non: Q[e - 1] = 0
        if pred:
            for e in en: Q[e - 1] *= dout[:, None, None]
        if ppred:
            for e in dis: Q[e - 1] *= din[:, None, None]
        pset, pdir, ppred = cset, cdir, pred
        r[f] = ((M + D + Q).reshape(nc * fl, 6 * fl) @ x.vec(2 * f) + x.vec(2 * f + 1), 1e-4)
        r[100 + f] = ([0], .5)
    return r
V = []
def fr(dirs=(), vec=(), en=(), dis=(), non=(), pred=None, nc=4):
    o = [len(dirs)] + [v for d in dirs for v in d] + [len(vec)] + list(vec)
    for l in (en, dis, non): o += [len(l)] + list(l)
    for g in range(nc):
        o += [1] + [v for t in pred[g] for v in t] if pred and g in pred else [0]
    return o
def s(name, frames, nc=4, fl=8, ip=4, vs=0, cv=0, ps=2):
    V.append(dict(name=name, entry="h_pre", params=tuple([nc, fl, ip, vs, cv, ps, len(frames)] + [v for f in frames for v in fr(nc=nc, **f)]), spec=pre, bounds="every signal of 6 channels and ambience over %d frames of %d samples" % (len(frames), fl)))
D, VC = "dirs", "vec"
s("directions", [dict(dirs=[(1, 5), (3, 700)]), dict(dirs=[(1, 9), (3, 700)]), dict(dirs=[(3, 0), (1, 9)]), dict(dirs=[(3, 33)])])
s("vectors", [dict(vec=[2, 4]), dict(vec=[4, 2]), dict(vec=[2]), dict(vec=[5, 2]), dict()])
s("vector_to_direction", [dict(vec=[2, 4]), dict(dirs=[(2, 17)], vec=[4]), dict(vec=[2, 4]), dict(dirs=[(2, 1), (4, 900)])])
s("direction_to_vector", [dict(dirs=[(1, 17), (2, 40)], vec=[3]), dict(dirs=[(3, 60)], vec=[1, 2]), dict(vec=[1])])
s("direction_ends", [dict(dirs=[(6, 17), (2, 40)]), dict(vec=[3]), dict(dirs=[(2, 44)])])
s("tail_vectors", [dict(vec=[2]), dict(vec=[2, 6]), dict(vec=[6], dirs=[(1, 3)])], nc=9, vs=4)
s("ambient_switch", [dict(vec=[2], dis=[5]), dict(vec=[2], en=[6, 7]), dict(vec=[2, 3], dis=[6], en=[5], non=[7])], nc=9, vs=4, cv=1)
p1 = {0: [(1, -3), (2, 5)], 2: [(3, 1), (0, 0)]}
p2 = {1: [(2, 7), (1, -8)], 2: [(1, 0), (3, 3)], 3: [(4, -1), (0, 0)]}
s("prediction", [dict(pred=p1), dict(pred=p2), dict(), dict(pred=p1, dirs=[(1, 8)])])
s("prediction_ambient_switch", [dict(pred=p1, en=[2]), dict(pred=p2, dis=[2], non=[4]), dict(dis=[3], non=[2]), dict(pred=p2, en=[3], vec=[1])])
s("everything", [dict(pred=p1, vec=[1, 2], dirs=[(3, 9)]), dict(pred=p2, vec=[1, 3], dirs=[(2, 10)], en=[3]), dict(vec=[1], dirs=[(2, 10), (3, 11)], dis=[3], non=[1])])
def extra(ctx):
    return vx.run(ctx, ["impeghd_hoa_pre_dom_sound_syn.c", "impeghd_hoa_vector_based_predom_sound_syn.c", "impeghd_hoa_dir_based_pre_dom_sound_syn.c"], V)
QUERIES = []
ASSUMPTIONS = ["real arithmetic; rounding is covered by the tolerance", "vectors, direction matrices and windows are fixed arbitrary values"]
