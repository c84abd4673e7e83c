def pre(b):
    b = b.replace(" ", "")
    n = len(b)
    b = b.ljust((n + 7) // 8 * 8, "0")
    return ["-DVP_PRE=" + ",".join(str(int(b[i:i + 8], 2)) for i in range(0, len(b), 8)), "-DVP_PRE_BITS=%d" % n]
def q(name, entry, defs, **k):
    return dict(name=name, entry=entry, jmp=True, sources=["impeghd_multichannel.c"], defs=defs, cut=True, **k)
def one(t, b, dt):
    p = "0 %d 0 00001 0 0 %d" % (t, b) + (" 0 00010" if b else "") + ("" if t else " 0") + " %d" % dt
    k = dict(tier="thorough") if b and not dt else {}
    return q("coefficient_%s_%s%s" % ("angle" if t else "prediction", "band" if b else "full", "_delta" if dt else ""), "h_one",
        pre(p) + ["-DVP_N=8", "-DTYPE=%d" % t, "-DBANDS=%d" % b, "-DDT=%d" % dt], unwind=65,
        unwindset="impeghd_mc_decode_huffman.*:122,code.*:122", bounds="one pair, %s, every code word and every remembered coefficient" % ("two bands" if b else "one coefficient"), **k)
QUERIES = [one(t, 0, d) for t in (0, 1) for d in (0, 1)] + [one(1, 1, d) for d in (0, 1)]
QUERIES += [q("safe_%d_%d_%d%d%s%s" % (n, b, mk, bw, "_keep" if t else "", "_short" if not l else ""), "h_safe", ["-DVP_BITS_ND", "-DVP_BITS_COUNT", "-DVP_ND_HOOK", "-DTREE=%d" % t, "-DMB=%d" % b, "-DINDEP=%d" % d, "-DSH=%d" % sh, "-DLNG=%d" % l, "-DNCH=%d" % n, "-DNB=1", "-DMK=%d" % mk, "-DBW=%d" % bw], stub=["impeghd_mc_decode_huffman"], unwind=66,
    bounds="one pair, %d channels, %d mask bands, arbitrary reads" % (n, b)) for n, b, t, d, sh, l, mk, bw in ((2, 2, 1, 0, 0, 1, 1, 1), (5, 8, 0, 0, 1, 0, 0, 1), (3, 31, 0, 1, 0, 1, 1, 0), (8, 0, 0, 0, 0, 1, 0, 0), (4, 31, 0, 0, 0, 0, 1, 1))]
QUERIES[-2]["defs"].append("-DNOSFB")
QUERIES += [q("memory_%d_%d%d%s%s%s" % (b, mk, bw, "_short" if not l else "", "_eight" if sh else "", "_first" if d else ""), "h_mem", ["-DVP_BITS_ND", "-DVP_BITS_COUNT", "-DVP_ND_HOOK", "-DTREE=%d" % (not d), "-DMB=%d" % b, "-DINDEP=%d" % d, "-DSH=%d" % sh, "-DLNG=%d" % l, "-DNCH=2", "-DNB=1", "-DMK=%d" % mk, "-DBW=%d" % bw], stub=["impeghd_mc_decode_huffman"], unwind=66,
    bounds="one pair, %d mask bands, any code words, masks and remembered coefficients" % (b * (8 if sh else 1)), **(dict(tier="thorough") if mk and bw and sh else {})) for b, mk, bw, l, sh, d in ((3, 1, 1, 1, 0, 0), (3, 1, 0, 1, 0, 0), (2, 0, 1, 1, 0, 1), (2, 1, 1, 0, 1, 0), (1, 1, 0, 0, 1, 0), (2, 0, 1, 0, 1, 0))]
ASSUMPTIONS = ["bit reader replaced by its specification (C01)"]
import numpy as np, vx
def bands(x):
    typ, pd, bw, nb, ns, n = (int(v) for v in x.p[:6])
    p = [int(v) for v in x.p[6:]]
    ends, idx, mask = p[:ns], p[ns:ns + nb], p[ns + nb:ns + 2 * nb]
    if not bw: return [(0, n, idx[0], 1)]
    r, s = [], 0
    for b in range((ns + 1) // 2):  # two scale factor bands each, the last one alone if their number is odd
        e = ends[min(2 * b + 1, ns - 1)]
        r.append((s, e, idx[b] if b < nb and mask[b] else None, b < nb and mask[b])); s = e
    return r
def ang(i): return (i - 32) * np.pi / 64
def pair(x):
    typ, pd = int(x.p[0]), int(x.p[1])
    d, r = x.vec(0), x.vec(1)
    n = int(x.p[5])
    A, B, C, D = np.ones(n), np.zeros(n), np.zeros(n), np.ones(n)
    for s, e, i, on in bands(x):
        if not on: continue
        if typ: A[s:e], B[s:e], C[s:e], D[s:e] = np.cos(ang(i)), -np.sin(ang(i)), np.sin(ang(i)), np.cos(ang(i))
        else:
            al = i * .1
            A[s:e], B[s:e] = 1 + al, 1
            C[s:e], D[s:e] = (1 - al, -1) if pd == 0 else (al - 1, 1)
    return {0: (np.diag(A) @ d + np.diag(B) @ r, 1e-5 * (1 if typ else 10)), 1: (np.diag(C) @ d + np.diag(D) @ r, 1e-5 * (1 if typ else 10))}
def prev(x):
    typ, pd, n = int(x.p[0]), int(x.p[1]), int(x.p[5])
    have = int(x.p[-1])
    l, r = x.vec(0), x.vec(1)
    P, Q = np.zeros(n), np.zeros(n)
    if typ == 0:
        if have == 3: P[:], Q[:] = .5, -.5 if pd else .5
    else:
        for s, e, i, on in bands(x):
            if on or not int(x.p[2]): P[s:e], Q[s:e] = np.cos(ang(i)), np.sin(ang(i))
            else: P[s:e], Q[s:e] = 1, 0
        if not have & 1: P[:] = 0
        if not have & 2: Q[:] = 0
    return {9: ([0], .5), 0: (np.diag(P) @ l + np.diag(Q) @ r, 1e-5)}
V = []
rng = np.random.RandomState(11)
for typ, pd, bw, nb, ns, n in ((1, 0, 0, 64, 7, 96), (1, 0, 3, 4, 7, 96), (1, 0, 2, 7, 14, 128), (1, 0, 1, 3, 14, 128), (1, 0, 3, 31, 49, 1024), (1, 0, 3, 8, 15, 128), (1, 0, 2, 6, 12, 128), (1, 0, 2, 2, 3, 40),
                           (0, 0, 0, 64, 7, 96), (0, 1, 0, 64, 7, 96), (0, 0, 3, 4, 7, 96), (0, 1, 2, 7, 14, 128), (0, 1, 3, 25, 49, 1024), (0, 0, 1, 6, 13, 128)):
    ends = sorted(rng.choice(np.arange(4, n, 4), ns - 1, replace=False)) + [n]
    idx = [int(rng.randint(0, 65) if typ else rng.randint(-30, 31)) for _ in range(nb)]
    mask = [int(rng.rand() < .6) if bw & 1 else 1 for _ in range(nb)]
    if not bw: idx = [idx[0]] * nb
    p = [typ, pd, bw, nb, ns, n] + [int(e) for e in ends] + idx + mask
    nm = "%s%d_%d_%dof%d" % ("angle" if typ else "prediction", pd, bw, nb, ns)
    bd = "every pair of spectra, one set of coefficients for %d bands over %d scale factor bands" % (nb, ns)
    V.append(dict(name="pair_" + nm, entry="h_pair", params=p, spec=pair, bounds=bd))
    for have in ((3, 1, 2) if bw == 3 and n < 128 else (3,)):
        V.append(dict(name="previous%d_%s" % (have, nm), entry="h_prev", params=p + [have], spec=prev, bounds=bd))
V += [dict(name="history_%dx%d_%d" % t, entry="h_save", params=t, spec=lambda x: {0: ([0.0] * int(x.p[0] * x.p[1]) if x.p[2] else x.vec(0), 1e-6)}, bounds="every spectrum") for t in ((8, 128, 0), (1, 1024, 0), (8, 128, 1))]
def extra(ctx):
    return vx.run(ctx, ["impeghd_multichannel.c"], V)
ASSUMPTIONS += ["real arithmetic; rounding is covered by the tolerance 1e-5"]
