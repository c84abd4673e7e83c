import math, numpy as np, vx
FADE, CLIP, DUCK = 0x200, 0x100, 0xC00
def cas(name, fs, nch, frames, seqs, sets, nodes, sub=0, delay=0, lowd=0, allch=-1, boost=1, comp=1, ln=0, mb=0, tol=2e-5):
    """seqs: [(band_type, [(crossover, start)...])...]; sets: [dict]; nodes[frame][seq][band] = [(gain, slope, time)...]"""
    P = [sub, fs, nch, frames, lowd, delay, allch, boost, comp, ln, len(seqs)]
    for t, bs in seqs:
        P += [len(bs), t]
        for b in bs: P += list(b)
    P += [len(sets), mb]
    for s in sets:
        P += [s.get("id", 1), s.get("eff", 0), s.get("lim") is not None, s.get("lim") or 0] + s["ch"] + [len(s["grp"])]
        for g in s["grp"]:
            nb = len(seqs[g["seq"]][1])
            P += [g["seq"], nb, g.get("type", 0), g.get("tmin", 8), "duck" in g, g.get("duck", 0)]
            for b in range(nb):
                m = g.get("mod", {}).get(b, {})
                P += ["att" in m, m.get("att", 0), m.get("amp", 0), "off" in m, m.get("off", 0)]
    for f in nodes:
        for q in f:
            for b in q:
                P.append(len(b))
                for n in b: P += list(n)
    d = dict(fs=fs, nch=nch, frames=frames, seqs=seqs, sets=sets, nodes=nodes, sub=sub, delay=delay, lowd=lowd, boost=boost, comp=comp, ln=ln, mb=mb)
    return dict(name=name, entry="h_drc", params=tuple(float(x) if isinstance(x, float) else int(x) for x in P),
                spec=lambda x: spec(x, d, tol), bounds="every signal of %d channels over %d frames of %d samples%s" % (nch, frames, fs, " in 256-band STFT slots" if sub else ""))
def linear(d, s, g, b, gain, slope):
    eff, m, r = s.get("eff", 0), g.get("mod", {}).get(b, {}), 1.0
    if eff not in (FADE, CLIP) and not eff & DUCK: r *= d["boost"] if gain >= 0 else d["comp"]
    if "att" in m: r *= m["amp"] if gain >= 0 else m["att"]
    if eff & DUCK and "duck" in g: r *= g["duck"]
    lin = 2 ** (r * gain / 6)
    sl = 0.1151 * r * lin * slope
    if "off" in m: lin *= 2 ** (m["off"] / 6)
    if eff == CLIP and s.get("lim") is not None:
        lin *= 2 ** (max(0, -s["lim"] - d["ln"]) / 6)
        if lin >= 1: lin, sl = 1, 0
    return lin, sl
def segment(n, g0, g1, s0, s1, typ):
    """n+1 values of the gain between two nodes (slopes per sample)"""
    t = np.arange(n + 1.)
    if typ: return g0 + (g1 - g0) * t / n
    if abs(s0) > abs(s1):  # a parabola that runs into a straight line
        x = 2 * (g1 - g0 - s1 * n) / (s0 - s1); k = int(x + .5)
        if 0 <= k < n:
            p = np.maximum(0, g0 + s0 * t + (s1 - s0) * t * t / (2 * x if x else 1))
            y = np.where(t < k, p, g1 + s1 * (t - n)); y[0] = g0
            return y
    if abs(s0) < abs(s1):  # a straight line that turns into a parabola
        x = 2 * (g0 - g1 + s0 * n) / (s0 - s1); k = int(n - x + .5); u = n - t
        if 0 <= k < n:
            p = np.maximum(0, g1 - s1 * u + (s1 - s0) * u * u / (2 * x))
            y = np.where(t < k, g0 + s0 * t, p); y[0] = g0
            return y
    u = t / n  # cubic Hermite
    y = (2*u**3 - 3*u**2 + 1) * g0 + (u**3 - 2*u**2 + u) * n * s0 + (3*u**2 - 2*u**3) * g1 + (u**3 - u**2) * n * s1
    y[1:-1] = np.maximum(y[1:-1], 0)
    return y
def curve(d, s, g, b):
    """gain of every sample of the signal, from one frame before the first; 1 before any gain was received"""
    fs, nf = d["fs"], d["frames"]
    c = {}
    pt, pg, ps = -fs, 0., 0.
    for f in range(nf):
        for gain, slope, time in d["nodes"][f][g["seq"]][b]:
            T = f * fs + time
            g0, s0 = linear(d, s, g, b, pg, ps); g1, s1 = linear(d, s, g, b, gain, slope)
            k = float(g.get("tmin", 8))
            for i, v in enumerate(segment(T - pt, g0, g1, s0 / k, s1 / k, g.get("type", 0))): c[pt + i] = v
            pt, pg, ps = T, gain, slope
    off = -d["delay"] - (0 if d["lowd"] else fs)
    return np.array([c.get(t + off, 1.) for t in range(nf * fs)])
FC = [2/1024, 3/1024, 4/1024, 5/1024, 6/1024, 2/256, 3/256, 2/128, 3/128, 2/64, 3/64, 2/32, 3/32, 2/16, 3/16, 4/16]
def imp(b, a, n):
    h = np.zeros(n); x1 = x2 = y1 = y2 = 0.
    for i in range(n):
        x = 1. if i == 0 else 0.
        y = b[0] * x + b[1] * x1 + b[2] * x2 - a[1] * y1 - a[2] * y2
        x2, x1, y2, y1 = x1, x, y1, y; h[i] = y
    return h
def filt(kind, idx, n):
    """impulse responses: Butterworth section squared (Linkwitz-Riley), and the all-pass it adds up to"""
    w = math.tan(math.pi * FC[idx]); D = 1 + math.sqrt(2) * w + w * w
    a = [1, 2 * (w * w - 1) / D, (1 - math.sqrt(2) * w + w * w) / D]
    if kind == "a": return imp([a[2], a[1], 1], a, n)
    h = imp([w * w / D, 2 * w * w / D, w * w / D] if kind == "l" else [1 / D, -2 / D, 1 / D], a, n)
    return np.convolve(h, h)[:n]
def cv(*hs):
    o = hs[0]
    for h in hs[1:]: o = np.convolve(o, h)[:len(h)]
    return o
def bank(x, n):
    """impulse response of every band"""
    F = lambda k, i: filt(k, i, n)
    if len(x) == 1: return [np.eye(1, n)[0]]
    if len(x) == 2: return [F("l", x[1]), F("h", x[1])]
    if len(x) == 3:
        lo, hi = F("l", x[2]), F("h", x[2])
        return [cv(lo, F("l", x[1])), cv(lo, F("h", x[1])), cv(hi, F("a", x[1]))]
    lo, hi = cv(F("l", x[2]), F("a", x[3])), cv(F("h", x[2]), F("a", x[1]))
    return [cv(lo, F("l", x[1])), cv(lo, F("h", x[1])), cv(hi, F("l", x[3])), cv(hi, F("h", x[3]))]
def toep(h, n):
    return np.array([[h[i - j] if i >= j else 0 for j in range(n)] for i in range(n)])
def crossings(d, s, g): return [b[0] for b in d["seqs"][g["seq"]][1]][1:]
def spec(x, d, tol):
    fs, nch, nf = d["fs"], d["nch"], d["frames"]
    r = {10000: ([0], .5)}
    n = fs * nf
    for c in range(nch):
        if d["sub"]:
            ns = fs // 256
            sig = [vx.cat(*[x.vec((f * nch + c) * 2 + q) for f in range(nf)]) for q in (0, 1)]
        else: sig = vx.cat(*[x.vec((f * nch + c) * 2) for f in range(nf)])
        A = None  # time-varying gain matrix is diagonal; filters are Toeplitz
        W = [np.ones(n), np.ones(n)] if d["sub"] else np.eye(n)
        for si in range(len(d["sets"]) - 1, -1, -1):
            s = d["sets"][si]; gi = s["ch"][c]
            if s.get("id", 1) <= 0: continue
            mb = si == d["mb"] and not d["sub"]
            if mb:
                for oi in range(len(s["grp"])):
                    if oi != gi and len(crossings(d, s, s["grp"][oi])): pass
                # the other groups' crossovers, except those every group is passed through by its neighbours
                need = {k: [q for o in range(len(s["grp"])) if o != k for q in crossings(d, s, s["grp"][o])] for k in set(s["ch"]) | set(range(len(s["grp"])))}
                mine = list(need[gi])
                for q in list(mine):
                    if all(q in v for v in need.values()):
                        for v in need.values(): v.remove(q)
                for q in need[gi]: W = toep(filt("a", q, n), n) @ W
            if gi < 0: continue
            g = s["grp"][gi]; bs = d["seqs"][g["seq"]][1]
            cs = [curve(d, s, g, b) for b in range(len(bs))]
            if d["sub"]:
                t = np.arange(nf * ns) * 256 + 127
                ga = np.array([q[t] for q in cs])           # band x slot
                wt = weights(d["seqs"][g["seq"]])            # band x bin
                m = np.einsum("bs,bk->sk", ga, wt)
                mi = m.copy(); mi[:, 0] = m[:, 255]         # imaginary part of bin 0: the Nyquist frequency
                W[0] *= m.ravel(); W[1] *= mi.ravel()
            else:
                h = bank([b[0] for b in bs], n) if mb else [np.eye(1, n)[0]]
                W = sum(cs[b][:, None] * toep(h[b], n) for b in range(len(bs))) @ W
        if d["sub"]:
            for q in (0, 1):
                for f in range(nf): r[(f * nch + c) * 2 + q] = (np.diag(W[q])[f * fs:(f + 1) * fs] @ sig[q], tol)
        else:
            o = W @ sig
            for f in range(nf): r[(f * nch + c) * 2] = (o[f * fs:(f + 1) * fs], tol)
    return r
def weights(seq):
    t, bs = seq
    f = np.arange(256) / 512.
    if len(bs) == 1: return np.ones((1, 256))
    if not t:
        st = [0] + [b[1] for b in bs[1:]] + [256]
        return np.array([[1. if st[b] <= k < st[b + 1] else 0. for k in range(256)] for b in range(len(bs))])
    e = [0] + [FC[b[0]] for b in bs[1:]] + [.5]
    w = np.ones((len(bs), 256))
    for b in range(len(bs)):  # 24 dB per octave outside the band
        for k in range(256):
            if f[k] < e[b]: w[b, k] = 0 if k == 0 else 2.0 ** (-24 / 6.0206 * math.log2(e[b] / f[k]))
            elif f[k] >= e[b + 1]: w[b, k] = 2.0 ** (-24 / 6.0206 * math.log2(f[k] / e[b + 1]))
    return w / w.sum(0)
def sb(bs): return bs
ONE = (1, [(0, 0)])
def const(gs): return [[(g, 0., 15)] for g in gs]
V = []
# single-band: interpolation and timing, groups out of order, channels without gain
def nd(fs, k):
    a = [[(3., 0., fs // 4), (-6., 1., fs // 2), (-6.5, -0.25, fs - 1)], [(-12., -2., fs // 3), (-1., .5, fs - 1)], [(0., 0., 2), (6., .01, 7), (2., -3., fs - 1)],
         [(-3., 0., fs - 1)]]
    return a[k % 4]
G2 = [dict(seq=1, type=0), dict(seq=0, type=1, tmin=4)]
for nm, fs, dl, lowd in (("regular", 32, 0, 0), ("delayed", 32, 37, 0), ("low_delay", 32, 0, 1), ("low_delay_late", 64, 5, 1)):
    V.append(cas("gain_" + nm, fs, 4, 4, [ONE, ONE], [dict(ch=[1, -1, 0, 1], grp=G2)], [[[nd(fs, f)], [nd(fs, f + 1)]] for f in range(4)], delay=dl, lowd=lowd, allch=4 if dl else -1))
V.append(cas("gain_spline_down", 32, 1, 4, [ONE], [dict(ch=[0], grp=[dict(seq=0, tmin=2)])], [[[nd(32, f + 2)]] for f in range(4)], lowd=1))
V.append(cas("gain_frame_1024", 1024, 2, 2, [ONE], [dict(ch=[0, -1], grp=[dict(seq=0, tmin=64)])], [[[nd(1024, f)]] for f in range(2)], lowd=1))
def many(f): return [(-3. + 5 * ((f * 7 + i * 5) % 4) - i, [.8, -1.3, 0., 2.1, -.2][(f + i) % 5], 8 * i + 7) for i in range(8)]
for tm in (1, 4, 16): V.append(cas("gain_shapes_%d" % tm, 64, 1, 3, [ONE], [dict(ch=[0], grp=[dict(seq=0, tmin=tm)])], [[[many(f)]] for f in range(3)], lowd=1, tol=5e-5))
# modification by the listener and by the stream
MM = {0: dict(att=.5, amp=1.25, off=-4.)}
for nm, eff, lim, ln in (("night", 1, None, 0), ("fade", FADE, None, 0), ("clip", CLIP, -4., -6.), ("clip_none", CLIP, None, 0), ("duck", 0x400, None, 0), ("duck_self", 0x800, None, 0)):
    V.append(cas("modified_" + nm, 32, 2, 2, [ONE, ONE], [dict(ch=[1, 0], eff=eff, lim=lim, grp=[dict(seq=0, mod=MM, duck=.25), dict(seq=1, duck=1.5, type=1)])],
                 [[[nd(32, f)], [nd(32, f + 1)]] for f in range(2)], lowd=1, boost=.5, comp=.75, ln=ln, tol=5e-5))
# two and three sets one after the other, and none selected
V.append(cas("two_sets", 32, 2, 3, [ONE, ONE], [dict(ch=[0, 0], grp=[dict(seq=0)]), dict(ch=[-1, 0], grp=[dict(seq=1, type=1)])], [[[nd(32, f)], [nd(32, f + 1)]] for f in range(3)], lowd=1))
V.append(cas("pass", 32, 2, 2, [ONE], [dict(ch=[0, 0], id=-1, grp=[dict(seq=0)])], [[[nd(32, f)]] for f in range(2)], lowd=1))
# bands
def mbs(n, x): return (1, [(0, 0)] + [(i, 0) for i in x[:n - 1]])
for n, x in ((2, [9]), (3, [6, 11]), (4, [4, 9, 13]), (4, [9, 12, 14])):
    V.append(cas("bands_%d_%d" % (n, x[0]), 24, 2, 2, [mbs(n, x)], [dict(ch=[0, 0], grp=[dict(seq=0)])],
                 [[[[(float(3 * b - 4 - f), 0., 11), (float(-2 * b), 0., 23)] for b in range(n)]] for f in range(2)], lowd=1, tol=2e-4))
V.append(cas("bands_unity_4", 24, 1, 3, [mbs(4, [9, 12, 14])], [dict(ch=[0], grp=[dict(seq=0)])], [[[[(0., 0., 23)]] * 4] for f in range(3)], lowd=1, tol=2e-4))
# groups with different bands stay aligned; so do channels outside the groups
for nm, sq in (("2_1", [mbs(2, [11]), ONE]), ("2_3", [mbs(2, [9]), mbs(3, [7, 12])]), ("4_2", [mbs(4, [8, 11, 13]), mbs(2, [10])])):
    V.append(cas("aligned_" + nm, 24, 3, 2, sq, [dict(ch=[1, -1, 0], grp=[dict(seq=0), dict(seq=1)])],
                 [[[[(float(2 * b - f), 0., 23)] for b in range(len(s[1]))] for s in sq] for f in range(2)], lowd=1, tol=2e-4))
V.append(cas("aligned_shared", 24, 3, 2, [mbs(2, [11]), mbs(2, [11]), mbs(3, [11, 13])], [dict(ch=[1, 2, 0], grp=[dict(seq=0), dict(seq=1), dict(seq=2)])],
             [[[[(float(2 * b - f), 0., 23)] for b in range(len(s[1]))] for s in [mbs(2, [11]), mbs(2, [11]), mbs(3, [11, 13])]] for f in range(2)], lowd=1, tol=2e-4))
V.append(cas("bands_and_single", 24, 2, 2, [mbs(2, [10]), ONE], [dict(ch=[0, 0], grp=[dict(seq=0)]), dict(ch=[0, -1], grp=[dict(seq=1)])],
             [[[[(float(2 * b - f), 0., 23)] for b in range(len(s[1]))] for s in (mbs(2, [10]), ONE)] for f in range(2)], lowd=1, tol=2e-4))
# in the frequency domain
for nm, sq in (("single", ONE), ("crossover", mbs(3, [6, 11])), ("crossover_4", mbs(4, [9, 12, 14])), ("bins", (0, [(0, 0), (0, 7), (0, 100), (0, 200)]))):
    V.append(cas("stft_" + nm, 512, 2, 2, [sq, ONE], [dict(ch=[0, 1], grp=[dict(seq=0, tmin=32), dict(seq=1, tmin=32)])],
                 [[[[(float(3 * b - 4 - f), 0., 300), (float(-2 * b), .5, 511)] for b in range(len(s[1]))] for s in (sq, ONE)] for f in range(2)], sub=1, lowd=1, tol=2e-4))
V.append(cas("stft_delayed", 256, 2, 3, [ONE], [dict(ch=[-1, 0], grp=[dict(seq=0, tmin=32)])], [[[[(float(-4 - 3 * f), 0., 255)]] ] for f in range(3)], sub=1, delay=100, tol=2e-4))
for n, b, e in ((7, 2, 0), (4, 4, 0), (10, 2, 1), (5, 4, 1), (20, 3, 1)):
    V.append(dict(name="groups_%d_%d" % (n, b), entry="h_many", params=(n, b), spec=lambda x, e=e: {0: ([e], .5)}, bounds="%d channel groups of %d bands" % (n, b)))
def extra(ctx):
    return vx.run(ctx, ["impd_drc_gain_dec.c", "impd_drc_process.c", "impd_drc_filter_bank.c", "impd_drc_multiband.c", "impd_drc_rom.c"], V)
QUERIES = []
ASSUMPTIONS = ["real arithmetic; rounding is covered by the tolerances (2e-5 to 2e-4 of full scale)"]
