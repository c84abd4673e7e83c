import numpy as np, vx
# interpolation (integer and half lag) and spectral shaping filters of the standard
C1 = [[0, .0304386, .1162701, .2195613, .2674597, .2195613, .1162701, .0304386], [.0076226, .0676508, .1700032, .2547232, .2547232, .1700032, .0676508, .0076226]]
C2 = [[.27150189, .44286013, .23027992, .05759155, -.00172290, -.00045168, -.00005891], [.27581838, .44682277, .22783915, .05410054, -.00353758, -.00092331, -.00011995],
      [.28044685, .45103979, .22519192, .05037740, -.00545541, -.00141719, -.00018336], [.28543320, .45554676, .22230634, .04638935, -.00749011, -.00193612, -.00024943]]
def lag(idx, fs):
    m = 2 * int(34 * (fs / 2) / 12800 + .5)
    f2, f1 = 324 - m, 320
    a = 2 * (f2 - m)      # half-sample resolution, then one sample, then two samples
    if idx < a: return m + idx // 2, idx % 2
    if idx < a + f1 - f2: return f2 + idx - a, 0
    return f1 + 2 * (idx - a - (f1 - f2)), 0
def pmax(fs): return 54 + 12 * int(34 * (fs / 2) / 12800 + .5)
def lpc(s):
    r = np.array([s[:len(s) - i] @ s[i:] for i in range(25)])
    r[0] = max(r[0], 100) * 1.0001
    from numpy.linalg import solve
    R = np.array([[r[abs(i - j)] for j in range(24)] for i in range(24)])
    return np.concatenate([[1], solve(R, -r[1:])])
def ltpf(x):
    n, fs, nf, fix = (int(v) for v in x.p[:4])
    fr = [[int(v) for v in x.p[4 + 3 * f:7 + 3 * f]] for f in range(nf)]
    fx = x.p[4 + 3 * nf:]
    T = nf * n
    H = 2048
    I, O = np.zeros((H + T, T + 1)), np.zeros((H + T, T + 1))   # rows: samples in time, columns: the unknowns and the constant
    for i in range(T):
        if i < fix: I[H + i, T] = np.float32(fx[i])
        else: I[H + i, i] = 1
    def comb(t, p): # the comb correction of the filter p=(lag, fraction, gain index) at time t
        L, q, g = p
        gain = (g + 1) / 16
        s1 = sum(C1[q][k] * O[t - L + k - 4] for k in range(8))
        s2 = sum(C2[g][k] * I[t - k] for k in range(7))
        return gain * s1 - .95 * gain * s2
    prev = None
    for f in range(nf):
        pr, idx, g = fr[f]
        cur = lag(idx, fs) + (g,) if pr else None
        t0 = H + f * n
        tr, d = n // 8, n // 2
        for i in range(d): O[t0 + i] = I[t0 + i] + (comb(t0 + i, prev) if prev else 0)
        s = t0 + d
        z = None
        if prev and cur and prev != cur:
            a = lpc(O[s - n // 4:s, T])
            assert not O[s - n // 4:s, :T].any()
            b = [I[s - 24 + i] + comb(s - 24 + i, cur) - O[s - 24 + i] for i in range(24)]
            for i in range(tr): b.append(-sum(a[k] * b[24 + i - k] for k in range(1, 25)))
            z = [b[24 + i] * (1 if i < tr // 2 else 1 - (i - tr // 2) / (tr // 2)) for i in range(tr)]
        for i in range(tr):
            t = s + i
            if prev == cur: O[t] = I[t] + (comb(t, cur) if cur else 0)
            elif not prev: O[t] = I[t] + i / tr * comb(t, cur)
            elif not cur: O[t] = I[t] + (1 - i / tr) * comb(t, prev)
            else: O[t] = I[t] + comb(t, cur) - z[i]
        for t in range(s + tr, t0 + n): O[t] = I[t] + (comb(t, cur) if cur else 0)
        prev = cur
    u = vx.cat(*[x.vec(f) for f in range(nf)])
    return {f: (O[H + f * n:H + f * n + n, :T] @ u + O[H + f * n:H + f * n + n, T], 2e-4) for f in range(nf)}
V = []
rng = np.random.RandomState(3)
def q(name, n, fs, frames, fix=0):
    s = [float(v) for v in 10 * np.sin(np.arange(fix) * .21) + 3 * rng.rand(fix)]
    V.append(dict(name=name, entry="h_ltpf", params=[n, fs, len(frames), fix] + [v for f in frames for v in f] + s, spec=ltpf,
        bounds="every signal of %d frames of %d samples%s, one sequence of lags and gains" % (len(frames), n, " (%d samples fixed)" % fix if fix else "")))
q("off", 256, 16000, [(0, 5, 1), (0, 7, 2)])
q("on_off", 256, 16000, [(1, 30, 1), (0, 0, 0), (0, 0, 0)])
q("on_on", 256, 22050, [(1, 131, 3), (1, 131, 3), (0, 1, 1)])
q("off_on_half", 256, 12800, [(0, 0, 0), (1, 1, 2), (1, 1, 2)])
q("on_gain_kept", 256, 25600, [(1, 376, 0), (1, 376, 0), (1, 376, 0)])
q("far", 256, 25600, [(1, 511, 2), (1, 511, 2), (0, 511, 2), (1, 440, 3)])
q("edge1", 256, 25600, [(1, 375, 2), (0, 0, 0), (1, 376, 1)])
q("edge2", 256, 25600, [(1, 439, 2), (0, 0, 0), (1, 440, 1)])
q("full_48000", 1024, 48000, [(1, 201, 2), (0, 0, 0)])
q("full_44100", 1024, 44100, [(1, 511, 3), (1, 511, 3)])
q("frame768", 768, 32000, [(1, 77, 1), (1, 77, 1)])
q("change", 256, 25600, [(1, 50, 2), (1, 91, 1), (1, 91, 1)], 384)
q("change_gain", 256, 25600, [(1, 50, 3), (1, 50, 0), (1, 50, 0)], 384)
q("change_twice", 256, 16000, [(1, 30, 0), (1, 201, 3), (1, 200, 2), (0, 0, 0)], 640)
q("change_full", 1024, 48000, [(1, 50, 3), (1, 311, 1)], 1536)
def extra(ctx):
    return vx.run(ctx, ["ia_core_coder_ltpf.c", "ia_core_coder_rom.c"], V)
QUERIES = []
ASSUMPTIONS = ["real arithmetic; rounding is covered by the tolerance", "where two filters cross over the samples the linear prediction is computed from are concrete"]
