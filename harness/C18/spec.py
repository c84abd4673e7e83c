import numpy as np, math, vx
def nfc(m, rn, rl, fs, N):
    """order-m near-field filter: reverse Bessel polynomial of the reference radius over that of the
    loudspeaker radius, by the bilinear transform; N x N impulse response matrix"""
    if m == 0: return np.eye(N)
    a = [math.factorial(m + k) / (math.factorial(m - k) * math.factorial(k) * 2 ** k) for k in range(m + 1)]  # F_m(s) = sum a_k (c/(r s))^k
    def dig(r):   # c/(r s), s = 2 fs (1 - z)/(1 + z)
        g = 343. / (r * 2 * fs)
        p = np.zeros(m + 1)
        for k in range(m + 1):
            q = np.array([a[k] * g ** k])
            for _ in range(k): q = np.convolve(q, [1, 1])
            for _ in range(m - k): q = np.convolve(q, [1, -1])
            p += q
        return p
    b, d = dig(rn), dig(rl)
    h = np.zeros(N)
    for t in range(N):
        v = b[t] if t <= m else 0.
        for k in range(1, m + 1):
            if t - k >= 0: v -= d[k] * h[t - k]
        h[t] = v / d[0]
    return np.array([[h[i - j] if i >= j else 0. for j in range(N)] for i in range(N)])
def ren(x):
    n, o, ln, nf, fs, use = (int(v) for v in x.p[:6])
    rn, rl = x.p[6], x.p[7]
    c, N = (n + 1) ** 2, ln * nf
    W = np.array(x.p[8:8 + o * c], float).reshape(o, c)
    ch = []
    for i in range(c):
        s = vx.cat(*[x.vec(f * c + i) for f in range(nf)])
        ch.append(nfc(int(math.isqrt(i)), rn, rl, fs, N) @ s if use else s)
    r = {901 + f: ([0], .5) for f in range(nf)}
    if use: r[900] = ([0], .5)
    for k in range(o):
        y = ch[0] * W[k, 0]
        for i in range(1, c): y = y + ch[i] * W[k, i]
        for f in range(nf): r[f * o + k] = (y[f * ln:(f + 1) * ln], 3e-4)
    return r
rng = np.random.RandomState(5)
V = []
for name, n, o, ln, nf, fs, use, rn, rl in (
    ("plain_order1", 1, 5, 64, 2, 48000, 0, 0, 2), ("plain_order3", 3, 12, 32, 2, 48000, 0, 0, 2), ("plain_order6", 6, 3, 32, 2, 48000, 0, 0, 2),
    ("near_order1", 1, 2, 64, 3, 48000, 1, 3., 2.), ("near_order2", 2, 2, 64, 2, 48000, 1, 4., 2.), ("near_slow1", 1, 1, 96, 2, 16000, 1, 8., .5), ("near_slow2", 2, 1, 64, 2, 16000, 1, 6., .7), ("near_slow3", 3, 1, 48, 2, 22050, 1, 5., .8), ("near_order3", 3, 1, 48, 2, 44100, 1, 2.5, 2.)):
    W = rng.uniform(-1, 1, (o, (n + 1) ** 2)) / (n + 1) ** 2
    V.append(dict(name=name, entry="h_ren", params=[n, o, ln, nf, fs, use, rn, rl] + [float(np.float32(w)) for w in W.flatten()], spec=ren,
        bounds="every %d blocks of %d samples of order %d at up to +-16, one matrix with %d outputs" % (nf, ln, n, o)))
def extra(ctx):
    return vx.run(ctx, ["impeghd_hoa_renderer.c"], V)
QUERIES = [dict(name="full_scale", entry="h_clip", sources=["impeghd_hoa_renderer.c"], unwind=26, bounds="every signal up to 1e30 and matrix up to +-4, order 1, two outputs, two samples")]
ASSUMPTIONS = ["real arithmetic; rounding is covered by the tolerance 3e-4 for inputs of +-16"]
