import numpy as np, vx
A1 = [1, -1.8, 1.1, -.2, .05, .02, -.04, .03, .01, -.02, .03, -.01, .02, .01, -.015, .01, .02]
A2 = [1, .9, .5, -.3, .15, -.12, .08, .02, -.06, .04, .03, -.02, .01, -.03, .02, .01, -.05]
A3 = [1] + [0] * 15 + [.5]
G = .92
def filt(x):
    k, n = int(x.p[0]), int(x.p[1])
    a = list(x.p[2:])
    v = x.vec(0)
    if k == 6: return {0: ([a[i] * G ** i for i in range(17)], 1e-5)}
    M = np.zeros((n, n + 16))
    I = np.eye(n + 16)
    rec = lambda c: [M.__setitem__(i, I[i + 16] - sum(c[j] * (M[i - j] if i >= j else I[i + 16 - j]) for j in range(1, len(c)))) for i in range(n)]
    if k == 0:
        for i in range(n): M[i] = I[i + 16] - a[1] * I[i + 15]
    elif k == 1: rec([1, -.68])
    elif k == 2: rec([a[j] * G ** j for j in range(17)])
    elif k in (3, 5): rec(a)
    else:
        for i in range(n):
            c = a[17 * (i * 3 // n):]
            M[i] = sum(c[j] * I[i + 16 - j] for j in range(17))
    return {0: (M @ v, 2e-4 * max(1, np.abs(M).sum(1).max()) if k in (2, 3, 5) else 1e-4)}
def dct4(n):
    i = np.arange(n) + .5
    return np.cos(np.pi / n * np.outer(i, i))
def mdct(x):
    l, m, raw = x.p
    n = l + m
    X = x.vec(0)
    if raw: return {0: (dct4(n) @ X, 2e-3), 1: ([0], .5)}
    # inverse transform of 2n samples, the flat ends cut away: samples (n - l - m + ...)
    i = np.arange(2 * n) + .5 + n / 2.0
    B = np.cos(np.pi / n * np.outer(i, np.arange(n) + .5))
    return {0: (B[m // 2:2 * n - m // 2] @ X, 2e-3), 1: ([0], .5)}
def fac(x):
    n, wz, g, sub, cnt = (int(v) for v in x.p[:5])
    a = [x.p[5 + j] * G ** j for j in range(17)]
    c = np.zeros(n)
    for i in range(cnt): c[int(x.p[22 + 2 * i])] = x.p[23 + 2 * i]
    s = np.concatenate([dct4(n) @ c * 10 ** (g / 28.0), np.zeros(n)])
    y = np.zeros(2 * n)
    for i in range(2 * n): y[i] = s[i] - sum(a[j] * y[i - j] for j in range(1, 17) if i >= j)
    M = np.zeros((2 * n, 2 * n + 1))
    if wz:
        w = np.sin(np.pi / (4 * n) * (np.arange(2 * n) + .5))
        for i in range(n):
            M[i, n + 1 + i] += 1 - w[n + i] ** 2
            M[i, n - i] += w[n - 1 - i] * w[n + i]
    return {0: (M @ x.vec(0) + y, 1e-3 * max(1, np.abs(y).max())), 1: ([0], .5)}
V = []
def f(name, k, n, a): V.append(dict(name=name, entry="h_filt", params=tuple([k, n] + list(a)), spec=filt, bounds="every signal of %d samples and every filter memory" % n))
f("preemphasis", 0, 256, [1, .68] + [0] * 15); f("preemphasis_half", 0, 257, [1, .5] + [0] * 15); f("deemphasis", 1, 256, A1)
for nm, A in (("1", A1), ("2", A2), ("3", A3)):
    f("weighted_synthesis_" + nm, 2, 128, A); f("synthesis_" + nm, 3, 128, A); f("synthesis_memory_" + nm, 5, 128, A)
    f("weighting_" + nm, 6, 1, A)
f("residual", 4, 192, A1 + A2 + A3)
for n in (32, 64, 128, 256, 512, 1024):
    V.append(dict(name="transform_%d" % n, entry="h_mdct", params=(n, 0, 1), spec=mdct, bounds="every spectrum of %d lines" % n))
for l, m in ((128, 0), (128, 128), (256, 0), (256, 256), (256, 768), (128, 384)):
    V.append(dict(name="inverse_%d_%d" % (l, m), entry="h_mdct", params=(l, m, 0), spec=mdct, bounds="every spectrum of %d lines" % (l + m)))
for n, sub in ((128, 256), (64, 256), (32, 128)):
    for wz in (0, 1):
        for k, (A, pr) in enumerate(((A1, (0, 3, 1, -2, n - 1, 5)), (A2, (7, 4, n // 2, -6, n - 2, 1)))):
            V.append(dict(name="fac_%d_%s_%d" % (n, "zir" if wz else "nozir", k), entry="h_fac", params=tuple([n, wz, 20 + 30 * k, sub, 3] + A + list(pr)), spec=fac, bounds="every zero-input response, fixed transmitted correction"))
def extra(ctx):
    return vx.run(ctx, ["ia_core_coder_acelp_tools.c"], V)
QUERIES = []
ASSUMPTIONS = ["real arithmetic; rounding is covered by the tolerance", "filter coefficients are concrete per query"]
