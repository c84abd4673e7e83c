import numpy as np, vx
ONLY, START, SHORT, STOP, STOPSTART = 0, 1, 2, 3, 4
def basis(n, t):
    """inverse transform of 2n samples, n coefficients; t = 2*previous + current symmetry"""
    N = 2 * n
    i = (np.arange(N) + (n + 1) / 2.0)[:, None]
    k = np.arange(n)[None]
    if t == 0: B = np.cos(np.pi / n * i * (k + .5))
    elif t == 3: B = np.sin(np.pi / n * i * (k + .5))
    elif t == 2: B = np.cos(np.pi / n * i * k) * np.where(k == 0, np.sqrt(.5) ** 2 * 2, 1)
    else: B = np.sin(np.pi / n * i * (k + 1)) * np.where(k == n - 1, np.sqrt(.5) ** 2 * 2, 1)
    return B / n
def half(shape, n):
    """rising half of the window of 2n samples"""
    if shape == 0: return np.sin(np.pi / (2 * n) * (np.arange(n) + .5))
    w = np.i0(np.pi * (4 if n == 1024 else 6) * np.sqrt(1 - (2.0 * np.arange(n + 1) / n - 1) ** 2))
    return np.sqrt(np.cumsum(w[:-1]) / w.sum())
def fd(x):
    seq, shape, prev, ps, cs, td, fac = x.p
    c, ov, f = x.vec(0), x.vec(1), x.vec(3)
    t = 2 * ps + cs
    if seq != SHORT:
        z = basis(1024, t) @ c
        if seq in (ONLY, START):
            w = half(prev, 1024)
            o = z[:1024] * w + ov * w[::-1]
        elif fac:
            w = half(prev, 256)
            o = vx.cat(ov[:512], z[512:640] * w[128:] + f[:128], z[640:768] + f[128:256], z[768:1024])
        else:
            n = 256 if td else 128
            a, w = 512 - n // 2, half(prev, n)
            o = vx.cat(ov[:a], z[a:a + n] * w + ov[a:a + n] * w[::-1], z[a + n:1024])
        return {0: (o, TOL), 1: (z[1024:], TOL), 2: ([0], 0.5)}
    w0 = half(prev, 128)
    acc = vx.cat(ov * np.concatenate([np.ones(512), np.zeros(512)] if fac else [np.ones(448), w0[::-1], np.zeros(448)]), np.zeros(1024))
    B = basis(128, t)
    for k in range(8):
        w = np.concatenate([half(prev if k == 0 else shape, 128), half(shape, 128)[::-1] if k < 7 else np.ones(128)])
        if k == 0 and fac: w[:64] = 0
        z = (B * w[:, None]) @ c[128 * k:128 * k + 128]
        p = 448 + 128 * k
        acc[p:p + 256] = acc[p:p + 256] + z
    if fac: acc[512:640] = acc[512:640] + f[:128]
    return {0: (acc[:1024], TOL), 1: (acc[1024:], TOL), 2: ([0], 0.5)}
TOL = 2e-5
V = []
for seq in range(5):
    for sh in (0, 1):
        for pr in (0, 1):
            if seq != SHORT and sh: continue
            V.append(dict(name="seq%d_shape%d%d" % (seq, sh, pr), entry="h_fd", params=(seq, sh, pr, 0, 0, 0, 0), spec=fd, bounds="window sequence %d, every spectrum and overlap of 1024" % seq))
for seq in (0, 1, 2, 3, 4):
    for t in (1, 2, 3):
        if seq == SHORT and t != 3: continue
        V.append(dict(name="seq%d_kernel%d" % (seq, t), entry="h_fd", params=(seq, 0, 1, t >> 1, t & 1, 0, 0), spec=fd, bounds="window sequence %d, transform kernel %d, every spectrum and overlap of 1024" % (seq, t)))
for seq in (2, 3, 4):
    for fac in (0, 1):
        V.append(dict(name="seq%d_after_lpd_%s" % (seq, "fac" if fac else "nofac"), entry="h_fd", params=(seq, 1, 0, 0, 0, 1, fac), spec=fd, bounds="window sequence %d after a time-domain frame, every spectrum, overlap and cancellation signal" % seq))
def extra(ctx):
    return vx.run(ctx, ["ia_core_coder_imdct.c"], V)
QUERIES = []
ASSUMPTIONS = ["real arithmetic; rounding is covered by the tolerance", "the time-domain coder is replaced by an arbitrary aliasing cancellation signal and no post filter"]
