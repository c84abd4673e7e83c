import numpy as np, vx
def dft(n, inv, cols=None):
    return np.exp((2j if inv else -2j) * np.pi * (np.outer(np.arange(n), cols if cols is not None else np.arange(n)) % n) / n)
def cplx(x):
    n, inv = x.p[:2]
    w = dft(n, inv, np.arange(x.p[3], n, x.p[2]) if len(x.p) > 2 else None)
    re, im = x.vec(0), x.vec(1)
    return {0: (w.real @ re - w.imag @ im, 1e-3), 1: (w.real @ im + w.imag @ re, 1e-3)}
def real(x):
    """packed spectrum: X0, XN/2, then real and imaginary parts of X1.."""
    n, inv = x.p
    k = np.arange(1, n // 2)
    F = np.zeros((n, n))
    F[0] = 1
    F[1] = (-1.0) ** np.arange(n)
    w = dft(n, 0)[1:n // 2]
    F[2::2], F[3::2] = w.real, w.imag
    v = x.vec(0)
    return {0: (F @ v, 1e-3)} if not inv else {0: (np.linalg.inv(F) @ v, 1e-4)}
V = [dict(name="%s_%d" % ("ifft" if i else "fft", n), entry="h_cplx", params=(n, i), spec=cplx, bounds="every complex signal of %d points" % n) for n in (1024, 512, 256, 128, 64, 32, 16, 8, 4) for i in (0, 1)]
V += [dict(name="real_%s_%d" % ("ifft" if i else "fft", n), entry="h_real", params=(n, i), spec=real, bounds="every real signal or packed spectrum of %d values" % n) for n in (672, 336) for i in (0, 1)]
for n in (2048, 4096, 8192, 16384):
    for i in (0, 1):
        if i and n > 8192: continue
        V.append(dict(name="long_%s_%d" % ("ifft" if i else "fft", n), entry="h_long", params=(n, i, n // 16 - 3, 5), spec=cplx, bounds="every signal of %d points on 17 positions, zero elsewhere" % n))
def extra(ctx):
    return vx.run(ctx, ["impeghd_fft.c", "impeghd_ifft.c", "impeghd_fft_ifft_rom.c"], V)
ASSUMPTIONS = ["real arithmetic; rounding is covered by the tolerance"]
