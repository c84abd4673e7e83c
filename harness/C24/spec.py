import numpy as np, math, vx, irx
W = np.sin(np.pi / 512 * (np.arange(256) + .5))
N = 512
C, S = (f(2 * np.pi / N * np.outer(np.arange(257), np.arange(N))) for f in (np.cos, np.sin))
IC = np.cos(2 * np.pi / N * np.outer(np.arange(N), np.arange(257))) / N; IC[:, 1:256] *= 2
IS = -np.sin(2 * np.pi / N * np.outer(np.arange(N), np.arange(257))) / N; IS[:, 1:256] *= 2
Wn = np.concatenate([W, W[::-1]])
ERB = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 36, 39, 43, 47, 51, 55, 60,
       65, 70, 77, 84, 91, 98, 106, 115, 125, 136, 148, 160, 174, 189, 205, 222, 241, 256]
def switch(x):
    """spectrum = sum x[n] w[n] e^(-2 pi i k n / 512), the imaginary part of bin 0 holds bin 256"""
    n, w, fr = (int(v) for v in x.p[:3])
    o = {910: ([n] * fr, .5)}
    for c in range(n):
        pin = x.vec(c) if w != 1 else None
        pout = x.vec(10 + c) if w != 0 else None
        for f in range(fr):
            if w != 1: o[900 + 2 * f] = ([0], .5)
            if w != 0: o[901 + 2 * f] = ([0], .5)
            v = x.vec(20 + 4 * f + c)
            re, im = [], []
            ys = []
            for s in range(4):
                if w != 1:
                    b = v[256 * s:256 * s + 256]
                    t = vx.cat(pin, b) * Wn
                    R, I = C @ t, -(S @ t)
                    pin = b
                    re.append(R[0:256]); im.append(vx.cat(R[256:257], I[1:256]))
                else:
                    a, b = v[256 * s:256 * s + 256], v[1024 + 256 * s:1024 + 256 * s + 256]
                    R, I = vx.cat(a, b[0:1]), vx.cat(np.zeros(1), b[1:256], np.zeros(1))
                if w != 0:
                    y = IC @ R + IS @ I
                    ys.append(y[0:256] * W + pout * W[::-1]); pout = y[256:512]
            if w == 0: o[100 + 4 * f + c] = (vx.cat(*re, *im), 2e-3)
            else: o[100 + 4 * f + c] = (vx.cat(*ys), 1e-4 if w == 2 else 1e-3)
        if w == 2:                                # there and back is a delay of 256 samples
            full = vx.cat(x.vec(c), *[x.vec(20 + 4 * f + c) for f in range(fr)])
            for f in range(fr):
                y = full[1024 * f:1024 * f + 1024]
                if f == 0:
                    y = vx.cat(o[100 + c][0][0:256], y[256:1024])
                o[100 + 4 * f + c] = (y, 1e-4)
        if w != 1: o[200 + c] = (pin, 1e-6)
        if w != 0: o[210 + c] = (pout, 1e-4)
    return o
def quad(rows):
    """sum of squares"""
    if isinstance(rows, vx.Aff):
        k = [int(i) for i in np.nonzero(rows.A.any(axis=0))[0]]
        Q = rows.A[:, k].T @ rows.A[:, k]
        return irx.Sym(None, 0.0, {(k[i], k[j]): float(Q[i, j] * (1 if i == j else 2)) for i in range(len(k)) for j in range(i, len(k)) if Q[i, j]}) if k else 0.0
    return float(np.sum(np.asarray(rows) ** 2))
A = float(np.float32(.0435)); B = 1 - A
def conv(x):
    n, o, fr, b0, b1, tp, rp, ec = (int(v) for v in x.p[:8])
    s = [1]
    def rnd():
        s[0] = (s[0] * 1103515245 + 12345) & 0xFFFFFFFF
        return ((s[0] >> 16 & 255) - 128) / 256
    M = np.zeros((257, n, o))
    for b in range(257):
        for c in range(n):
            for d in range(o):
                g = rnd() + 1
                M[b, c, d] = 0 if n > 1 and o > 1 and (c + d) % 3 == 2 else g if b == 0 or b0 <= b < b1 else 0
    r = {900: ([0], .5), 901: ([0] * fr, .5)}
    Tp = [[tp / 100] * 58 for d in range(o)]; Rp = [[rp / 100] * 58 for d in range(o)]
    hist = [np.zeros(256) for c in range(n)]; ola = [np.zeros(256) for d in range(o)]
    for f in range(fr):
        X = []
        for c in range(n):
            P = np.array([[rnd(), rnd()] for _ in range(1024)]) / 8
            X.append(P @ x.vec(10 * f + c))
        ys = [[] for d in range(o)]
        for t in range(4):
            F = []
            for c in range(n):
                b = X[c][256 * t:256 * t + 256]
                v = vx.cat(hist[c], b) * Wn
                hist[c] = b
                F.append((C @ v, -(S @ v)))
            for d in range(o):
                Y = [sum((F[c][k] * M[:, c, d] for c in range(1, n)), F[0][k] * M[:, 0, d]) for k in (0, 1)]
                G = [None] * 257
                for e in range(58):
                    k0, k1 = (0, 1) if e == 0 else (ERB[e - 1], ERB[e])
                    ks = [k for k in range(k0, k1)] + ([256] if e == 57 else [])
                    p = [quad(F[c][q][ks] * M[ks, c, d]) for c in range(n) for q in (0, 1)]
                    T = A * sum(p[1:], p[0]) + B * Tp[d][e]
                    R = A * (quad(Y[0][ks]) + quad(Y[1][ks])) + B * Rp[d][e]
                    Tp[d][e], Rp[d][e] = T, R
                    if tp > 10 * rp: g = 10 ** .4
                    elif rp > 20 * tp: g = 10 ** -.5
                    else: g = x.near("sqrt", T * x.near("inv", R))
                    for k in ks: G[k] = g
                if all(isinstance(g, float) for g in G):
                    y = IC @ (Y[0] * G) + IS @ (Y[1] * G)
                    ys[d].append(y[0:256] * W + ola[d] * W[::-1]); ola[d] = y[256:512]
                else:                       # band by band
                    bands = {}
                    for k in range(257): bands.setdefault(id(G[k]), (G[k], []))[1].append(k)
                    y = [0.0] * 512
                    for g, ks in bands.values():
                        z = IC[:, ks] @ Y[0][ks] + IS[:, ks] @ Y[1][ks]
                        if isinstance(z, vx.Aff) and not z.A.any(): continue
                        y = [y[i] + (z[i] if isinstance(z, vx.Aff) else float(z[i])) * g for i in range(512)]
                    ys[d].append([y[i] * W[i] + ola[d][i] * W[255 - i] for i in range(256)]); ola[d] = y[256:512]
        for d in range(o):
            r[100 + 10 * f + d] = (vx.cat(*ys[d]) if isinstance(ys[d][0], (vx.Aff, np.ndarray)) else sum(ys[d], []), 1e-4)
    for d in range(o):
        r[200 + d] = (Tp[d], 1e-5 * (tp + rp) / 100 + 1e-3); r[210 + d] = (Rp[d], 1e-5 * (tp + rp) / 100 + 1e-3)
    return r
V = []
def add(nm, e, spec, p, b): V.append(dict(name=nm, entry=e, params=p, spec=spec, bounds=b))
add("forward", "h_switch", switch, (1, 0, 1), "every signal of one channel, one frame")
add("back", "h_switch", switch, (1, 1, 1), "every spectrum of 4 slots, one channel")
add("back_2", "h_switch", switch, (2, 1, 1), "every spectrum of 4 slots, two channels")
add("reconstruct", "h_switch", switch, (1, 2, 2), "every signal of two frames")
for nm, n, o, fr, t, r in (("up", 1, 2, 1, 1000000, 10000), ("down", 2, 1, 2, 100, 100000), ("matrix", 3, 2, 1, 1000000, 10000), ("many", 5, 2, 1, 100, 400000)):
    add("gain_limit_" + nm, "h_conv", conv, (n, o, fr, 0, 257, t, r, 0), "two-parameter family of signals of %d channels to %d, %d frames, gain at its limit" % (n, o, fr))
add("earcon", "h_conv", conv, (2, 2, 1, 0, 257, 1000000, 10000, 1), "two-parameter family of earcons")
for nm, n, o, b0, b1 in (("low", 1, 1, 1, 2), ("mid", 2, 1, 33, 36), ("high", 2, 1, 241, 257), ("nyquist", 1, 1, 256, 257)):
    add("gain_" + nm, "h_conv", conv, (n, o, 1, b0, b1, 20000, 10000, 0), "two-parameter family of signals in bins %d to %d, gain between its limits" % (b0, b1 - 1))
def extra(ctx):
    return vx.run(ctx, ["ia_core_coder_process.c", "impeghd_format_conv_init.c", "impeghd_fft.c", "impeghd_ifft.c", "impeghd_fft_ifft_rom.c"], V)
QUERIES = []
ASSUMPTIONS = ["real arithmetic; rounding is covered by the tolerance", "the gain matrix is a pseudo-random constant"]
