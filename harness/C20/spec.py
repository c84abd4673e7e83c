import numpy as np, vx
# a sine transform estimate of the downmix: the cosine spectrum seen through the analysis/synthesis windows,
# with the standard's seven taps around the diagonal; computed from the transforms' definition
N = 1024
def _t():
    n = np.arange(2 * N); k = np.arange(N)
    a = np.pi / N * np.outer(n + (N + 1) / 2, k + .5)
    return np.cos(a), np.sin(a)
C, S = _t()
def kbd(M, a):
    w = np.i0(np.pi * a * np.sqrt(1 - (2 * np.arange(M + 1) / M - 1) ** 2)); c = np.cumsum(w)
    return np.sqrt(c[:M] / c[M])
def half(shape, short):
    M = N // 8 if short else N
    w = kbd(M, 4) if shape else np.sin(np.pi / (2 * M) * (np.arange(M) + .5))
    if not short: return w
    v = np.zeros(N); o = (N - M) // 2; v[o:o + M] = w; v[o + M:] = 1
    return v
_c = {}
def taps(l, r, ls, rs):
    key = (l, r, ls, rs)
    if key not in _c:
        w = np.concatenate([half(l, ls), half(r, rs)[::-1]])
        k = slice(N // 2, N // 2 + 2)
        M = 2 * S.T[k] @ np.diag(w * w) @ C / N
        h = half(l, ls)
        P = 2 * S[:N].T[k] @ np.diag(h * h[::-1]) @ C[N:] / N
        _c[key] = [(M[j, N // 2 + j - 3:N // 2 + j + 4], P[j, N // 2 + j - 3:N // 2 + j + 4]) for j in (0, 1)]
    return _c[key]
def band(t, n):
    M = np.zeros((n, n))
    for i in range(n):
        for d in range(-3, 4):
            j = i + d
            j = -j - 1 if j < 0 else 2 * n - 1 - j if j >= n else j
            M[i, j] += t[i & 1][d + 3]
    return M
ONLY, START, SHORT, STOP, STOPSTART = 0, 1, 2, 3, 4
def parse(x):
    p = [int(v) for v in x.p]
    h, q = p[:12], p[12:]
    ns, ng = h[9], h[10]
    tbl, q = q[:ns], q[ns:]
    ge, q = q[:ng], q[ng:]
    return h, tbl, ge, [q[3 * i:3 * i + 3] for i in range(ns * ng)]
def pair(x):
    h, tbl, ge, b = parse(x)
    win, sh, shp, mask, pd, cc, up, mx, lr, ns, ng, fr = h
    n = 128 if win == SHORT else 1024
    W = 1024 // n
    used, ar, ai = np.zeros(1024, bool), np.zeros(1024), np.zeros(1024)
    for w in range(W):
        g = next(i for i in range(ng) if w < ge[i]) if win == SHORT else 0
        s = 0
        for k in range(ns):
            u, r, i = b[g * ns + k]
            if k < mx and u:
                sl = slice(w * n + s, w * n + tbl[k]); used[sl], ar[sl], ai[sl] = True, r * .1, i * .1
            s = tbl[k]
    t = taps(shp, sh, win in (STOP, STOPSTART), win in (START, STOPSTART))
    Cu, Pv = band([t[0][0], t[1][0]], n), band([t[0][1], t[1][1]], n)
    out, f = {}, -1.0 if pd else 1.0
    gl, gr = 2.0, 3.0
    last = None
    for k in range(fr):
        l, r = x.vec(2 * k), x.vec(2 * k + 1)
        if not lr: pass
        I = np.diag
        a, c = (1.0, 1.0) if lr else (gl, gr)   # transmitted-domain TNS comes first
        A, B = a * np.eye(1024), np.zeros((1024, 1024)); D, E = np.zeros((1024, 1024)), c * np.eye(1024)
        # l' = A l + B r (+ H history), r' = D l + E r
        H = None
        if mask == 3:
            dl, dr = np.where(used, a, .5 * a), np.where(used, 0, .5 * f * c)
            mixl, mixr = -(ar * a), np.full(1024, c)
            Ml, Mr = np.diag(mixl), np.diag(mixr)
            if cc:
                Im = np.kron(np.eye(W), Cu)
                Pm = np.zeros((1024, 1024))
                for w in range(1, W): Pm[w * n:w * n + n, w * n - n:w * n] = Pv
                Im = Im + Pm
                Ml = Ml - ai[:, None] * (Im * dl[None, :]); Mr = Mr - ai[:, None] * (Im * dr[None, :])
                if k and up:
                    # the previous frame's last downmix window
                    pl, pr = last
                    e = np.zeros((1024, 1024)); e[:n, 1024 - n:] = Pv
                    H = -ai[:, None] * e * .5
            Ml[~used] = 0; Mr[~used] = 0
            u = used.astype(float)
            A2, B2 = A + Ml, B + Mr
            D2, E2 = D.copy(), E.copy()
            D2[used] = (f * (A - Ml))[used]; E2[used] = (f * (B - Mr))[used]
            A, B, D, E = A2, B2, D2, E2
            if H is not None: H[~used] = 0
        elif mask:
            A, B, D, E = A, B + np.diag(used * c), np.diag(used * a), np.diag(np.where(used, -c, c))
        L, R = (A, B), (D, E)
        terms = vx.cat(l, r)
        ML, MR = np.hstack(L), np.hstack(R)
        if H is not None:
            PL, PR = last
            Hd = H @ (PL + f * PR)
            terms = vx.cat(prevterms, terms)
            ML = np.hstack([Hd, ML]); MR = np.hstack([-f * Hd * 1.0, MR])
        # keep rows for the next frame
        if lr: ML, MR = gl * ML, gr * MR
        last, prevterms = (ML, MR), terms
        out[2 * k] = (ML @ terms, 3e-4); out[2 * k + 1] = (MR @ terms, 3e-4); out[9 + k] = ([0], .5)
    return out
V = []
rng = np.random.RandomState(5)
def q(name, win, sh, shp, mask, pd, cc, up, lr, fr, ns, mx, ge, **k):
    n = 128 if win == SHORT else 1024
    tbl = sorted(4 * rng.choice(np.arange(1, n // 4), ns - 1, replace=False)) + [n]
    b = []
    for g in range(len(ge)):
        for s in range(ns):
            on = int(s < mx and rng.rand() < .6)
            b += [on if mask == 3 else (on or int(s >= mx)), int(rng.randint(-30, 31)) if on else 0, int(rng.randint(-30, 31)) if on else 0]
    V.append(dict(name=name, entry="h_pair", params=[win, sh, shp, mask, pd, cc, up, mx, lr, ns, len(ge), fr] + [int(t) for t in tbl] + list(ge) + b, spec=pair,
        bounds="%d frame(s) of every pair of spectra, one choice of %d bands in %d group(s)" % (fr, ns, len(ge)), **k))
q("ms_long", ONLY, 0, 0, 1, 0, 0, 0, 0, 1, 20, 15, [1]); q("ms_long_tns_after", ONLY, 0, 0, 1, 0, 0, 0, 1, 1, 20, 20, [1]); q("ms_short", SHORT, 0, 0, 1, 0, 0, 0, 0, 1, 12, 9, [1, 4, 8])
q("ms_all", ONLY, 0, 0, 2, 0, 0, 0, 0, 1, 49, 49, [1]); q("none", ONLY, 1, 0, 0, 0, 0, 0, 1, 1, 9, 7, [1])
for pd in (0, 1):
    q("real_long_%d" % pd, ONLY, 0, 0, 3, pd, 0, 0, pd, 1, 20, 15, [1]); q("real_short_%d" % pd, SHORT, 0, 0, 3, pd, 0, 0, 1 - pd, 1, 12, 9, [2, 3, 8])
    for sh in (0, 1):
        q("complex_short_%d%d" % (pd, sh), SHORT, sh, sh, 3, pd, 1, 0, 1 - pd, 1, 12, 10, [3, 8])
        for shp in (0, 1):
            for win in (ONLY, START, STOP, STOPSTART):
                up = (sh + pd) & 1
                q("complex_%d_%d%d_%d%s" % (win, shp, sh, pd, "_previous" if up else ""), win, sh, shp, 3, pd, 1, up, 0, 1 + up, 22, 18, [1])
q("complex_short_previous", SHORT, 0, 0, 3, 1, 1, 1, 0, 2, 10, 8, [1, 5, 8])
def extra(ctx):
    return vx.run(ctx, ["ia_core_coder_ext_ch_ele.c"], V)
QUERIES = []
ASSUMPTIONS = ["real arithmetic; rounding is covered by the tolerance", "band selections and prediction coefficients are concrete per query; temporal noise shaping is represented by a gain per channel", "no intelligent gap filling"]
