import numpy as np, vx
# half-band and third-band low-pass prototypes (first halves; both are symmetric)
H2 = [0.00066318, 0.00059298, -0.00079957, -0.00080299, 0.0011491, 0.0012169, -0.0017485, -0.0018758, 0.002639, 0.0028283, -0.0038702, -0.0041348, 0.0055069, 0.0058773, -0.0076415, -0.0081757, 0.010418, 0.011222, -0.014082, -0.015352, 0.019088, 0.021222, -0.026395, -0.030304, 0.038374, 0.046713, -0.062869, -0.087788, 0.14968, 0.44865]
H3 = [-0.000497022, -0.000918614, -0.000444826, 0.000705251, 0.001507, 0.000809458, -0.00129786, -0.00285178, -0.00155156, 0.00236947, 0.00517024, 0.00279872, -0.00404538, -0.00876978, -0.00474131, 0.00652929, 0.0141759, 0.00771988, -0.0102284, -0.0224865, -0.012483, 0.0161443, 0.036582, 0.0211642, -0.0275376, -0.0671683, -0.0432833, 0.0635616, 0.2113, 0.317768]

def res(x):
    up, down, n, nf = (int(v) for v in x.p)
    h = np.array(H3 if up == 3 else H2)
    h = np.concatenate([h, h[::-1]])
    N = n * nf
    def conv(step, total):  # row t: the 60 taps that end at sample t * step
        M = np.zeros((total, total * step))
        for t in range(total):
            for j in range(60):
                if t * step + j - 59 >= 0: M[t, t * step + j - 59] += h[j]
        return M
    A = conv(1, N * up)                       # filter of the held input
    U = np.zeros((N * up, N)); U[np.arange(N * up), np.arange(N * up) // up] = 1
    A = A @ U
    if down == 2:
        h = np.concatenate([H2, H2[::-1]])
        A = conv(2, N * up // 2) @ A
    s = vx.cat(*[x.vec(f) for f in range(nf)])
    o = A @ s
    k = n * up // down
    return {f: (o[f * k:(f + 1) * k], 2e-5) for f in range(nf)}
def ln(x):
    n, up, down, nf = (int(v) for v in x.p[:4])
    class Y: pass
    r = {100: ([0] * nf, .5), 101: ([n * 1024 * up // down * 3], .5)}
    for c in range(n):
        y = Y()
        y.p, y.vec = (up, down, 1024, nf), lambda f: x.vec(f * n + c) * 10 ** (x.p[4] / 20)
        for f, v in res(y).items(): r[f * n + c] = (v[0], 1e-4)
    return r
V = []
for up, down in ((2, 1), (3, 1), (3, 2)):
    for n, nf in ((64, 3), (96, 2), (1024, 1)):
        V.append(dict(name="x%d_%d_%dx%d" % (up, down, nf, n), entry="h_res", params=(up, down, n, nf), spec=res, bounds="every input of %d frames of %d samples" % (nf, n)))
for up, down, g, n in ((2, 1, 6, 2), (3, 2, 0, 1), (3, 1, -6, 1)):
    V.append(dict(name="last_stage_x%d_%d" % (up, down), entry="h_ln", params=(n, up, down, 1, g), spec=ln, bounds="every frame of %d channels, gain %d dB" % (n, g)))
def extra(ctx):
    return vx.run(ctx, ["impeghd_resampler.c", "ia_core_coder_decode_main.c"], V)
QUERIES = []
ASSUMPTIONS = ["real arithmetic; rounding is covered by the tolerance 2e-5 of full scale"]
