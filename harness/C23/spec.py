import numpy as np, vx
class Lcg:
    def __init__(s): s.x = 1
    def __call__(s):
        s.x = (s.x * 1103515245 + 12345) & 0xFFFFFFFF
        return (((s.x >> 16) & 255) - 128) / 256
def low(h, B, fc):
    """spectrum kept up to the cut-off (and at half the sampling rate), as a circular filter of 2B points"""
    H = np.fft.fft(np.concatenate([h, np.zeros(2 * B - len(h))]))
    K = int(fc * B)
    keep = np.zeros(2 * B); keep[0] = keep[B] = 1
    for k in range(1, K): keep[k] = keep[2 * B - k] = 1
    return np.real(np.fft.ifft(H * keep))
def spec(x):
    n, ln, nb, calls, dfc, ffc, cicp, pre = (int(v) for v in x.p[:8])
    L = [int(v) for v in x.p[8:8 + calls]]
    r = Lcg()
    D = [[np.array([r() for _ in range(ln)]) for _ in range(n)] for _ in range(2)]
    F = [[np.array([r() for _ in range(ln)]) for _ in range(2)] for _ in range(nb)]
    w = [r() for _ in range(n)]
    B = 1
    while B < ln: B *= 2
    pre = pre
    o = {1000: ([0], .5)}
    for c in range(n): o[1001 + c] = ([(c + 2) % n if cicp else c], .5)
    mp = [(c + 2) % n if cicp else c for c in range(n)]  # the renderer is fed in the BRIR's order already
    T = pre + sum(L); nblk = T // B
    # signal index -> (call, position)
    X = []
    for c in range(n):
        X.append(vx.cat(*([np.zeros((pre, 1))] if False else []), *[x.vec(k * n + c) for k in range(calls)]))
    tot = sum(L)
    done = 0; acc = pre
    def resp(h, fc): return low(h, B, min(fc / 8, 1))
    M = {}
    for e in range(2):
        for c in range(n):
            A = np.zeros((max(nblk, 1) * B, tot))
            hd = resp(D[e][c], dfc)
            hs = [(hd, 0)] + [(resp(F[b][e], ffc) * w[c], b + 1) for b in range(nb)]
            for blk in range(nblk):
                for h, d in hs:
                    ob = blk + d
                    for half in (0, 1):
                        if ob + half >= nblk: continue
                        for i in range(B):           # output index within the half
                            for j in range(B):       # input index within the block
                                s = blk * B + j - pre
                                if 0 <= s < tot: A[(ob + half) * B + i, s] += h[(half * B + i - j) % (2 * B)]
            M[e, c] = A
    for k in range(calls):
        acc += L[k]
        nbk = acc // B; acc -= nbk * B
        o[2000 + k] = ([nbk * B], .5)
        for e in range(2):
            if nbk:
                v = sum((M[e, c][done * B:(done + nbk) * B] @ X[c] for c in range(1, n)), M[e, 0][done * B:(done + nbk) * B] @ X[0])
                o[2 * k + e] = (v, 1e-4)
        done += nbk
    return o
V = []
def add(nm, n, ln, nb, L, dfc=8, ffc=8, cicp=0, pre=0):
    V.append(dict(name=nm, entry="h_bin", params=(n, ln, nb, len(L), dfc, ffc, cicp, pre) + tuple(L), spec=spec,
             bounds="every signal of %d channels in calls of %s samples; direct filters of %d taps, %d diffuse blocks" % (n, L, ln, nb)))
add("short", 1, 16, 0, [16, 16, 16, 16])
add("splits", 2, 16, 0, [5, 16, 1, 40, 9, 7, 23])
add("frames", 2, 32, 0, [96, 96])
add("odd_length", 2, 20, 0, [32, 48, 40])
add("diffuse_1", 2, 16, 1, [16] * 5)
add("diffuse_2", 2, 16, 2, [24, 40, 24])
add("diffuse_2_32", 3, 32, 2, [64, 64, 64])
add("cutoff", 2, 32, 1, [64, 64], dfc=5, ffc=3)
add("order", 6, 16, 1, [32, 32], cicp=6)
add("order_lfe", 6, 16, 0, [31, 17], cicp=6)
add("latency", 2, 32, 1, [40, 60, 40], pre=32)
add("latency_part", 2, 32, 0, [40, 60], pre=20)
add("one_ear_64", 1, 64, 1, [100, 100, 56])
def extra(ctx):
    return vx.run(ctx, ["impeghd_binaural_renderer.c", "impeghd_fft.c", "impeghd_ifft.c", "impeghd_fft_ifft_rom.c"], V)
QUERIES = []
ASSUMPTIONS = ["real arithmetic; rounding is covered by the tolerance 1e-4 of full scale", "impulse responses are pseudo-random constants"]
