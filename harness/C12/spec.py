import numpy as np, math, vx
MAXB = [(31, 9), (31, 9), (34, 10), (40, 14), (42, 14), (51, 14), (46, 14), (46, 14), (42, 14), (42, 14), (42, 14), (39, 14), (39, 14)]
def lpc(coefs, res):
    a = [1.0]
    for c in coefs:
        q = ((1 << (res - 1)) - (.5 if c >= 0 else -.5)) / (math.pi / 2)
        k = math.sin(c / q)
        a = [1.0] + [a[i] + k * a[len(a) - i] for i in range(1, len(a))] + [k]
    return a
def tns(x):
    lng, nsub, sfb, w, nb, fs, igf, aft, g0, g1 = x.p[:10]
    p = list(x.p[10:])
    if igf: nb = min(nb, g0) if aft else max(nb, g1)
    cap = MAXB[fs][0 if lng else 1]
    M = np.eye(1024)
    bins = 1024 if lng else 128
    for j in range(nsub):
        nf, res = p.pop(0), p.pop(0)
        for f in range(nf):
            s, e, o, d = (p.pop(0) for _ in range(4))
            co = [p.pop(0) for _ in range(o)]
            if not o: continue
            s = min(s, cap, nb); e = min(e, nb) if igf else min(e, cap, nb)
            lo, hi = j * bins + s * w, j * bins + e * w
            if hi <= lo: continue
            a = lpc(co, res)
            idx = list(range(lo, hi)) if d == 0 else list(range(hi - 1, lo - 1, -1))
            for n, i in enumerate(idx):
                for k in range(1, min(o, n) + 1):
                    M[i] = M[i] - a[k] * M[idx[n - k]]
    y = M @ x.vec(0)
    return {0: (y, TOL), 1: ([0], .5)}
TOL = 1e-3
def flt(s, e, d, co): return [s, e, len(co), d] + list(co)
C8 = [3, -2, 1, -1, 2, 0, -3, 1]
C15 = [2, -3, 2, 1, -1, 1, 0, -2, 1, 1, -1, 0, 1, -1, 1]
V = []
def q(name, lng, nsub, sfb, w, nb, fs, igf, filts, **k):
    p = [lng, nsub, sfb, w, nb, fs] + list(igf)
    for fl in filts:
        p += [len(fl[1]), fl[0]] + sum(fl[1], [])
    V.append(dict(name=name, entry="h_tns", params=tuple(p), spec=tns, bounds=name + ": every spectrum of 1024 lines", **k))
N = (0, 0, 0, 0)
q("long_up", 1, 1, 40, 12, 40, 3, N, [(4, [flt(8, 40, 0, C8)])])
q("long_down", 1, 1, 40, 12, 40, 3, N, [(4, [flt(8, 40, 1, C8)])])
q("long_order15_res3", 1, 1, 40, 12, 40, 3, N, [(3, [flt(20, 40, 0, [c // 2 for c in C15])])])
q("long_order15_down", 1, 1, 40, 12, 40, 3, N, [(4, [flt(22, 40, 1, C15)])])
q("long_order1_full", 1, 1, 40, 25, 40, 3, N, [(4, [flt(0, 40, 0, [-5])])])
q("long_three_filters", 1, 1, 40, 12, 40, 3, N, [(4, [flt(30, 40, 1, C8[:4]), flt(12, 30, 0, C8), flt(0, 12, 1, [-7, 2])])])
q("long_zero_order_between", 1, 1, 40, 12, 40, 3, N, [(4, [flt(30, 40, 1, C8[:4]), flt(12, 30, 0, []), flt(0, 12, 1, [6, 2])])])
q("long_limited_by_table", 1, 1, 45, 10, 45, 0, N, [(4, [flt(8, 45, 1, C8)])])
q("long_limited_by_bands", 1, 1, 40, 12, 23, 3, N, [(4, [flt(8, 40, 1, C8)])])
q("long_above_bands", 1, 1, 40, 12, 10, 3, N, [(4, [flt(20, 40, 1, C8)])])
q("long_igf_before", 1, 1, 45, 10, 30, 0, (1, 0, 20, 42), [(4, [flt(8, 45, 1, C8)])])
q("long_igf_after", 1, 1, 45, 10, 40, 3, (1, 1, 20, 42), [(4, [flt(8, 45, 1, C8)])])
q("short_mixed", 0, 8, 14, 9, 14, 3, N, [(3 + (k & 1), [flt(k, 14, k >> 1 & 1, C8[k % 3:k % 3 + 1 + k % 7])] if k != 5 else []) for k in range(8)])
q("short_limited", 0, 8, 14, 9, 14, 0, N, [(4, [flt(3, 14, k & 1, [3, -4, k])]) for k in range(8)])
q("short_igf_before", 0, 8, 14, 9, 8, 0, (1, 0, 8, 12), [(4, [flt(3, 14, k & 1, [3, -4, k])]) for k in range(8)])
q("short_igf_after", 0, 8, 14, 9, 14, 3, (1, 1, 8, 12), [(4, [flt(3, 14, k & 1, [3, -4, k])]) for k in range(8)])
def extra(ctx):
    return vx.run(ctx, ["ia_core_coder_tns.c"], V)
def c(name, lng, nw, n, mf, mo, minb, tcx=0, pre=None, npre=0, **k):
    return dict(name=name, entry="h_tns", jmp=True, sources=["ia_core_coder_spectrum_dec.c"], defs=["-DVP_N=%d" % n, "-DISLONG=%d" % lng, "-DNW=%d" % nw, "-DMF=%d" % mf, "-DMO=%d" % mo, "-DMINB=%d" % minb] + (["-DTCX"] if tcx else []) + (["-DVP_PRE=" + pre, "-DVP_PRE_BITS=%d" % npre] if pre else []),
                cut=True, unwind=max(nw, mf, mo) + 2, unwindset="vp_bytes.0:%d" % (n + 1), bounds="every bit pattern of the side information", **k)
QUERIES = [c("read_long_1", 1, 1, 12, 1, 15, 60, pre="0x40", npre=2), c("read_long_0", 1, 1, 2, 1, 1, -1, pre="0x00", npre=2), c("read_long_3", 1, 1, 16, 3, 2, 40, pre="0xc0", npre=2),
           c("read_tcx", 0, 1, 8, 1, 7, 30, 1), c("read_short", 0, 2, 11, 1, 7, 40)]
ASSUMPTIONS = ["bit reader replaced by its specification (C01) for the side information", "real arithmetic in the filter; rounding is covered by the tolerance"]
