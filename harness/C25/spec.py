import numpy as np, vx
def pan(x):
    lay, prev, t, line, first = (int(v) for v in x.p[:5])
    return {2: ([1], .5), 3: (np.zeros(N[lay]), 1e-4)}
def ren(x):
    lay, no, fr = (int(v) for v in x.p[:3])
    return {1000 + 100 * f + c: (np.zeros(256), 1e-4) for f in range(fr) for c in range(NC[lay])}
N = {1: 1, 2: 2, 6: 5, 7: 7, 12: 7, 13: 22, 14: 7, 16: 9, 19: 11, 0: 13, -1: 9, -2: 4, -3: 24}      # loudspeakers that take part
NC = {1: 1, 2: 2, 6: 6, 7: 8, 12: 8, 13: 24, 14: 8, 16: 10, 19: 12, 0: 13, -1: 9, -2: 4, -3: 24}
V = []
def add(nm, e, f, p, b, mp=64): V.append(dict(name=nm, entry=e, params=p, spec=f, bounds=b, max_paths=mp))
L = lambda k: "cicp_%d" % k if k > 0 else "flexible_%d" % -k
T = {1: 6, 2: 6, 6: 10, 7: 14, 12: 14, 13: 42, 14: 14, 16: 18, 19: 22, 0: 22, -1: 14, -2: 10, -3: 46}      # triangles
for lay in (2, -2):
    for t in range(4):
        add("area_%s_%d" % (L(lay), t), "h_pan", pan, (lay, 0, t, -1, t % 2), "every direction inside triangle %d of layout %s" % (t, L(lay)), 2000)
        if lay < 0: V[-1]["tier"] = "thorough"
for lay in N:
    n = T[lay]
    for q in range(6 if n <= 16 else 3):
        t = q if n <= 6 else (q * 7 + lay) % n
        add("line_%s_%d" % (L(lay), t), "h_pan", pan, (lay, (6, 13, 0)[q % 3], t, (q + q // 3) % 3, q % 2), "every direction on an arc through a corner of triangle %d of layout %s%s" % (t, L(lay), ("", ", after another layout")[q % 3 < 2]), 400)
add("area_cicp_6", "h_pan", pan, (6, 0, 0, -1, 0), "every direction inside triangle 0 of layout 6", 2000)
V[-1]["tier"] = "thorough"
R = []
for i, lay in enumerate((1, 2, 6, 7, 12, 14, 16, 19, 13, 0, -1, -2, -3)):
    for p0 in (0, 1, 3) if lay in (2, 6, -2, 19) else (i % 6,):
        R.append(dict(name="render_%s_%d" % (L(lay), p0), entry="h_render", params=(lay, 2, 3, p0), spec=ren, max_paths=2,
                      bounds="every signal of two objects over 3 blocks of 256 samples to layout %s; positions and spreads %d.." % (L(lay), p0)))
R.append(dict(name="render_three", entry="h_render", params=(6, 3, 4, 2), spec=ren, max_paths=2, bounds="every signal of three objects over 4 blocks to layout 6"))
SRC = ["impeghd_obj_ren_dec.c", "impeghd_obj_ren_vbap.c", "impeghd_3d_vec_basic_ops.c", "impeghd_cicp_2_geometry.c", "impeghd_cicp_2_geometry_rom.c"]
def extra(ctx):
    return vx.run(ctx, SRC, R, defs=["-DREAL"]) + vx.run(ctx, SRC, V)
QUERIES = []
ASSUMPTIONS = ["real arithmetic; rounding is covered by the tolerance 1e-4 of full scale", "every direction's weight on each of its three loudspeakers is at least 0.05 (on the edges the code's tolerance decides, with the same result up to 0.01)"]
