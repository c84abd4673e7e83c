import vx
def q(name, entry, a, ch, fr, **k):
    d = ["-DA=%d" % a, "-DCH=%d" % ch, "-DFR=%d" % fr] + k.pop("defs", [])
    return dict(name=name, entry=entry, sources=["impeghd_peak_limiter.c"], defs=d, cut=True, unwind=(a + 1) * ch * fr + 4, **k)
ANY = "every state the limiter can be in and every input sample up to 1e9"
QUERIES = [q("bounded_a%d_c%d" % (a, c), "h_inv", a, c, 1, bounds=ANY) for a, c in ((1, 1), (2, 2), (4, 1))]
QUERIES += [q("quiet_a%d_c%d_f%d" % t, "h_quiet", *t, bounds="every quiet state and %d quiet samples" % t[2]) for t in ((1, 1, 2), (2, 2, 3), (3, 1, 3))]
def zero(x):
    return {0: ([0.0] * (int(x.p[2] * x.p[1]) + 2), 1e-5)}
V = [dict(name="gain_" + "_".join(map(str, p)), entry="h_gain", params=p, spec=zero, max_paths=4000, bounds="every sample and state of a limiter with %d samples attack, %d channels, %d samples" % p[:3])
     for p in ((1, 1, 1, 0, 0, 1, 0), (1, 1, 1, 0, 0, 0, 0), (2, 1, 1, 1, 1, 2, 0))]
L = (40000, -50000, 90000, 100, -1, 29000, 31000, -35000, 1e5, 20, 30, 40, 50, 60, 70, 80)
V += [dict(name="run_" + "_".join(map(str, p)), entry="h_run", params=p + L[r:] + L[:r], spec=lambda x: {**zero(x), 1: ([0.0], .5)}, max_paths=4000, bounds="every gain state, fixed samples, %d samples attack, %d channels, %d samples" % p[:3])
      for r, p in enumerate(((1, 1, 4, 0, 0), (2, 2, 3, 1, 0), (3, 1, 5, 2, 1)))]
def extra(ctx):
    return vx.run(ctx, ["impeghd_peak_limiter.c"], V)
ASSUMPTIONS = ["samples are finite (up to 1e9 in units of the 16-bit full scale)", "the gain rule is compared in real arithmetic"]
