FL = ["--no-array-field-sensitivity"]
S = dict(jmp=True, sources=["impeghd_oam_dec.c", "impeghd_oam_dec_ld.c"])
B = ", every bit pattern"
def ld(no, sub, intra, n, fix=0, **k): return dict(S, name="ld_%d_%d_%d" % (no, sub, intra), entry="h_ld", defs=["-DVP_N=%d" % n, "-DNO=%d" % no, "-DSUB=%d" % sub, "-DINTRA=%d" % intra] + fix * ["-DFIX"], unwind=no * (sub + 1) + 1, unwindset="vp_bytes.0:%d" % (n + 1), flags=FL,
    bounds="%d objects, sub-frame %d, any earlier values%s%s" % (no, sub, fix * ", azimuth only", B), **k)
def fr(no, sec, n, only=0, **k): return dict(S, name="frame_%d_%d" % (no, sec), entry="h_frame", defs=["-DVP_N=%d" % n, "-DNO=%d" % no, "-DSEC=%d" % sec] + only * ["-DONLYSEC"], cut=True, unwind=3, unwindset="impeghd_enh_obj_md_frame.*:16,vp_bytes.0:%d" % (n + 1), flags=FL, bounds="%d objects, up to %d sectors%s" % (no, sec, B), **k)
QUERIES = [
  dict(S, name="config", entry="h_cfg", defs=["-DVP_N=6", "-DNO=4"], unwind=7, bounds="up to 4 objects" + B),
  dict(S, name="enhanced", entry="h_enh", defs=["-DVP_N=6", "-DNO=3"], unwind=7, flags=FL, bounds="up to 3 objects" + B),
  fr(1, 2, 14), fr(2, 0, 8), fr(2, 1, 10, only=1),
  ld(1, 2, 1, 8), ld(2, 2, 1, 16), ld(3, 2, 0, 9, fix=1), ld(1, 2, 0, 10), ld(2, 2, 0, 20, tier='thorough', timeout=800),
  dict(S, name="safe_config", entry="s_all", defs=["-DVP_BITS_ND", "-DKIND=0"], unwind=25, flags=FL, bounds="24 objects, arbitrary bitstream"),
  dict(S, name="limits", entry="s_all", defs=["-DVP_BITS_ND", "-DKIND=2"], unwind=26, flags=FL, bounds="24 objects, arbitrary bitstream"),
  dict(S, name="safe_frame", entry="s_all", defs=["-DVP_BITS_ND", "-DKIND=1"], unwind=16, flags=FL, bounds="2 objects, 15 sectors, arbitrary bitstream"),
]
ASSUMPTIONS = ["bit reader replaced by its specification (C01)", "pow() returns an arbitrary number: radius, gain and depth are checked for range only"]
