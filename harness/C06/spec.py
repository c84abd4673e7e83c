F = ["--no-array-field-sensitivity"]
S = dict(jmp=True, sources=["impeghd_ele_interaction_intrfc.c"], flags=F)
def q(ng, n, **k): return dict(S, name="groups_%d" % ng, entry="h_ei", defs=["-DVP_N=%d" % n, "-DNG=%d" % ng, "-DSGR=%d" % (ng + 1)], cut=True, unwind=ng + 2,
         unwindset="vp_bytes.0:%d,scene.*:9,preset.*:9,impeghd_ele_interaction_data.*:9" % (n + 1),
         bounds="up to %d groups in the data, any scene of up to %d groups and 8 presets, signatures up to 2 bytes, every bit pattern and data length" % (ng, ng + 1), **k)
def s(name, asi, u, b): return dict(S, name=name, entry="s_ei", defs=["-DVP_BITS_ND", "-DASI=%d" % asi], unwind=18, unwindset="impeghd_ele_interaction.*:257,impeghd_ei_grp_intrctvty_status.*:%d" % u, bounds=b)
QUERIES = [q(2, 28), q(3, 34, tier="thorough", timeout=800),
  dict(S, name="displacement", entry="h_sd", defs=["-DVP_N=8"], unwind=10, bounds="every bit pattern and data length"),
  s("safe", 0, 130, "up to 127 groups and 255 signature bytes, arbitrary bitstream"),
  s("safe_scene", 1, 18, "any scene, 255 signature bytes, arbitrary bitstream")]
ASSUMPTIONS = ["bit reader replaced by its specification (C01)", "the scene lists at most 16 groups and 8 presets, as its own parser guarantees (C03)"]
