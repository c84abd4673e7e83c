F = ["--no-array-field-sensitivity"]
S = dict(jmp=True, sources=["ia_core_coder_init_config.c", "impeghd_cicp_2_geometry.c", "impeghd_cicp_2_geometry_rom.c", "impeghd_ele_interaction_intrfc.c"], stub=["impeghd_read_brir_info"], flags=F)
U = "impeghd_*:25,nlay.*:25,check_spk.*:25"
def k(t, nl, n, **o): return dict(S, name="type_%d" % t, entry="h_spk", defs=["-DVP_N=%d" % n, "-DNL=%d" % nl, "-DTYPE=%d" % t], cut=True, unwind=nl + 1,
  unwindset="vp_bytes.0:%d,nlay.*:25,check_spk.*:25,impeghd_fill_ls_geom_frm_cicp_spk_idx.*:25,impeghd_cicpidx_2_ls_geometry.*:25" % (n + 1), bounds=("every layout index" if t == 0 else "up to %d loudspeakers" % nl) + ", every bit pattern and data length", **o)
QUERIES = [k(0, 1, 10), k(1, 4, 14), k(2, 2, 14), k(3, 1, 9),
  dict(S, name="setup", entry="h_setup", defs=["-DVP_N=28", "-DNLS=2", "-DLAYOUT=6"], cut=True, unwind=4, unwindset="vp_bytes.0:29,impeghd_fill_ls_geom_frm_cicp_spk_idx.*:25,impeghd_cicpidx_2_ls_geometry.*:25",
       bounds="layout 6, up to 2 loudspeakers and 2 wires, every bit pattern and data length"),
  dict(S, name="safe_spk_1", entry="s_setup", defs=["-DVP_BITS_ND", "-DSPK", "-DVP_ND_FIRST=1"], unwind=25, bounds="up to 24 listed loudspeakers, arbitrary bitstream"),
  dict(S, name="safe_spk_2", entry="s_setup", defs=["-DVP_BITS_ND", "-DSPK", "-DVP_ND_FIRST=2"], unwind=25, tier="thorough", timeout=400, bounds="up to 24 described loudspeakers, arbitrary bitstream"),
  dict(S, name="safe_setup", entry="s_setup", defs=["-DVP_BITS_ND", "-DVP_ND_FIRST=0"], tier="thorough", timeout=400, havoc=["impeghd_speaker_config_3d"], unwind=25, unwindset="impeghd_3da_local_setup_information.*:49", bounds="up to 24 loudspeakers and 48 wires, arbitrary bitstream")]
ASSUMPTIONS = ["bit reader replaced by its specification (C01)", "at most 24 channels and 24 objects are signalled, so at most 48 wires"]
