S = ["impeghd_mhas_parse.c"]
F = ["--no-array-field-sensitivity"]
H = ["impd_drc_mpegh3da_parse_loudness_info_set"]
def q(name, entry, **k):
    d = dict(name=name, entry=entry, jmp=True, sources=S, flags=F, havoc=H)
    d.update(k)
    return d
QUERIES = [
    q("config", "h_cfg", cut=True, unwind=3, unwindset="vp_bytes.0:33,h_cfg.0:25", bounds="every configuration packet with 1..2 signals (every count for the rejection)"),
    q("earcon", "h_earcon", cut=True, unwind=3, defs=["-DVP_N=36"], unwindset="vp_bytes.0:37,h_earcon.0:17", bounds="up to 2 earcons, 2 languages, 2 text units; every bit pattern"),
    q("config_any", "s_cfg", defs=["-DVP_BITS_ND"], unwind=26, bounds="any packet, any signal count"),
    q("earcon_any", "s_earcon", defs=["-DVP_BITS_ND", "-DVP_ND_FIRST=15"], cut=True, unwind=18, bounds="16 earcons, up to 15 languages, up to 16 text units"),
    q("earcon_text", "s_earcon", defs=["-DVP_BITS_ND", "-DVP_ND_FIRST=0"], cut=True, unwind=2, unwindset="impeghd_econ_config_info.0:257", bounds="1 earcon, 1 language, up to 255 text units"),
]
for w in (16, 24, 32):
    for fs in (0, 5, 6, 7):
        QUERIES.append(q("data_%d_size%d" % (w, fs), "h_data", cut=fs in (5, 6), unwind=3, unwindset="vp_bytes.0:33,h_data.0:25,impeghd_pcm_data_payload.0:%d" % (25 if fs in (0, 7) else 3), defs=["-DW=%d" % w, "-DFS=%d" % fs],
                         witness=fs != 7, bounds="%d bit samples, up to 2 signals and 2 samples (every declared size for the rejection)" % w) if fs in (5, 6) or w == 16 else None)
for fs, t in ((1, 768), (2, 1024), (3, 2048), (4, 4096)):
    QUERIES.append(q("frame_%d" % t, "s_data", unwind=1030, defs=["-DVP_BITS_ND", "-DVP_BITS_COUNT", "-DVP_ND_FIRST=0", "-DW=16", "-DFS=%d" % fs, "-DTBL=%d" % t], bounds="%d samples per frame, one signal" % t))
QUERIES = [x for x in QUERIES if x]
ASSUMPTIONS = ["bit reader replaced by its specification (C01)"]
