def q(name, entry, **k):
    d = dict(name=name, entry=entry, jmp=True, unwind=5, timeout=400, flags=[], havoc=["impd_drc_mpegh3da_parse_loudness_info_set"])
    d.update(k)
    return d
B = "%s; every bit pattern"
F = ["--no-array-field-sensitivity"]
def s(name, entry, unwind, bounds, **k):
    return q(name, entry, unwind=unwind, defs=["-DVP_BITS_ND", "-DSG=%d" % k.pop("sg", 1)], flags=F, bounds=bounds + ", arbitrary bitstream", **k)
QUERIES = [
    q("groups", "h_group", cut=True, unwind=3, unwindset="vp_bytes.0:41", flags=F, bounds=B % "2 groups, up to 2 listed members each (member counts 1..128 when conjunct)"),
    q("switch_groups", "h_switch", cut=True, unwind=3, unwindset="vp_bytes.0:41", flags=F, bounds=B % "2 switch groups, up to 2 members"),
    q("presets", "h_preset", cut=True, unwind=3, unwindset="vp_bytes.0:41", flags=F, bounds=B % "2 presets, up to 2 conditions"),
    q("description", "h_descr", cut=True, unwind=3, unwindset="vp_bytes.0:41", flags=F, bounds=B % "up to 2 blocks, 2 languages, 2 text bytes"),
    q("loudness", "h_loud", cut=True, unwind=3, unwindset="vp_bytes.0:41", flags=F, bounds=B % "up to 2 groups, 2 presets"),
    q("header", "h_head", defs=["-DVP_CONST_BITS"], unwind=41, bounds="main stream without groups, every length field"),
    q("sub_stream", "h_sub", defs=["-DVP_CONST_BITS"], unwind=41, bounds=B % "sub stream header"),
] + [q("limit_%d_%d_%d" % (a, b, c), "h_limit", defs=["-DVP_CONST_BITS", "-DLG=%d" % a, "-DLS=%d" % b, "-DLP=%d" % c], unwind=41, bounds="entry counts just above the tables") for a, b, c in ((17, 0, 0), (127, 0, 0), (0, 9, 0), (0, 0, 9), (0, 31, 0), (0, 0, 31))
] + [q("set_%d" % k, "h_set", defs=["-DKIND=%d" % k, "-DNM=2", "-DVP_CONST_BITS"], unwind=5, unwindset="vp_bytes.0:41,impeghd_mae_asi_data_parse.1:20,impeghd_mae_asi_data_parse.0:20", bounds=B % ("data set kind %d, up to 2 entries, declared length 0..120 bytes (12 for unknown kinds)" % k)) for k in (2, 3, 4, 6, 7, 9, 12)] + [
    s("safe_groups", "s_group", 130, "one group of up to 128 members"),
    s("safe_switch", "s_switch", 34, "one switch group of up to 32 members"),
    s("safe_presets", "s_preset", 18, "2 presets of up to 16 conditions", sg=2),
    s("safe_loudness", "s_loud", 18, "16 groups, 8 presets"),
    s("safe_content", "s_content", 130, "up to 128 content blocks"),
    s("safe_composite", "s_composite", 130, "up to 128 pairs"),
    s("safe_screen", "s_screen", 34, "up to 31 preset screens"),
    s("safe_drc_interface", "s_drc", 10, "up to 7 conditions"),
]
ASSUMPTIONS = ["bit reader replaced by its specification, which C01 decides for the real reader"]
