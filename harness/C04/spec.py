ST = ["impeghd_mae_asi_parse", "impeghd_econ_config_info", "impeghd_pcm_data_config", "impeghd_pcm_data_payload", "impd_drc_mpegh3da_parse_loudness_info_set"]
def q(name, n, np, **k):
    return dict(name=name, entry="h_frame", jmp=True, sources=["impeghd_mhas_parse.c"], stub=ST, defs=["-DVP_N=%d" % n, "-DNP=%d" % np] + k.pop("d", []),
                cut=True, unwind=np + 1, unwindset="vp_bytes.0:%d,h_frame.0:%d,h_frame.1:%d,h_frame.2:6,h_frame.3:6" % (n + 1, np + 1, np + 1), flags=["--no-array-field-sensitivity"], bounds="%d packets in %d bytes, every bit pattern, embedded parsers consuming 0..20 bits and accepting or rejecting" % (np, n), **k)
QUERIES = [q("one", 14, 1), q("two", 16, 2)]
ASSUMPTIONS = ["bit reader replaced by its specification (C01)", "embedded packet parsers replaced by parsers that consume an arbitrary number of bits and accept or reject arbitrarily (they are decided by C03, C05, C11)"]
