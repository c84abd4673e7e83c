S = ["ia_core_coder_bitbuffer.c", "ia_core_coder_common_initfuncs.c"]
def q(name, entry, **k):
    d = dict(name=name, entry=entry, sources=S, jmp=True, unwind=34, checks=["mem", "div", "shift"])
    d.update(k)
    d.setdefault("bounds", "window of 0..8 bytes, every bit offset, request widths 1..24 (skip: 0..2^20)")
    return d
QUERIES = [
    q("read", "h_read", defs=["-DMAXN=32"]),
    q("show", "h_show", defs=["-DMAXN=32"]),
    q("read32", "h_read32", defs=["-DMAXN=32", "-DWHOLE32"]),
    q("skip", "h_skip", defs=["-DMAXN=32"]),
    q("create", "h_create", defs=["-DMAXN=32"]),
]
FUNCTIONS = ["ia_core_coder_read_bits_buf", "ia_core_coder_show_bits_buf", "ia_core_coder_read_bits_buf_32",
             "ia_core_coder_skip_bits_buf", "ia_core_coder_create_bit_buf", "ia_core_coder_create_init_bit_buf"]
ASSUMPTIONS = []
