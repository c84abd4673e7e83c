S = dict(jmp=True, cut=True, flags=["--no-array-field-sensitivity"])
_ = None
def tpl(fields):  # (value or None for symbolic, width)
    m = v = ""
    for x, n in fields:
        m += ("0" if x is None else "1") * n
        v += format(x or 0, "0%db" % n)
    f = lambda s: ",".join("0x%02x" % int((s + "0" * (-len(s) % 8))[i:i + 8], 2) for i in range(0, len(s), 8))
    return ["-DVP_TPL_MASK=" + f(m), "-DVP_TPL_VAL=" + f(v)], len(m)
U = "vp_bytes.0:%d,vp_bits_init.*:%d,ia_core_coder_mpegh_3da_config.*:18,ia_core_coder_map_ele_to_channel.*:25,memset.*:60,impeghd_compatible_profile_level_set.*:17,parse_ext.*:17"
def q(name, entry, fields, bounds, more=16, defs=(), u="", **k):
    td, bits = tpl(fields)
    n = (bits + more + 7) // 8
    return dict(S, name=name, entry=entry, defs=["-DVP_N=%d" % (n + 8), "-DVP_CONST_BITS", "-DVP_FIXLEN=%d" % n] + list(defs) + td, unwind=k.pop("unwind", 4), unwindset=U % (n + 9, n + 9) + u, bounds=bounds, **k)
def head(fi, grps, lay=((0, 2), (_, 6))):
    f = [(_, 8), (fi, 5)] + ([(_, 24)] if fi == 31 else []) + [(_, 3), (_, 2)] + list(lay) + [(len(grps) - 1, 5)]
    for t, n, d in grps:
        f += [(t, 3)] + ([(n - 1, 5)] if n < 32 else [(31, 5), (n - 32, 8)]) + ([(d, 1)] + ([(0, 2), (_, 6)] if d else []) if t == 0 else [(0, 1)] if t == 2 else [])
    return f + [(0, 4), (_, 1), (0, 2), (0, 1), (_, 2), (0, 1), (0, 1)]
def h(name, fi, grps, bounds, lay=((0, 2), (_, 6)), defs=()):
    return q("head_" + name, "h_head", head(fi, grps, lay), bounds, defs=["-DNGR=%d" % len(grps)] + list(defs), u=",ia_core_coder_config_extension.*:1")
def el(name, nch, els, bounds):  # (type, gap filling, shift)
    f = [(len(els) - 1, 4), (_, 1)]
    for t, g, s in els:
        nb = 4 if nch > 8 else 3 if nch > 4 else 2 if nch > 2 else 1
        f += [(t, 2)]
        if t == 2: continue
        f += [(_, 1), (_, 2), (g, 1)] + ([(_, 13 + (t == 1))] if g else [])
        if t == 1: f += [(_, 2), (s, 1)] + ([(_, nb)] if s else []) + [(_, 1)]
    return q("elements_" + name, "h_el", f, bounds, defs=["-DNCH=%d" % nch, "-DNEL=%d" % len(els)], unwind=6)
def x(ty, ln, body, bounds, name="", **k):
    e = lambda v: [(v, 4)] if v < 15 else [(15, 4), (v - 15, 8)]
    return q("extension_%d%s" % (ty, name or "_%d" % ln), "h_x", [(0, 2)] + e(ty) + e(ln) + body, bounds, defs=["-DXT=%d" % ty] + k.pop("defs", []), more=8 * ln + 8, u=",ia_core_coder_config_extension.*:24", **k)
R = "every reference layout, profile and rate flag"
QUERIES = [
  h("channels", 3, [(0, 6, 0)], "six channels, sampling frequency by index; every layout and profile"),
  h("rate", 31, [(0, 2, 0)], "two channels, explicit sampling frequency"),
  h("rate_refused", 9, [(0, 2, 0)], "reserved sampling frequency index", defs=["-DREFUSED"]),
  h("mixed", 4, [(0, 2, 0), (1, 3, 0)], "two channels and three objects"),
  h("hoa", 8, [(3, 9, 0), (0, 1, 0)], "nine transport channels and one channel"),
  h("group_layout", 5, [(0, 5, 0), (0, 2, 1)], "two channel groups, the second with a layout of its own"),
  h("many", 3, [(1, 24, 0)], "24 objects"),
  h("too_many", 3, [(0, 25, 0)], "25 channels", defs=["-DREFUSED"]),
  h("listed", 3, [(0, 2, 0)], "reference layout of two listed loudspeakers", lay=((1, 2), (1, 5), (_, 14)), defs=["-DLAYOUT=1"]),
  el("pair", 6, [(1, 0, 0)], "pair element"),
  el("single_lfe", 3, [(0, 0, 0), (2, 0, 0)], "single and LFE elements"),
  el("single_filled", 1, [(0, 1, 0)], "single element with gap filling"),
  el("pair_filled", 2, [(1, 1, 0)], "pair element with gap filling"),
] + [el("shift_%d" % n, n, [(1, 0, 1)], "%d channels, a shifted pair" % n) for n in (3, 5, 8, 9, 16)
] + [x(t, l, [], "one extension of type %d and %d bytes, every content" % (t, l)) for t, l in ((0, 3), (2, 2), (2, 20), (3, 3), (4, 3), (5, 2), (6, 4), (6, 1), (9, 5))] + [
  x(1, 2, [(0, 2)], "passive downmix configuration", name="_passive"),
  x(1, 3, [(2, 2), (1, 1), (_, 1), (1, 5), (_, 7), (0, 2), (_, 6)], "one downmix by layout", name="_layout"),
  x(1, 8, [(1, 2), (1, 5), (_, 7), (1, 2), (_, 6), (0, 1), (1, 1), (0, 4), (_, 10), (12, 8), (_, 12)], "one downmix by matrix", name="_matrix"),
  x(1, 8, [(1, 2), (1, 5), (_, 7), (1, 2), (_, 6), (0, 1), (0, 1), (_, 5), (255, 8), (255, 8), (1539, 12)], "a downmix matrix longer than its store", name="_matrix_long", defs=["-DREFUSED"]),
  x(7, 4, [(2, 4)], "three compatible profile levels"),
  x(7, 6, [(3, 4)], "four compatible profile levels and padding", name="_padding"),
] + [dict(S, name="ext_element_%d" % t, entry="h_ext", flags=["--no-array-field-sensitivity"], defs=["-DVP_N=22", "-DVP_MIN=0", "-DELT=%d" % t], unwind=15, unwindset="vp_bytes.0:23", bounds="extension element of type %d, every bit pattern and data length up to 14 bytes" % t) for t in (0, 3, 4, 5, 7, 9, 13, 14)
] + [dict(S, name="ext_element_other", entry="h_ext", flags=["--no-array-field-sensitivity"], defs=["-DVP_N=22", "-DVP_MIN=0"], unwind=15, unwindset="vp_bytes.0:23", bounds="extension elements of every type without a parser of its own")]
ASSUMPTIONS = ["bit reader replaced by its specification (C01)", "embedded scene, HOA and object metadata parsers consume any number of bits and may reject"]
