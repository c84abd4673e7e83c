S = dict(jmp=True, flags=["--no-array-field-sensitivity"])
R = dict(S, flags=["--max-field-sensitivity-array-size", "520"], timeout=600, entry="h_row", sources=["ia_core_coder_arith_dec.c"], nostatic=["ia_core_coder_arith_dec.c"], stub=["ia_core_coder_arith_get_pk", "ia_core_coder_arith_first_symbol", "ia_core_coder_arith_decode"], cut=True)
def row(n, prev, lev, bounds, bytes=3, **k):
    return dict(R, name="row_%d_%d_%d" % (n, prev, lev), defs=["-DN=%d" % n, "-DPREV=%d" % prev, "-DMAXLEV=%d" % lev, "-DVP_N=%d" % (bytes + 8)], unwind=max(n, prev, 12, (n // 2) * (2 * lev + 1) + 2) + 2 + lev, unwindset="vp_bytes.0:%d" % (bytes + 9), bounds=bounds, **k)
QUERIES = [
  dict(S, name="context_table", entry="h_pk", defs=["-DINC"], unwind=743, unwindset="ia_core_coder_arith_get_pk.0:11", bounds="every context below 2^20"),
  row(8, 8, 0, "four pairs without escapes, every context and symbol"),
  row(4, 4, 1, "two pairs with up to one escape each"),
  row(8, 16, 0, "four pairs after a row of eight"),
  row(8, 4, 0, "four pairs after a row of two"),
  row(2, 2, 8, "one pair with up to eight escapes"),
]
def step(name, n, k, low, high, bounds, **kw):
    return dict(S, name=name, entry="h_step", defs=["-DSTEP=%d" % n, "-DKLO=%d" % k, "-DKN=1", "-DVP_N=11", "-DLOW=%s" % low, "-DHIGH=%s" % high], unwind=19, checks=["bounds"], unwindset="vp_bytes.0:12", bounds=bounds, **kw)
for k, lo, hi in ((0, 0, 65535), (31, 16383, 49152), (63, 0, 32768), (17, 32767, 65535), (44, 16384, 49153)):
    QUERIES.append(step("symbol_%d" % k, 17, k, lo, hi, "table %d, interval %d..%d, every value and bit pattern" % (k, lo, hi)))
QUERIES.append(step("low_bits", 4, 0, 1000, 60001, "the three low-bit tables, one interval, every value and bit pattern"))
def dq(name, long, tb, tbn, ccfl, off, mx, lo, sym, wide, igf, bounds, nmx="vp_range(0,4)", nf="vp_bool()", nlev=5):
    return dict(S, name=name, entry="h_dq", sources=["ia_core_coder_rom.c"], defs=["-DDQ", "-DLONG=%d" % long, "-DTB={%s}" % ",".join(map(str, tb)), "-DTBN=%d" % tbn, "-DCCFL=%d" % ccfl, "-DOFF=%d" % off, "-DMAXSFB=%d" % mx, "-DLO=%d" % lo, "-DSYM=%d" % sym, "-DWIDE=%d" % wide, "-DIGF=%d" % igf, "-DNMX=%s" % nmx, "-DNF=%s" % nf, "-DNLEV=%d" % nlev], unwind=max(tbn * (1 if long else 3), 25) + 2, bounds=bounds, timeout=600)
QUERIES += [
  dict(S, name="tables", entry="h_table", sources=["ia_core_coder_rom.c"], defs=["-DDQ", "-DLONG=1", "-DTB={1,2,3,4}", "-DTBN=4", "-DCCFL=1024", "-DOFF=0", "-DMAXSFB=1", "-DLO=0", "-DSYM=0", "-DWIDE=0", "-DIGF=0", "-DNMX=0", "-DNF=1", "-DNLEV=0"], unwind=1025, bounds="every entry"),
  dq("dequant_values", 1, (2, 4, 5, 6), 8, 1024, 160, 4, 1, 3, 1, 0, "every value of three lines over two of four bands, every scale factor and noise setting"),
]
ASSUMPTIONS = ["bit reader replaced by its specification (C01)"]
