/* temporal noise shaping side information */
#include "vp.h"
#include "vp_all.h"
static int expect_short;
static void vp_on_longjmp(int code) { vp_assert(expect_short, "side information that fits is read"); }
#include "vp_bits.h"
static ia_tns_frame_info_struct T;
static ia_sfb_info_struct S;
static void chk(ia_tns_info_struct *t, int nf, int nb, int no, int sfb)
{
  int f, k, top = sfb, n = vp_rd(nf), res;
  vp_assert((t->n_filt) == (int)(n), "number of filters");
  if (!n) return;
  res = 3 + vp_rd(1);
  vp_assert((t->coef_res) == (int)(res), "coefficient resolution");
  for (f = 0; f < MF; f++) if (f < n) {
    ia_tns_filter_struct *q = &t->str_filter[f];
    int o, r;
    vp_assert((q->stop_band) == (int)(top), "a filter ends where the one above it starts");
    top -= vp_rd(nb);
    if (top < 0) top = 0;
    vp_assert((q->start_band) == (int)(top), "a filter spans the signalled number of bands, down to band 0 at most");
    o = vp_rd(no);
    vp_assert((q->order) == (int)(o), "order");
    if (!o) continue;
    vp_assert((q->direction) == (int)(vp_rd(1)), "direction");
    r = res - vp_rd(1);
    for (k = 0; k < MO; k++) if (k < o) {
      int v = vp_rd(r);
      if (v >> (r - 1)) v -= 1 << r;
      vp_assert((q->coef[k]) == (int)(v), "coefficients are two's complement numbers of the signalled width");
    }
  }
}
static void limit(void)
{
#if MO < 7 && MF > 1
  int f, p = vp_pos, o; /* only look ahead, then rewind */
  vp_rd(3);
  for (f = 0; f < MF; f++) { vp_rd(6); o = vp_rd(4); vp_assume(o <= MO); if (o) { vp_rd(1); o *= (vp_buf[0] >> 5 & 1) + 3 - vp_rd(1); vp_pos += o; } }
  vp_pos = p;
#endif
}
void h_tns(void)
{
  int r, j;
  vp_bits_init(VP_N);
  S.islong = ISLONG; S.max_win_len = NW;
  S.sfb_per_sbk = vp_range(0, 49);
  /* longer filters than the query's bound are left to another query: the stream ends early there */
  limit();
#ifdef TCX
  r = ia_core_coder_read_tns_tcx(S.sfb_per_sbk, &T, &vp_bb, 2);
  vp_assert(r == 0, "accepted");
  chk(&T.str_tns_info[2], 1, 4, 3, S.sfb_per_sbk);
  vp_assert((T.n_subblocks) == (int)(1), "one block");
#else
  r = ia_core_coder_read_tns_u(&S, &T, &vp_bb);
  vp_assert(r == 0, "accepted");
  vp_assert((T.n_subblocks) == (int)(NW), "one description per window");
  for (j = 0; j < NW; j++) chk(&T.str_tns_info[j], ISLONG ? 2 : 1, ISLONG ? 6 : 4, ISLONG ? 4 : 3, S.sfb_per_sbk);
#endif
  vp_assert(vp_used() == vp_pos, "reads exactly its bits");
  if (vp_pos > MINB) vp_witness("a full description");
}
