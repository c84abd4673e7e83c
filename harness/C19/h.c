/* Multichannel coding tool side information. */
#include "vp.h"
#include "vp_all.h"
static int may_refuse;
static void vp_on_longjmp(int code) { vp_assert(may_refuse, "data that fits is not refused"); }
#ifdef VP_ND_HOOK
static int nr, n5; /* fixed: no filling, whether the pair list is sent, its length, the band layout */
static int vp_nd_hook(int n)
{
  int k = nr++;
  if (k == 0) return 0;
  if (k == 2 && !INDEP) return TREE;
  if (n == 5) return n5++ == !TREE ? MB : 1;
  k -= 2 + !INDEP + 2 * !TREE;
  if (k == 0) return MK;
  if (k == 1) return BW;
  if (k == 2 && (MK || BW)) return SH;
  return -1;
}
#endif
#include "vp_bits.h"
#include "books.h"
static ia_multichannel_data M;
static ia_sfb_info sfb;
static ia_sfb_info *SI[MAX_TIME_CHANNELS];
#ifndef NCH
#define NCH 2
#endif
#ifndef TYPE
#define TYPE 1
#endif
#define DEF(t) ((t) ? 48 : 0)
#ifndef BANDS
#define BANDS 0
#define DT 0
#endif
static void state(void)
{
  int i, j;
  for (i = 0; i < NCH; i++) { M.channel_map[i] = i; SI[i] = &sfb; }
  M.num_ch_to_apply = NCH; M.use_tool = 1;
  sfb.islong = vp_bool();
}
static int prev(void) { return TYPE ? vp_range(0, 64) : vp_range(-100000, 100000); }
#ifndef VP_BITS_ND
static int code(void) /* reference code word reader */
{
  int i, l;
  for (i = 0; i < (TYPE ? 65 : 121); i++) {
    l = TYPE ? ref_len_angle[i] : ref_len_scf[i];
    if (vp_peek(vp_pos, l) == (TYPE ? ref_code_angle[i] : ref_code_scf[i])) { vp_pos += l; return TYPE ? i : 60 - i; }
  }
  return -1;
}
static int wrap(int v) { return TYPE && v >= 65 ? v - 65 : v; }
/* one pair; the layout bits before the first code word are fixed by VP_PRE, the code words are not */
void h_one(void)
{
  int b, p0 = prev(), nb = 64, bw, dt, last;
  state();
  vp_bits_init(VP_N);
  M.prev_signal_type = TYPE; M.win_seq_is_long_prev[0] = sfb.islong;
  M.pair_coeffq_fb_prev[0] = p0;
  for (b = 0; b < 4; b++) M.pair_coeffq_sfb_prev[0][b] = prev();
  int pb[4] = {M.pair_coeffq_sfb_prev[0][0], M.pair_coeffq_sfb_prev[0][1], M.pair_coeffq_sfb_prev[0][2], M.pair_coeffq_sfb_prev[0][3]};
  vp_pos = VP_PRE_BITS;
  sfb.islong = M.win_seq_is_long_prev[0] = 1;
  vp_assert(impeghd_mc_parse(&M, vp_buf, VP_N, 0, SI, &vp_bb) == 0, "accepted");
  vp_assert(M.num_pairs == 1 && M.code_pairs[0][0] == 0 && M.code_pairs[0][1] == 1, "pair");
  vp_assert(M.signal_type == TYPE && M.bandwise_coeff_flag[0] == BANDS && M.b_delta_time[0] == DT, "layout");
#if BANDS == 0
  last = wrap((DT ? p0 : DEF(TYPE)) + code());
  for (b = 0; b < 64; b++) vp_assert(M.pair_coeffq_sfb[0][b] == last, "one coefficient for all bands");
  vp_assert(M.pair_coeffq_fb_prev[0] == last, "remembered for the next frame");
#else
  last = DEF(TYPE);
  for (b = 0; b < 2; b++) {
    last = wrap((DT ? pb[b] : last) + code());
    vp_assert(M.pair_coeffq_sfb[0][b] == last, "coefficient of the band");
    vp_assert(M.pair_coeffq_sfb_prev[0][b] == last, "remembered for the next frame");
  }
  vp_assert(M.pair_coeffq_sfb_prev[0][2] == DEF(TYPE) && M.pair_coeffq_sfb_prev[0][3] == DEF(TYPE), "bands without data start over");
  vp_assert(M.pair_coeffq_fb_prev[0] == DEF(TYPE), "full-band coefficient starts over");
#endif
  vp_assert(M.prev_signal_type == TYPE, "type remembered");
  vp_witness("parsed");
}
#else
/* arbitrary reads; any code word, or none where the data ends (the one-coefficient queries decide the code books) */
static int hv[70], hn, hmin = -1;
WORD32 impeghd_mc_decode_huffman(ia_bit_buf_struct *b, const WORD32 *c, const WORD32 *l, WORD32 limit) { int v = vp_range(hmin, limit - 1); if (hn < 70) hv[hn++] = v; return v; }
/* the memory of the coefficients over frames: any code words, masks and remembered values */
void h_mem(void)
{
  int b, n, w, k = 0, v, last, dv, fb, sb[64], changed, indep = INDEP;
  state();
  hmin = 0;
  sfb.islong = LNG;
  vp_bits_init(16);
  M.num_pairs = 1; M.code_pairs[0][1] = 1;
  M.prev_signal_type = vp_bool();
  M.win_seq_is_long_prev[0] = vp_bool();
  changed = M.win_seq_is_long_prev[0] != LNG;
  fb = M.pair_coeffq_fb_prev[0] = vp_range(0, 64);
  for (b = 0; b < 64; b++) sb[b] = M.pair_coeffq_sfb_prev[0][b] = vp_range(0, 64);
  if (impeghd_mc_parse(&M, vp_buf, 1, indep, SI, &vp_bb) || M.signal_type > 1 || M.num_pairs != 1) return;
  dv = M.signal_type ? 48 : 0;
  if (indep || changed) { fb = dv; for (b = 0; b < 64; b++) sb[b] = dv; }
  n = M.num_mask_band[0]; w = LNG ? n : n / 8;
#define NEW(l) (M.signal_type ? ((l) + hv[k] >= 65 ? (l) + hv[k] - 65 : (l) + hv[k]) : (l) - hv[k] + 60)
  if (!M.bandwise_coeff_flag[0]) {
    v = NEW(M.b_delta_time[0] ? fb : dv);
    k = 1;
    for (b = 0; b < n && b < 64; b++) {
      vp_assert(M.pair_coeffq_sfb[0][b] == v, "one coefficient for all bands");
      if (w) sb[b % w] = M.mask[0][b] ? v : dv;
    }
    fb = v;
  } else {
    for (b = 0; b < n && b < 64; b++) {
      if (w && M.b_delta_time[0]) last = sb[b % w];
      else if (!w ? !b : b % w == 0) last = dv;
      if (w && M.mask[0][b]) {
        v = NEW(last);
        vp_assert(M.pair_coeffq_sfb[0][b] == v, "coefficient of the band");
        k++; last = v;
      } else v = dv;
      if (w) sb[b % w] = v;
    }
    fb = dv;
  }
  for (b = w; b < 64; b++) sb[b] = dv;
  vp_assert(hn == k, "one code word per coefficient");
  vp_assert(M.pair_coeffq_fb_prev[0] == fb, "full-band coefficient kept for the next frame");
  for (b = 0; b < 64; b++) vp_assert(M.pair_coeffq_sfb_prev[0][b] == sb[b], "coefficient kept for the next frame, the default where there is none");
  vp_witness("memory");
}
void h_safe(void)
{
  int i, b, t, indep = INDEP, n0 = NB;
  state();
  sfb.islong = LNG;
#ifdef NOSFB /* a channel without band layout is refused */
  for (i = 0; i < NCH; i++) if (vp_bool()) SI[i] = 0;
#endif
  vp_bits_init(16);
  t = M.prev_signal_type = vp_bool();
  M.num_pairs = n0;
  for (i = 0; i < NB; i++) {
    M.code_pairs[i][1] = vp_range(1, NCH - 1); M.code_pairs[i][0] = vp_range(0, NCH - 1); vp_assume(M.code_pairs[i][0] < M.code_pairs[i][1]);
    M.win_seq_is_long_prev[i] = vp_bool();
    M.pair_coeffq_fb_prev[i] = vp_range(0, 64);
  }
  for (i = 0; i < NB; i++) for (b = 0; b < 64; b++) M.pair_coeffq_sfb_prev[i][b] = vp_range(0, 64);
  i = impeghd_mc_parse(&M, vp_buf, 1, indep, SI, &vp_bb);
  vp_assume(M.keep_tree == TREE);
  vp_assume(M.num_pairs <= NB);
  if (i) return;
  for (i = 0; i < NB; i++) if (i < M.num_pairs) {
    vp_assert(M.code_pairs[i][0] >= 0 && M.code_pairs[i][0] < M.code_pairs[i][1] && M.code_pairs[i][1] < NCH, "two different channels of the group");
    vp_assert(M.num_mask_band[i] >= 0 && M.num_mask_band[i] <= 64, "band count");
    if (M.signal_type == 1) for (b = 0; b < 64; b++) if (b < M.num_mask_band[i] && (M.mask[i][b] || !M.bandwise_coeff_flag[i]))
      vp_assert(M.pair_coeffq_sfb[i][b] >= 0 && M.pair_coeffq_sfb[i][b] <= 64, "angle within the table");
    if (M.signal_type == 1) {
      vp_assert(M.pair_coeffq_fb_prev[i] >= 0 && M.pair_coeffq_fb_prev[i] <= 64, "remembered angle within the table");
      for (b = 0; b < 64; b++) vp_assert(M.pair_coeffq_sfb_prev[i][b] >= 0 && M.pair_coeffq_sfb_prev[i][b] <= 64, "remembered angle within the table");
    }
    vp_assert(sfb.islong == M.win_seq_is_long_prev[i], "block type remembered");
  }
  vp_witness("parsed");
}
#endif
