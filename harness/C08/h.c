/* Loudspeaker configuration: CICP layouts, loudspeaker lists, local setup. */
#include "vp.h"
#include "vp_all.h"
static int expect_short;
static void vp_on_longjmp(int code) { vp_assert(expect_short, "data that fits is not refused"); }
#include "vp_bits.h"
/* azimuth, elevation, LFE of CICP loudspeaker positions 0..42 (11, 12 unused) */
static const short POS[43][3] = {
 {30,0,0},{-30,0,0},{0,0,0},{0,0,1},{110,0,0},{-110,0,0},{22,0,0},{-22,0,0},{135,0,0},{-135,0,0},{180,0,0},{0,0,0},{0,0,0},
 {90,0,0},{-90,0,0},{60,0,0},{-60,0,0},{30,35,0},{-30,35,0},{0,35,0},{135,35,0},{-135,35,0},{180,35,0},{90,35,0},{-90,35,0},
 {0,90,0},{45,-15,1},{45,-15,0},{-45,-15,0},{0,-15,0},{110,35,0},{-110,35,0},{45,35,0},{-45,35,0},{45,0,0},{-45,0,0},{-45,-15,1},
 {60,0,0},{-60,0,0},{30,0,0},{-30,0,0},{150,0,0},{-150,0,0}};
static const signed char LAY[21][25] = { /* CICP layout -> loudspeaker positions in channel order */
 {-1},{2,-1},{0,1,-1},{0,1,2,-1},{0,1,2,10,-1},{0,1,2,4,5,-1},{0,1,2,3,4,5,-1},{0,1,2,3,4,5,15,16,-1},{-1},{0,1,10,-1},{0,1,4,5,-1},
 {0,1,2,3,4,5,10,-1},{0,1,2,3,4,5,8,9,-1},{15,16,2,26,8,9,0,1,10,36,13,14,32,33,19,25,20,21,23,24,22,29,27,28,-1},
 {0,1,2,3,4,5,17,18,-1},{0,1,2,26,8,9,36,13,14,32,33,22,-1},{0,1,2,3,4,5,17,18,30,31,-1},{0,1,2,3,4,5,17,18,19,30,31,25,-1},
 {0,1,2,3,4,5,41,42,17,18,19,30,31,25,-1},{0,1,2,3,8,9,13,14,17,18,20,21,-1},{0,1,2,3,8,9,13,14,32,33,20,21,37,38,-1}};
static ia_interface_speaker_config_3d K;
static ia_local_setup_struct L;
static ia_signals_3d SG;
static struct { int type, idx, n, ids[24], ap, flags[24], ec[24], ea[24], az[24], lfe[24]; } R;
static int nlay(int k) { int i; for (i = 0; i < 24 && LAY[k][i] >= 0; i++); return i; }
#ifndef VP_BITS_ND
#ifdef NL
/* the reference: is the list valid, and where does it end */
static int parse_spk(int bits)
{
  int i;
#define NEED if (vp_pos > bits) { expect_short = 1; return 0; }
  R.type = vp_rd(2); NEED
  vp_assume(R.type == TYPE);
  if (R.type == 0) { R.idx = vp_rd(6); NEED return R.idx >= 1 && R.idx <= 20 && R.idx != 8; }
  if (R.type == 3) return 1;
  R.n = vp_rd(5);
  if (R.n == 31) { int e = vp_rd(8); R.n += e; if (e == 255) R.n += vp_rd(16); } NEED
  R.n++;
  if (R.n > 24) return 0;
  vp_assume(R.n <= NL);
  if (R.type == 1) {
    for (i = 0; i < NL; i++) if (i < R.n) { R.ids[i] = vp_rd(7); NEED }
    for (i = 0; i < NL; i++) if (i < R.n && R.ids[i] > 42) return 0;
    return 1;
  }
  R.ap = vp_rd(1); NEED
  for (i = 0; i < NL; i++) if (i < R.n) {
    int az, u = R.ap ? 1 : 5;
    R.flags[i] = vp_rd(1); NEED
    if (R.flags[i]) { R.ids[i] = vp_rd(7); NEED if (R.ids[i] > 42) return 0; az = POS[R.ids[i]][0]; }
    else {
      R.ids[i] = -1;
      R.ec[i] = vp_rd(2); NEED
      if (R.ec[i] == 3) {
        R.ea[i] = R.ap ? vp_rd(7) : vp_rd(5); NEED
        if (R.ea[i] * u > 90) return 0;
        if (R.ea[i]) { if (vp_rd(1)) R.ea[i] = -R.ea[i]; NEED }
      }
      az = (R.ap ? vp_rd(8) : vp_rd(6)) * u; NEED
      if (az > 180) return 0;
      if (az != 0 && az != 180) { if (vp_rd(1)) az = -az; NEED }
      R.az[i] = az;
      R.lfe[i] = vp_rd(1); NEED
    }
    if (az != 0 && az != 180) {
      int pair = vp_rd(1); NEED
      if (pair) {
        if (i + 1 >= R.n) return 0;
        vp_assume(!R.flags[i]); /* mirrored CICP positions are outside the claim */
        i++; R.flags[i] = 0; R.ids[i] = -1; R.ec[i] = R.ec[i - 1]; R.ea[i] = R.ea[i - 1]; R.az[i] = -R.az[i - 1]; R.lfe[i] = R.lfe[i - 1];
      }
    }
  }
  return 1;
}
static void check_spk(const ia_interface_speaker_config_3d *c)
{
  int i, lfes = 0, n;
  vp_assert(c->spk_layout_type == R.type, "layout type");
  if (R.type == 3) return;
  n = R.type == 0 ? nlay(R.idx) : R.n;
  if (R.type == 0) vp_assert(c->cicp_spk_layout_idx == R.idx, "layout index");
  vp_assert(c->num_speakers == (unsigned)n, "loudspeaker count");
  for (i = 0; i < 24; i++) if (i < n) {
    int id = R.type == 0 ? LAY[R.idx][i] : R.ids[i];
    const ia_ch_geometry *g = &c->geometry[i];
    vp_assert(g->cicp_loudspeaker_idx == id, "position index");
    if (id >= 0) {
      vp_assert(g->az == POS[id][0] && g->el == POS[id][1], "position of a CICP loudspeaker");
      vp_assert(!!g->lfe == POS[id][2], "LFE");
      lfes += POS[id][2];
    } else {
      vp_assert(g->az == R.az[i], "azimuth of a described loudspeaker");
      if (R.ec[i] == 3) vp_assert(g->el == R.ea[i], "elevation index of a described loudspeaker");
      vp_assert(g->lfe == R.lfe[i], "described LFE");
      lfes += R.lfe[i];
    }
  }
  vp_assert(c->num_lfes == lfes && c->num_ch == n - lfes, "channel and LFE counts");
}
void h_spk(void)
{
  int r, valid, bytes = vp_range(0, VP_N - 8), i;
  for (i = 0; i < NL; i++) { K.str_flex_spk_data.str_flex_spk_descr[i].az_direction = vp_range(0, 1); K.str_flex_spk_data.str_flex_spk_descr[i].el_direction = vp_range(0, 1); }
  vp_bits_init(bytes);
  vp_pos = 0;
  valid = parse_spk(bytes * 8);
  r = impeghd_speaker_config_3d(&vp_bb, &K);
  vp_assert(!expect_short, "truncated data does not return");
  vp_assert(!r == valid, "a loudspeaker configuration is accepted exactly when it names known positions");
  if (valid) { check_spk(&K); vp_assert(vp_used() == vp_pos, "cursor"); vp_witness("end"); }
}
#endif
#ifdef NLS
static int B;
#define NEEDV if (vp_pos > B) { expect_short = 1; goto run; }
void h_setup(void) /* loudspeaker rendering, layout named by CICP index */
{
  int i, r = 0, ok = 0, n = 0, lay = 0, dist, gain, known[NLS] = {0}, az[NLS] = {0}, el[NLS] = {0}, g[NLS] = {0}, track, ext, nw = 0, w[2] = {0}, scr = 0, cen, el_info, a = 0, b = 0, c = 0, d = 0;
  int bytes = vp_range(0, VP_N - 8);
  dist = gain = track = ext = cen = el_info = 0;
  vp_bits_init(bytes); B = bytes * 8; vp_pos = 0;
  SG.num_ch = vp_range(0, 24); SG.num_audio_obj = vp_range(0, 24);
  vp_assume(vp_rd(1) == 0); NEEDV
  n = vp_rd(16); NEEDV
  if (n > 24) goto run;
  vp_assume(n <= NLS);
  vp_assume(vp_rd(2) == 0);
  lay = vp_rd(6); NEEDV
  if (lay < 1 || lay > 20 || lay == 8) goto run;
  vp_assume(lay == LAYOUT);
  dist = vp_rd(1); gain = vp_rd(1); track = vp_rd(1); NEEDV
  for (i = 0; i < n; i++) {
    known[i] = vp_rd(1); NEEDV
    if (known[i]) { az[i] = vp_rd(9); el[i] = vp_rd(8); NEEDV }
    if (dist) { int v = vp_rd(1); NEEDV if (!v) goto run; }
    if (gain) { g[i] = vp_rd(1); NEEDV }
  }
  ext = vp_rd(1); NEEDV
  nw = vp_rd(16); NEEDV
  if (nw > SG.num_ch + (int)SG.num_audio_obj) goto run;
  vp_assume(nw <= 2);
  for (i = 0; i < nw; i++) { w[i] = vp_rd(16); NEEDV }
  scr = vp_rd(1); NEEDV
  if (scr) {
    cen = vp_rd(1); NEEDV
    if (cen) a = vp_rd(9); else { a = vp_rd(10); b = vp_rd(10); } NEEDV
    el_info = vp_rd(1); NEEDV
    if (el_info) { c = vp_rd(9); d = vp_rd(9); NEEDV }
  }
  ok = 1;
run:
  r = impeghd_3da_local_setup_information(&vp_bb, &L, SG);
  vp_assert(!expect_short, "truncated data does not return");
  vp_assert(!r == ok, "a local setup is accepted exactly when its counts and layout are allowed");
  if (!ok) return;
  vp_assert(vp_used() == vp_pos, "cursor");
  vp_assert(L.num_spk == (unsigned)n && L.use_tracking_mode == track && L.ext_dist_compensation == ext, "setup flags");
  vp_assert(!L.ptr_spk_gain == !gain && !L.ptr_spk_dist == !dist, "optional lists");
  for (i = 0; i < n; i++) {
    int z = az[i] - 256, e = el[i] - 128;
    vp_assert(L.has_knwn_pos[i] == known[i], "known position");
    if (known[i]) {
      if (z > 180) z = 180; if (z < -180) z = -180;
      if (e > 90) e = 90; if (e < -90) e = -90;
      vp_assert(L.loud_spk_azimuth[i] == z && L.loud_spk_elevation[i] == e, "known position is offset and limited");
    }
  }
  for (i = 0; i < nw; i++) vp_assert(L.wire_id[i] == (unsigned)w[i], "wire");
  vp_assert(L.has_local_screen_size_info == scr, "screen");
  if (scr) {
    if (cen) vp_assert(L.lcl_scrn_sz_az == a, "centred screen");
    else vp_assert(L.lcl_scrn_sz_left_az == a && L.lcl_scrn_sz_right_az == b, "screen edges");
    vp_assert(L.has_lcl_scrn_elevation_info == el_info, "elevation info");
    if (el_info) vp_assert(L.lcl_scrn_sz_top_el == c && L.lcl_scrn_sz_bottom_el == d, "screen height");
  }
  vp_witness("end");
}
#endif
#else
void s_setup(void)
{
  vp_bits_init(1);
  SG.num_ch = vp_range(0, 24); SG.num_audio_obj = vp_range(0, 24);
  K.spk_layout_type = 0;
#ifdef SPK
  if (!impeghd_speaker_config_3d(&vp_bb, &K) && K.spk_layout_type < 3) vp_assert(K.num_speakers <= 24, "no more than 24 loudspeakers");
#else
  L.pstr_binaural_renderer = 0;
  vp_assume(VP_ND_FIRST == 0);
  if (!impeghd_3da_local_setup_information(&vp_bb, &L, SG)) vp_assert(L.num_spk <= 24, "no more than 24 loudspeakers");
#endif
  vp_witness("end");
}
#endif
