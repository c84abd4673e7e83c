/* The stream configuration: header, signals, elements, extensions, profile limits. */
#include "vp.h"
#include "vp_all.h"
static int expect_short;
static void vp_on_longjmp(int code) { vp_assert(expect_short, "data that fits is not refused"); }
#include "vp_bits.h"
#include "ia_core_coder_init_config.c"
#ifdef VP_FIXLEN
#define DATALEN VP_FIXLEN
#else
#define DATALEN vp_range(VP_MIN, VP_N - 8)
#endif
#ifndef NEL
#define NEL 1
#endif
#ifndef NGR
#define NGR 1
#endif
#ifndef NX
#define NX 1
#endif
#ifndef NCH
#define NCH 6
#endif
#ifndef LAYOUT
#define LAYOUT 0
#endif
static ia_mpegh_dec_state_struct D;
static ia_audio_specific_config_struct C;
static ia_mpegh_dec_config_struct P;
static ia_mae_audio_scene_info A;
static ia_usac_dec_element_config_struct E;
static const int NLS[21] = {0, 1, 2, 3, 4, 5, 6, 8, 0, 3, 4, 7, 8, 24, 8, 12, 10, 12, 14, 12, 14};
static const int FS[9] = {0, 0, 0, 48000, 44100, 32000, 24000, 22050, 16000};
static int eaten, fail;
static int eat(ia_bit_buf_struct *b) { ia_core_coder_skip_bits_buf(b, eaten); return fail ? IA_MPEGH_DEC_INIT_FATAL_ASI_PARSE_FAIL : 0; }
#define TAKES(e, f) { vp_pos += (e); if (vp_pos > B) { expect_short = 1; return 0; } if (f) return 0; }
static int asi, hm;
#ifdef REFUSED
#define END
#define REFUSE { vp_witness("refused"); return; }
#else
#define END vp_witness("end");
#define REFUSE return;
#endif
#ifndef VP_BITS_ND
IA_ERRORCODE impeghd_mae_asi_parse(ia_mae_audio_scene_info *p, ia_bit_buf_struct *b) { asi++; return eat(b); }
IA_ERRORCODE impeghd_hoa_matrix(ia_bit_buf_struct *b, WORD32 a1, WORD32 a2, WORD32 *a3, WORD32 *a4, FLOAT32 *a5, ia_hoa_matrix_struct *a6) { hm++; return eat(b); }
#endif
static int B; /* bits of data */
static struct {
  int prof, fs, fl, dc, ci, nls, ids[24], ng, gt[2], gs[2], gd[2], gl[2], hoa, obj, ch, ref, nel, lenp, et[4], ef[4][12], ext, nx, xt[3], xl[3], xp[3], sets, set[16], lc, bp, byte0;
  int pr[2], fp[2], dt, pas, imm, dn, id, ty, dci, mc, mg, gid[2], len, m0, m1;
} R;
#ifndef VP_BITS_ND
#define NEED if (vp_pos > B) { expect_short = 1; return 0; }
static int esc(int a, int b, int c)
{
  int v = vp_rd(a), w;
  if (v == (1 << a) - 1) { w = vp_rd(b); v += w; if (w == (1 << b) - 1 && c) v += vp_rd(c); }
  return v;
}
static int parse_head(void)
{
  int bad = 0;
  int i, fi;
  R.prof = vp_rd(8); fi = vp_rd(5); 
  if (fi == 31) { R.fs = vp_rd(24);  } else { if (fi > 8) bad = 1; R.fs = fi > 8 ? 0 : FS[fi]; }
  if (R.fs == 0 || R.fs > 48000) bad = 1;
  R.fl = vp_rd(3); 
  if (R.fl > 4) bad = 1;
  vp_rd(1); R.dc = vp_rd(1);
  i = vp_rd(2); 
  vp_assume(i == LAYOUT);
  if (LAYOUT == 0) { R.ci = vp_rd(6);  vp_assume(R.ci != 8); if (R.ci < 1 || R.ci > 20) bad = 1; R.ref = NLS[R.ci > 20 ? 0 : R.ci]; }
  else {
    R.nls = esc(5, 8, 16) + 1; 
    if (R.nls > 24) bad = 1;
    vp_assume(R.nls <= 2);
    for (i = 0; i < 2; i++) if (i < R.nls) { R.ids[i] = vp_rd(7);  if (R.ids[i] > 42) bad = 1; }
    R.ref = R.nls;
  }
  R.ng = vp_rd(5) + 1; 
  if (R.ng > 16) bad = 1;
  vp_assume(R.ng <= NGR);
  for (i = 0; i < NGR; i++) if (i < R.ng) {
    int n;
    R.gt[i] = vp_rd(3); n = esc(5, 8, 16) + 1; 
    R.gs[i] = n;
    switch (R.gt[i]) {
    case 0:
      R.ch += n;
      if (R.ch > 24) bad = 1;
      R.gd[i] = vp_rd(1); 
      if (R.gd[i]) {
        vp_assume(LAYOUT == 0);
        vp_assume(vp_rd(2) == 0); 
        R.gl[i] = vp_rd(6); 
        if (R.gl[i] > 20) bad = 1;
        if (R.gl[i] <= 20 && NLS[R.gl[i]] != R.ch && NLS[R.gl[i]] > R.ref) bad = 1;
      }
      break;
    case 1: if (n > 24) bad = 1; R.obj += n; break;
    case 2: if (vp_rd(1)) vp_rd(2);  break;
    case 3: if (n > 24) bad = 1; R.hoa += n; break;
    default: bad = 1;
    }
  }
  if (R.ng > 1 && !R.dc) for (i = 1; i < NGR; i++) if (i < R.ng && R.gt[i] != R.gt[i - 1]) bad = 1;
  return !bad;
}
static int parse_elems(void)
{
  int bad = 0;
  int k, i, t = R.hoa + R.obj + R.ch, nb = t > 8 ? 4 : t > 4 ? 3 : t > 2 ? 2 : 1;
  R.nel = esc(4, 8, 16) + 1; 
  if (R.nel > 50) bad = 1;
  vp_assume(R.nel <= NEL);
  R.lenp = vp_rd(1); 
  for (k = 0; k < NEL; k++) if (k < R.nel) {
    int *f = R.ef[k];
    R.et[k] = vp_rd(2); 
    vp_assume(R.et[k] != 3);
#ifdef ONLY_SCE
    vp_assume(R.et[k] == 0);
#endif
    if (R.et[k] != 2) {
    if (vp_rd(1)) {  bad = 1; }
    f[0] = vp_rd(1); f[1] = vp_rd(1); f[2] = vp_rd(1); 
    if (f[2]) {
      for (i = 3; i < 7; i++) f[i] = vp_rd(1);
      f[7] = vp_rd(5); f[8] = vp_rd(4);
      f[9] = R.et[k] == 1 ? vp_rd(1) : 1; 
    }
    if (R.et[k] == 1) {
      if (vp_rd(2)) {  bad = 1; }
      if (vp_rd(1)) vp_rd(nb);
      f[10] = vp_rd(1); 
    }
    }
  }
  if (t > 16 || R.ref > 16) for (k = 0; k < NEL; k++) if (k < R.nel && (R.et[k] != 0 || R.ef[k][1] || R.ef[k][2])) bad = 1;
  return !bad;
}
static int parse_dmx(void)
{
  int i, t;
  R.dt = vp_rd(2); NEED
  if (R.dt == 3) return 0;
  if (R.dt != 1) { R.pas = vp_rd(1); NEED if (!R.pas) { t = vp_rd(3); NEED if (t) return 0; } R.imm = vp_rd(1); NEED }
  if (R.dt == 0) return 1;
  R.dn = vp_rd(5); NEED
  if (R.dn > 6) return 0;
  vp_assume(R.dn <= 1);
  if (!R.dn) return 1;
  R.id = vp_rd(7); R.ty = vp_rd(2); NEED
  if (R.id == 0 || R.id == 127) return 0;
  if (R.ty > 1) return 0;
  R.dci = vp_rd(6); NEED
  if (R.ty == 1) {
    R.mc = esc(1, 3, 0) + 1; NEED
    if (R.mc > 8) return 0;
    vp_assume(R.mc == 1);
    R.mg = esc(1, 4, 4) + 1; NEED
    if (R.mg > 16) return 0;
    vp_assume(R.mg <= 2);
    for (i = 0; i < 2; i++) if (i < R.mg) R.gid[i] = vp_rd(5);
    R.len = esc(8, 8, 12); NEED
    if (R.len > 2048) return 0;
    vp_assume(R.len <= 15);
    if (R.len >= 8) R.m0 = vp_rd(8);
    t = R.len & 7;
    if (t) { int v = vp_rd(t) << (8 - t); if (R.len >= 8) R.m1 = v; else R.m0 = v; } NEED
  }
  return R.dci <= 20;
}
static int parse_ext(void)
{
  int k, i;
  R.nx = esc(2, 4, 8) + 1; NEED
  if (R.nx > 5) return 0;
  vp_assume(R.nx <= NX);
  for (k = 0; k < NX; k++) if (k < R.nx) {
    int start;
    R.xt[k] = esc(4, 8, 16); R.xl[k] = esc(4, 8, 16); NEED
    if (R.xl[k] > 1536) return 0;
#ifdef XT
    if (k == 0) vp_assume(R.xt[0] == XT);
    if (k == 1) vp_assume(R.xt[1] == 2 || R.xt[1] == 5);
#endif
    start = vp_pos;
    switch (R.xt[k]) {
    case 0: for (i = 0; i < 3; i++) if (i < R.xl[k]) { int v = vp_rd(8); NEED if (v != 0xa5) return 0; } vp_assume(R.xl[k] <= 3 || start + 8 * R.xl[k] > B); if (start + 8 * R.xl[k] > B) { expect_short = 1; return 0; } break;
    case 1: if (!parse_dmx()) return 0; break;
    case 2: R.byte0 = vp_peek(vp_pos, 8); break;
    case 3: if (A.num_switch_groups > 0 && R.lenp != 1) return 0; TAKES(eaten, fail) break;
    case 4: TAKES(eaten, fail) break;
    case 6: for (i = 0; i < NGR; i++) if (i < R.ng) { R.pr[i] = vp_rd(3); R.fp[i] = vp_rd(1); NEED } break;
    case 7:
      R.sets = vp_rd(4) + 1; vp_rd(4); NEED
      R.lc = 15; R.bp = 20;
      for (i = 0; i < 16; i++) if (i < R.sets) { int v = vp_rd(8); NEED R.set[i] = v; if (v >= 11 && v <= 15 && v < R.lc) R.lc = v; if (v >= 16 && v <= 20 && v < R.bp) R.bp = v; }
      break;
    }
    if (vp_pos < start + 8 * R.xl[k]) vp_pos = start + 8 * R.xl[k];
    if (vp_pos > B) { if (R.xt[k] == 5 || R.xt[k] > 7) return 0; expect_short = 1; return 0; }
  }
  return 1;
}
static int profile_ok(void)
{
  int p = R.prof, core = R.hoa + R.obj + R.ch, k, x = core > R.ref ? core : R.ref;
  if (p < 11) return 0;
  for (k = 0; k < NX; k++) if (R.ext && k < R.nx && R.xt[k] == 7) { if (R.bp <= 18) p = R.bp; else if (R.lc <= 13) p = R.lc; }
  R.prof = p;
  switch (p) {
  case 11: case 16: return x <= 5;
  case 12: case 17: return x <= 9;
  case 13: case 18: return x <= (R.hoa || R.ch ? 16 : 24);
  }
  return 0;
}
static void setup(int *bytes)
{
  *bytes = DATALEN;
  B = *bytes * 8;
  vp_bits_init(*bytes);
  D.ia_audio_specific_config = &C; D.p_config = &P;
  eaten = vp_range(0, 12); fail = vp_bool();
}
#define U (&C.str_usac_config)
/* header, layout and signal groups of the whole configuration; one plain element, no extension */
void h_head(void)
{
  int i, k, r, ok, bytes;
  const ia_usac_config_struct *u = U;
  setup(&bytes);
  P.ui_cicp_layout_idx = vp_range(0, 20);
  ok = parse_head();
  ok &= parse_elems();
  vp_assume(vp_rd(1) == 0);
  ok &= profile_ok();
  r = ia_core_coder_mpegh_3da_config(&vp_bb, &D, &A);
  vp_assert(!r == ok, "a configuration is accepted exactly when its values are allowed and the profile level covers it");
  if (!ok) REFUSE
  vp_assert(vp_used() == vp_pos, "cursor");
  vp_assert(u->usac_sampling_frequency == (unsigned)R.fs && P.ui_samp_freq == R.fs && C.sampling_frequency == (unsigned)R.fs, "sampling frequency");
  vp_assert(u->core_sbr_framelength_index == (unsigned)R.fl && u->receiver_delay_compensation == (unsigned)R.dc, "frame length index, delay flag");
  vp_assert(C.ref_spk_layout.spk_layout_type == LAYOUT, "layout type");
  if (LAYOUT == 0) vp_assert(C.ref_spk_layout.cicp_spk_layout_idx == R.ci, "layout");
  else { vp_assert(C.ref_spk_layout.num_speakers == R.nls, "speakers"); for (i = 0; i < 2; i++) if (i < R.nls) vp_assert(C.ref_spk_layout.cicp_spk_idx[i] == R.ids[i], "speaker"); }
  vp_assert(u->signals_3d.num_sig_group == (unsigned)R.ng, "groups");
  for (i = 0, k = 0; i < NGR; i++) if (i < R.ng) {
    vp_assert(u->signals_3d.group_type[i] == (unsigned)R.gt[i] && u->signals_3d.num_sig[i] == (unsigned)R.gs[i], "group type and size");
    if (R.gt[i] == 0) {
      vp_assert(u->signals_3d.differs_from_ref_layout[i] == (unsigned)R.gd[i], "differs");
      if (R.gd[i]) vp_assert(u->signals_3d.audio_ch_layout[k].cicp_spk_layout_idx == R.gl[i], "group layout");
      k++;
    }
  }
  vp_assert(u->signals_3d.num_ch == (unsigned)R.ch && u->num_out_channels == R.ch && u->signals_3d.num_audio_obj == (unsigned)R.obj && u->signals_3d.num_hoa_transport_ch == (unsigned)R.hoa, "signal counts");
  vp_assert(C.channel_configuration == (unsigned)R.ch && D.ch_config == (unsigned)R.ch, "channel configuration");
  vp_assert(u->str_usac_dec_config.mpegh_profile_lvl == R.prof, "profile");
  END
}
/* the elements */
void h_el(void)
{
  int k, r, ok, bytes;
  const ia_usac_decoder_config_struct *d = &U->str_usac_dec_config;
  setup(&bytes);
  U->signals_3d.num_ch = R.ch = NCH;
  ok = parse_elems();
  r = ia_core_coder_decoder_config(&vp_bb, U);
  vp_assert(!r == ok, "elements are accepted exactly when their values are allowed");
  if (!ok) REFUSE
  vp_assert(vp_used() == vp_pos, "cursor");
  vp_assert(d->num_elements == (unsigned)R.nel && d->ele_length_present == R.lenp, "elements");
  for (k = 0; k < NEL; k++) if (k < R.nel) {
    const ia_usac_dec_element_config_struct *e = &d->str_usac_element_config[k];
    int *f = R.ef[k];
    vp_assert(d->usac_element_type[k] == (unsigned)R.et[k], "element type");
    if (R.et[k] == 2) { vp_assert(!e->noise_filling && !e->tw_mdct && !e->stereo_config_index, "LFE element"); continue; }
    vp_assert(e->full_band_lpd == (unsigned)f[0] && e->noise_filling == (unsigned)f[1] && e->enhanced_noise_filling == (unsigned)f[2], "element tools");
    if (f[2]) vp_assert(e->str_usac_ele_igf_init_config.igf_use_enf == f[3] && e->str_usac_ele_igf_init_config.igf_use_high_resolution == f[4] && e->str_usac_ele_igf_init_config.igf_use_whitening == f[5] && e->str_usac_ele_igf_init_config.igf_after_tns_synth == f[6]
      && e->str_usac_ele_igf_init_config.igf_start_index == f[7] && e->str_usac_ele_igf_init_config.igf_stop_index == f[8] && e->str_usac_ele_igf_init_config.igf_independent_tilling == f[9], "gap filling configuration");
    if (R.et[k] == 1) vp_assert(e->lpd_stereo_index == (unsigned)f[10], "lpd stereo");
  }
  END
}
/* the configuration extensions */
void h_x(void)
{
  int i, k, r, ok, bytes, lay = vp_range(0, 20);
  ia_usac_config_struct *u = U;
  ia_usac_decoder_config_struct *d = &u->str_usac_dec_config;
  setup(&bytes);
  A.num_switch_groups = vp_range(0, 1);
  U->signals_3d.num_sig_group = R.ng = vp_range(1, NGR);
  d->ele_length_present = R.lenp = vp_bool();
  R.ext = 1;
  ok = parse_ext();
  r = ia_core_coder_config_extension(&vp_bb, d, &u->signals_3d, &A, lay);
  vp_assert(!expect_short, "truncated data does not return");
  vp_assert(!r == ok, "extensions are accepted exactly when their lengths and values are allowed");
  if (!ok) REFUSE
  vp_assert(vp_used() == vp_pos, "cursor");
    int na = 0, nm = 0;
    vp_assert(d->num_config_extensions == (unsigned)R.nx, "extensions");
    for (k = 0; k < NX; k++) if (k < R.nx) {
      vp_assert(d->usac_cfg_ext_info_type[k] == R.xt[k], "extension type");
      if (R.xt[k] == 3) { na++; vp_assert(A.asi_present == 1, "scene present"); }
      if (R.xt[k] == 4) nm++;
      if (R.xt[k] == 2) { vp_assert(d->usac_cfg_ext_info_len[k] == R.xl[k] && d->usac_cfg_ext_info_present[k] == 1, "loudness data kept"); }
      if (R.xt[k] == 6) for (i = 0; i < NGR; i++) if (i < R.ng) vp_assert(u->signals_3d.group_priority[i] == (unsigned)R.pr[i] && u->signals_3d.fixed_position[i] == (unsigned)R.fp[i], "group info");
      if (R.xt[k] == 7) { vp_assert(d->str_compatible_profile_config.compat_lc_lvl == (unsigned)R.lc && d->str_compatible_profile_config.compat_bp_lvl == (unsigned)R.bp, "lowest compatible levels"); }
    }
    vp_assert(asi == na && hm == nm, "embedded configurations are parsed once each");
    if (NX == 1 && R.xt[0] == 2 && R.xl[0]) vp_assert(d->usac_cfg_ext_info_buf[0][0] == R.byte0, "first loudness byte");
    if (NX == 1 && R.xt[0] == 1) {
      const ia_usac_ext_cfg_dmx_cfg *m = &d->dmx_cfg;
      vp_assert(m->dmx_config_type == (unsigned)R.dt, "downmix type");
      if (R.dt != 1) vp_assert(m->passive_dmx_flag == (unsigned)R.pas && m->immersive_downmix_flag == (unsigned)R.imm, "downmix flags");
      if (R.dt) vp_assert(m->downmix_id_count == (unsigned)R.dn, "downmix count");
      if (R.dt && R.dn) {
        vp_assert(m->dmx_matrix[0].dmx_id == R.id && m->dmx_matrix[0].dmx_type == R.ty && m->dmx_matrix[0].cicp_spk_layout_idx == R.dci, "downmix");
        if (R.ty == 1) {
          vp_assert(m->dmx_matrix[0].downmix_mtx_count == 1 && m->dmx_matrix[0].num_assigned_group_ids[0] == R.mg && m->dmx_matrix[0].dmx_matrix_len_bits[0] == R.len, "downmix matrix");
          for (i = 0; i < 2; i++) if (i < R.mg) vp_assert(m->dmx_matrix[0].signal_group_id[0][i] == R.gid[i], "downmix group");
          if (R.len) vp_assert((uint8_t)m->dmx_matrix[0].downmix_matrix[0][0] == R.m0, "matrix byte 0");
          if (R.len > 8) vp_assert((uint8_t)m->dmx_matrix[0].downmix_matrix[0][1] == R.m1, "matrix byte 1");
        }
      }
    }
  
  END
}
/* extension element configuration */
static int calls, what;
static int sub(ia_bit_buf_struct *b, int w) { calls++; what = w; return eat(b); }
IA_ERRORCODE impeghd_enh_obj_md_config(ia_enh_oam_config_struct *c, ia_bit_buf_struct *b, WORD32 n) { return sub(b, 13); }
IA_ERRORCODE impeghd_fill_config(ia_bit_buf_struct *b, ia_hoa_config_struct *c) { return sub(b, 7); }
IA_ERRORCODE impeghd_obj_md_cfg(ia_oam_dec_config_struct *c, ia_bit_buf_struct *b, WORD32 l, WORD32 n) { return sub(b, 5); }
static UWORD8 pay[1536 + 8];
static int parse_el(int *ty, int *len, int *def, int *frag, int *rd, int *d0, int idx)
{
  int fl, start;
  ia_signals_3d *s = &C.str_usac_config.signals_3d;
  *ty = esc(4, 8, 16); *len = esc(4, 8, 16); NEED
#ifdef ELT
  vp_assume(*ty == ELT);
#else
  vp_assume(*ty != 14 && *ty != 13 && *ty != 7 && *ty != 5 && *ty != 4 && *ty != 9);
#endif
  if (*len >= 1536) return 0;
  fl = vp_rd(1); NEED
  *def = fl ? esc(8, 16, 0) + 1 : 0;
  *frag = vp_rd(1); NEED
  start = vp_pos;
  switch (*ty) {
  case 14:
    *rd = vp_rd(1) ? vp_rd(7) : -1; NEED
    vp_pos += s->num_obj_based_groups + s->num_ch_based_groups; NEED
    break;
  case 13: case 5: if (s->num_audio_obj > 24) return 0; TAKES(eaten, fail) break;
  case 7: TAKES(eaten, fail) break;
  case 4: case 9: if (*frag) return 0; if (*ty == 9 && !*len) return 0; *d0 = vp_peek(vp_pos, 8); vp_pos += 8 * *len; NEED break;
  case 3: return idx == 0 && !*frag && !fl && !*len;
  case 0: return !*len && !*frag;
  default: if (vp_pos + 8 * *len > B && (B - vp_pos) / 8 < *len) return 0; vp_pos += 8 * *len; return 1;
  }
  if (vp_pos > start + 8 * *len) return 0;
  vp_pos = start + 8 * *len; NEED
  return 1;
}
void h_ext(void)
{
  int ty, len, def, frag, rd = 0, d0 = 0, r, ok, idx = vp_range(0, 49), bytes = vp_range(0, VP_N - 8);
  WORD32 plen = 77, pre = 0, pty = -1;
  ia_usac_config_struct *u = &C.str_usac_config;
  B = bytes * 8;
  vp_bits_init(bytes);
  eaten = vp_range(0, 20); fail = vp_bool();
  u->signals_3d.num_audio_obj = vp_range(0, 30);
  u->signals_3d.num_obj_based_groups = vp_range(0, 2); u->signals_3d.num_ch_based_groups = vp_range(0, 2);
  ok = parse_el(&ty, &len, &def, &frag, &rd, &d0, idx);
  r = ia_core_coder_ext_element_config(&vp_bb, &E, pay, &plen, &pre, &pty, u, 1024, idx);
  vp_assert(!expect_short, "truncated data does not return");
  vp_assert(!r == ok, "an extension element configuration is accepted exactly when its length covers its content");
  if (!ok) REFUSE
  vp_assert(vp_used() == vp_pos, "cursor");
  vp_assert(pty == ty && E.usac_ext_eleme_def_len == (unsigned)def && E.usac_ext_elem_pld_frag == (unsigned)frag, "type, default length, fragmentation");
  vp_assert(pre == (ty == 3), "preroll flag");
  vp_assert(calls == (ty == 13 || ty == 5 || ty == 7) && (!calls || what == ty), "the matching parser runs once");
  vp_assert(plen == (ty == 4 || ty == 9 || ty == 7 || ty == 5 ? len : 0), "payload length");
  if ((ty == 4 || ty == 9) && len) vp_assert(pay[0] == d0, "payload is kept");
  if (ty == 14) vp_assert(u->str_prod_metat_data.bs_reference_distance == (unsigned)(rd < 0 ? 57 : rd), "reference distance");
  END
}
#endif
