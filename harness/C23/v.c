/* Binaural rendering: convolution of the loudspeaker signals over consecutive calls */
#include "vp_all.h"
#include "vx.h"
static ia_binaural_render_struct H;
static ia_binaural_renderer R;
static ia_binaural_representation_str Q;
static ia_binaural_scratch S;
static FLOAT32 in[8][256], out[2][1024], *inp[8], *outp[2];
static unsigned seed = 1;
/* the loudspeakers of a layout (C08 covers the real one) */
IA_ERRORCODE impeghd_fill_ls_geom_frm_cicp_spk_idx(WORD32 i, ia_ch_geometry *g, pWORD32 n, pWORD32 l)
{
  static const int az[6] = {30, -30, 0, 0, 110, -110};
  int c;
  for (c = 0; c < 6; c++) { g[c].az = az[c]; g[c].el = c == 3 ? -15 : 0; g[c].lfe = c == 3; }
  *n = 6; *l = 1;
  return i != 6;
}
static FLOAT32 rnd(void) { seed = seed * 1103515245u + 12345u; return (FLOAT32)((int)(seed >> 16 & 255) - 128) / 256; }
/* channels, direct length, diffuse blocks, calls, cut-off in 1/8 (direct, diffuse), loudspeaker set-up or HOA, prefill, call lengths */
void h_bin(void)
{
  int n = vx_param(0), len = vx_param(1), nb = vx_param(2), calls = vx_param(3), c, e, b, t, k;
  static ia_binaural_in_stream_cfg_str W;
  ia_td_binaural_ren_param_str *p = &Q.td_binaural_ren_param;
  ia_binaural_ren_pers_mem_str *m = &H.str_binaural;
  p->num_channel = n; p->len_direct = len; p->num_diffuse_block = nb;
  for (e = 0; e < 2; e++) for (c = 0; c < n; c++) { p->ptr_direct_fc[e][c] = (FLOAT32)vx_param(4) / 8; for (t = 0; t < len; t++) p->ptr_taps_direct[e][c][t] = rnd(); }
  for (b = 0; b < nb; b++) for (e = 0; e < 2; e++) { p->ptr_diffuse_fc[e][b] = (FLOAT32)vx_param(5) / 8; for (t = 0; t < len; t++) p->ptr_taps_diffuse[b][e][t] = rnd(); }
  for (c = 0; c < n; c++) p->ptr_inv_diffuse_weight[c] = rnd();
  Q.brir_sampling_frequency = 48000; Q.binaural_data_format_id = 2; Q.is_hoa_data = vx_param(6) == 0;
  R.num_binaural_representation = 1; R.ptr_binaural_rep[0] = &Q; R.ptr_scratch = (FLOAT32 *)&S;
  W.fs_input = 48000; W.num_speaker_expected = n; W.cicp_spk_idx = vx_param(6);
  if (vx_param(6)) {                       /* the same loudspeakers in another order */
    static ia_ch_geometry g[32];
    WORD32 a, l;
    impeghd_fill_ls_geom_frm_cicp_spk_idx(vx_param(6), g, &a, &l);
    Q.setup_spk_config_3d.num_speakers = n;
    for (c = 0; c < n; c++) Q.setup_spk_config_3d.geometry[(c + 2) % n] = g[c];
    if (vx_param(8) == 31) Q.setup_spk_config_3d.geometry[5].el = 0;   /* the low-frequency loudspeaker elsewhere */
  }
  vx_out_i32(impeghd_binaural_renderer_init(&R, &W, &H), 1000);
  m->memory_index += vx_param(7);
  for (c = 0; c < n; c++) { vx_out_i32(H.channel_map[c], 1001 + c); inp[c] = in[c]; }
  outp[0] = out[0]; outp[1] = out[1];
  for (k = 0; k < calls; k++) {
    for (c = 0; c < n; c++) vx_sym_f32(in[c], vx_param(8 + k), k * n + c, -1, 1);
    vx_junk_f32(S.complex_scratch, 64); vx_junk_f32(S.work_buffer, 64); vx_junk_f32(S.xi, 64); vx_junk_f32(S.fft_ifft_scratch, 64);
    vx_junk_f32(out[0], 1024); vx_junk_f32(out[1], 1024);
    t = impeghd_binaural_struct_process_ld_ola(inp, outp, vx_param(8 + k), H.ptr_work, m, (FLOAT32 *)&S);
    vx_out_i32(t, 2000 + k);
    for (e = 0; e < 2; e++) if (t > 0) vx_out_f32(out[e], t, 2 * k + e);
  }
}
