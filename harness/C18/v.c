/* HOA rendering: near-field compensation and rendering matrix over consecutive blocks */
#include "vp_all.h"
#include "vx.h"
static ia_render_hoa_str R;
static FLOAT32 in[16 * 1024], out[24 * 1024], scr[64 * 1024];
/* order, outputs, block length, blocks, sampling rate, use nfc, radius, loudspeaker distance, matrix... */
void h_ren(void)
{
  WORD32 n = vx_param(0), c = (n + 1) * (n + 1), o = vx_param(1), len = vx_param(2), i, f;
  R.mtrx_selected = 1; R.num_out_channels = o; R.use_nfc = vx_param(5);
  R.v_render_mtrx[1].order = n; R.v_render_mtrx[1].l_speakers = o;
  R.v_render_mtrx[1].sm_mtrx.cols = c; R.v_render_mtrx[1].sm_mtrx.rows = o;
  for (i = 0; i < o * c; i++) R.v_render_mtrx[1].sm_mtrx.mtrx[i] = (FLOAT32)vx_paramf(8 + i);
  R.ldspk_dist = (FLOAT32)vx_paramf(7);
  if (R.use_nfc) vx_out_i32(impeghd_hoa_ren_nfc_init(&R, n, (FLOAT32)vx_paramf(6), vx_param(4)), 900);
  for (f = 0; f < vx_param(3); f++) {
    vx_junk_f32(out, 24 * 1024); vx_junk_f32(scr, 64 * 1024);
    for (i = 0; i < c; i++) vx_sym_f32(in + i * len, len, f * c + i, -16, 16);
    vx_out_i32(impeghd_hoa_ren_block_process(&R, in, c, len, 1, scr, out), 901 + f);
    for (i = 0; i < o; i++) vx_out_f32(out + i * len, len, f * o + i);
  }
}
