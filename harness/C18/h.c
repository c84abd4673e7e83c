/* clipping of the rendered signal */
#include "vp.h"
#include "vp_all.h"
static ia_render_hoa_str R;
static FLOAT32 in[4 * 2], out[2 * 2], scr[64];
void h_clip(void)
{
  WORD32 i;
  R.mtrx_selected = 0; R.num_out_channels = 2;
  R.v_render_mtrx[0].order = 1; R.v_render_mtrx[0].sm_mtrx.cols = 4; R.v_render_mtrx[0].sm_mtrx.rows = 2;
  for (i = 0; i < 8; i++) { R.v_render_mtrx[0].sm_mtrx.mtrx[i] = vp_f32_in(-4, 4); }
  for (i = 0; i < 8; i++) { in[i] = vp_f32_in(-1e30f, 1e30f); }
  vp_assert(impeghd_hoa_ren_block_process(&R, in, 4, 2, 1, scr, out) == 0, "accepted");
  for (i = 0; i < 4; i++) vp_assert(out[i] >= -32768.0f && out[i] <= 32767.0f, "rendered sample within full scale");
  vp_witness("rendered");
}
