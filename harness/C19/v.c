/* Multichannel coding tool: the pair transform, its history and its downmix of the previous frame */
#include "vp_all.h"
#include "vx.h"
static ia_multichannel_data M;
static FLOAT32 a[1024], b[1024], d[1024], hist[1024];
static WORD16 tbl[64];
static WORD32 idx[64], mask[64];
/* type, direction, per band?, bands of the pair, sfbs, lines, then sfb ends, indices, masks */
static WORD32 setup(void)
{
  WORD32 i, n = vx_param(3), s = vx_param(4);
  M.use_tool = 1; M.signal_type = vx_param(0); M.pred_dir[0] = vx_param(1); M.mask_flag[0] = M.bandwise_coeff_flag[0] = 0;
  if (vx_param(2) & 1) M.mask_flag[0] = 1;
  if (vx_param(2) & 2) M.bandwise_coeff_flag[0] = 1;
  for (i = 0; i < s; i++) tbl[i] = vx_param(6 + i);
  for (i = 0; i < n; i++) { idx[i] = vx_param(6 + s + i); mask[i] = vx_param(6 + s + n + i); }
  for (; i < 64; i++) { idx[i] = 9; mask[i] = 1; }
  return vx_param(5);
}
void h_pair(void)
{
  WORD32 n = setup();
  vx_sym_f32(a, n, 0, -1, 1); vx_sym_f32(b, n, 1, -1, 1);
  impeghd_mc_process(&M, a, b, idx, mask, vx_param(3), vx_param(4), 0, tbl, n);
  vx_out_f32(a, n, 0); vx_out_f32(b, n, 1);
}
void h_prev(void) /* previous outputs, or none; last parameter: which are there */
{
  WORD32 n = setup(), have = vx_param(6 + vx_param(4) + 2 * vx_param(3));
  vx_sym_f32(a, n, 0, -1, 1); vx_sym_f32(b, n, 1, -1, 1);
  memset(d, 0, sizeof d);
  vx_out_i32(impeghd_mc_get_prev_dmx(&M, have & 1 ? a : 0, have & 2 ? b : 0, d, vx_param(3), mask, idx, n, 0, vx_param(4), tbl), 9);
  vx_out_f32(d, n, 0);
}
void h_save(void) /* windows, bins, clear */
{
  WORD32 n = vx_param(0) * vx_param(1);
  vx_junk_f32(hist, 1024);
  M.prev_out_spec[3] = hist;
  vx_sym_f32(a, n, 0, -1, 1);
  impeghd_mc_save_prev(&M, a, 3, vx_param(0), vx_param(1), vx_param(2));
  vx_out_f32(hist, n, 0);
}
