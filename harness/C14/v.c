/* HOA gain correction and ambient component */
#include "vp_all.h"
#include "vx.h"
#include "impeghd_hoa_rom.h"
#include "impeghd_hoa_amb_syn.h"
#include "impeghd_hoa_ch_reassignment.h"
#include "impeghd_hoa_inverse_dyn_correction.h"
static ia_spatial_dec_str S;
static ia_hoa_config_struct C;
static WORD32 exc[64];
static FLOAT32 in[4 * 1024], scratch[8192];
static WORD32 vec[64];
/* channels, frames, then per frame and channel: coded exponent, exception */
void h_gain(void)
{
  int n = vx_param(0), f, c;
  vx_junk_f32(scratch, 8192); vx_junk_f32(S.dyn_corr_sample_buf, n * 1024);
  C.num_transport_ch = n; C.frame_length = 1024;
  S.ia_hoa_config = &C;
  S.frame_params_handle.ptr_is_exception = exc;
  S.inv_dyn_corr_win_func = (FLOAT32 *)&ia_hoa_cos_table_inv_dyn_correction_compute_win_func[0];
  for (c = 0; c < n; c++) S.inv_dyn_corr_prev_gain[c] = (FLOAT32)vx_paramf(2);
  for (f = 0; f < vx_param(1); f++) {
    for (c = 0; c < n; c++) { S.frame_params_handle.exponents[c] = vx_param(3 + 2 * (f * n + c)); exc[c] = vx_param(4 + 2 * (f * n + c)); }
    vx_sym_f32(in, n * 1024, f, -1, 1);
    vx_out_i32(impeghd_hoa_inv_dyn_correction_process(in, &S), 100 + f);
    vx_out_f32(S.dyn_corr_sample_buf, n * 1024, f);
  }
}
/* order, low order coefficients, frame length, decorrelator, then per coefficient: channel or -1; then the matrix */
void h_amb(void)
{
  int nc = vx_param(0), lo = vx_param(1), fl = vx_param(2), i;
  vx_junk_f32(scratch, 8192);
  C.num_coeffs = nc; C.frame_length = fl; C.num_transport_ch = 16;
  S.ia_hoa_config = &C;
  S.scratch = scratch;
  S.amb_syn_handle.low_order_mat_sz = lo;
  S.use_phase_shift_decorr = vx_param(3);
  for (i = 0; i < nc; i++) vec[i] = vx_param(4 + i);
  for (i = 0; i < lo * lo; i++) S.amb_syn_handle.order_matrix[i] = (FLOAT32)vx_paramf(4 + nc + i);
  vx_sym_f32(S.dyn_corr_sample_buf, 16 * fl, 0, -1, 1);
  vx_sym_f32(S.amb_hoa_coeffs_frame_buf, nc * fl, 1, -1, 1);
  vx_out_i32(impeghd_hoa_ambience_synthesis_process(&S, vec), 2);
  vx_out_f32(S.amb_hoa_coeffs_frame_buf, nc * fl, 0);
}
/* only channels that carry predominant sounds are kept for them: coders, frame length, vectors, directions, indices... */
void h_clear(void)
{
  int n = vx_param(0), fl = vx_param(1), v = vx_param(2), d = vx_param(3), i;
  C.num_addnl_coders = n; C.frame_length = fl; C.num_transport_ch = 16;
  S.ia_hoa_config = &C;
  S.frame_params_handle.num_vec_predom_sounds = v;
  S.frame_params_handle.num_dir_predom_sounds = d;
  for (i = 0; i < v; i++) S.frame_params_handle.vectors[i].index = vx_param(4 + i);
  for (i = 0; i < d; i++) S.frame_params_handle.active_and_grid_dir_indices[i].ch_idx = vx_param(4 + v + i);
  vx_sym_f32(S.dyn_corr_sample_buf, 16 * fl, 0, -1, 1);
  vx_out_i32(impeghd_hoa_ch_reassignment_process(&S), 1);
  vx_out_f32(S.dyn_corr_sample_buf, 16 * fl, 0);
}
