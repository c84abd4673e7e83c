/* HOA predominant sound synthesis over several frames */
#include "vp_all.h"
#include "vx.h"
#include "impeghd_hoa_pre_dom_sound_syn.h"
static ia_spatial_dec_str S;
static ia_hoa_config_struct C;
static FLOAT32 out[16 * 64], scratch[8192];
static int at;
static int P(void) { return vx_param(at++); }
void h_pre(void)
{
  ia_hoa_dec_frame_param_str *F = &S.frame_params_handle;
  ia_spatial_dec_pre_dom_sound_syn_str *W = &S.pre_dom_sound_syn_handle;
  int nc = P(), fl = P(), ip = P(), vs = P(), cv = P(), ps = P(), nf = P(), i, j, f, n;
  vx_junk_f32(scratch, 8192); vx_junk_f32(out, nc * fl);
  C.num_coeffs = nc; C.frame_length = fl; C.spat_interpolation_time = ip; C.coded_v_vec_length = cv; C.pred_dir_sigs = ps; C.num_bits_per_sf = 4;
  C.num_addnl_coders = C.num_transport_ch = 6;
  S.vec_start = vs; S.num_vec_elems = nc - vs; S.ia_hoa_config = &C; S.scratch = scratch;
  for (i = 0; i < fl; i++) {
    W->fade_in_win_for_dir_sigs[i] = (i + 1) / (FLOAT32)(fl + 1);
    W->fade_out_win_for_dir_sigs[i] = 1 - (i + 1) / (FLOAT32)(fl + 1);
    W->fade_in_win_for_vec_sigs[i] = i < ip ? (i + .5f) / ip : 1;
    W->fade_out_win_for_vec_sigs[i] = i < ip ? 1 - (i + .5f) / ip : 0;
    S.ones_long_vec[i] = 1;
  }
  for (i = 0; i < 900; i++) for (j = 0; j < nc; j++) S.transpose_mod_mtx_grid_pts[i * HOA_MAXIMUM_MATRIX_SIZE + j] = ((i * 13 + j * 5) % 17 - 8) / 8.0f;
  for (i = 0; i < nc; i++) for (j = 0; j < nc; j++) W->dir_based_pre_dom_sound_syn_handle.mode_mt_all_coarse_grid_points[i * nc + j] = ((i * 3 + j * 7) % 13 - 6) / 8.0f;
  for (f = 0; f < nf; f++) {
    F->num_dir_predom_sounds = n = P();
    for (i = 0; i < n; i++) { F->active_and_grid_dir_indices[i].ch_idx = P(); F->active_and_grid_dir_indices[i].dir_id = P(); }
    F->num_vec_predom_sounds = n = P();
    for (i = 0; i < n; i++) {
      F->vectors[i].index = P();
      memset(F->vectors[i].sig_id, 0, sizeof F->vectors[i].sig_id);
      for (j = 0; j < nc - vs; j++) F->vectors[i].sig_id[j] = (((int)F->vectors[i].index * 7 + f * 5 + j * 3) % 11 - 5) / 4.0f;
    }
    memset(F->amb_coeff_indices_to_enable, -1, sizeof F->amb_coeff_indices_to_enable);
    memset(F->amb_coeff_indices_to_disable, -1, sizeof F->amb_coeff_indices_to_disable);
    memset(F->non_en_dis_able_act_hoa_coeff_indices, -1, sizeof F->non_en_dis_able_act_hoa_coeff_indices);
    F->num_enable_coeff = n = P(); for (i = 0; i < n; i++) F->amb_coeff_indices_to_enable[i] = P();
    F->num_disable_coeff = n = P(); for (i = 0; i < n; i++) F->amb_coeff_indices_to_disable[i] = P();
    F->num_en_dis_able_coeff = n = P(); for (i = 0; i < n; i++) F->non_en_dis_able_act_hoa_coeff_indices[i] = P();
    for (j = 0; j < nc; j++) {
      F->prediction_type_vec[j] = P();
      for (i = 0; i < ps; i++) F->prediction_indices_mat[i * nc + j] = F->quant_pred_fact_mat[i * nc + j] = 0;
      if (F->prediction_type_vec[j]) for (i = 0; i < ps; i++) { F->prediction_indices_mat[i * nc + j] = P(); F->quant_pred_fact_mat[i * nc + j] = P(); }
    }
    vx_sym_f32(S.dyn_corr_sample_buf, 6 * fl, 2 * f, -1, 1);
    vx_sym_f32(S.amb_hoa_coeffs_frame_buf, nc * fl, 2 * f + 1, -1, 1);
    vx_out_i32(impeghd_hoa_pre_dom_sound_syn_process(&S, out), 100 + f);
    vx_out_f32(out, nc * fl, f);
  }
}
