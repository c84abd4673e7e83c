/* stereo decoding of a channel pair: mid/side and complex prediction */
#include "vp_all.h"
#include "vx.h"
#include "ia_core_coder_bit_extract.h"
static ia_usac_data_struct U;
static ia_usac_tmp_core_coder_struct P;
static ia_sfb_info_struct S;
static ia_usac_lpd_decoder L0, L1;
static FLOAT32 spec[2][1024], save[2][1152], scr[4096], xac[4096];
static WORD16 tbl[64], wid[64];
static UWORD8 ms[400], gd[8];
static int frame;
IA_ERRORCODE ia_core_coder_fd_frm_dec(ia_usac_data_struct *u, WORD32 ch, WORD32 e) { vx_out_f32(u->coef[ch], 1024, ch + 2 * frame); return 0; }
VOID ia_core_coder_usac_ltpf_process(ia_ltpf_data_str *p, FLOAT32 *t) {}
/* stands for the linear per-channel filter: a gain that tells the channels apart */
IA_ERRORCODE ia_core_coder_tns_apply(ia_usac_data_struct *u, FLOAT32 *s, WORD32 n, ia_sfb_info_struct *i, ia_tns_frame_info_struct *t, ia_usac_igf_config_struct *g)
{
  int k, ch = s == u->coef[1];
  for (k = 0; k < 1024; k++) s[k] = s[k] * (ch ? 3.0f : 2.0f);
  return 0;
}
void h_pair(void)
{
  int i, j, p = 12, nsfb = vx_param(9), ng = vx_param(10), fr = vx_param(11), ch;
  int lng = vx_param(0) != EIGHT_SHORT_SEQUENCE;
  S.islong = lng; S.max_win_len = lng ? 1 : 8; S.bins_per_sbk = lng ? 1024 : 128; S.samp_per_bk = 1024; S.sfb_per_sbk = nsfb;
  for (i = 0; i < nsfb; i++) { tbl[i] = vx_param(p++); wid[i] = tbl[i] - (i ? tbl[i - 1] : 0); }
  S.ptr_sfb_tbl = tbl; S.sfb_width = wid;
  for (i = 0; i < ng; i++) { gd[i] = vx_param(p++); S.group_len[i] = gd[i] - (i ? gd[i - 1] : 0); }
  S.num_groups = ng;
  for (i = 0; i < NUM_WIN_SEQ; i++) U.pstr_usac_winmap[i] = &S;
  for (ch = 0; ch < 2; ch++) {
    U.coef[ch] = spec[ch]; U.coef_save_float[ch] = save[ch]; U.pstr_sfb_info[ch] = &S; U.group_dis[ch] = gd;
    U.window_sequence[ch] = vx_param(0); U.window_shape[ch] = vx_param(1); U.window_shape_prev[ch] = vx_param(2); U.ms_used[ch] = ms;
  }
  U.str_tddec[0] = &L0; U.str_tddec[1] = &L1;
  U.scratch_buffer_float = scr; U.x_ac_dec_float = xac;
  vx_junk_f32(scr, 4096); vx_junk_f32(xac, 4096); vx_junk_f32(U.dmx_re_prev[0], 1024); vx_junk_f32(save[0], 1024); vx_junk_f32(save[1], 1024);
  for (i = 0; i < ng; i++) for (j = 0; j < nsfb; j++) {
    U.cplx_pred_used[0][i][j] = ms[i * nsfb + j] = vx_param(p++); U.alpha_q_re[0][i][j] = vx_param(p++); U.alpha_q_im[0][i][j] = vx_param(p++);
  }
  for (frame = 0; frame < fr; frame++) {
    P.core_mode[0] = P.core_mode[1] = CORE_MODE_FD; P.common_window = 1;
    P.ms_mask_present[0] = vx_param(3); P.pred_dir = vx_param(4); P.complex_coef = vx_param(5);
    P.use_prev_frame = frame ? vx_param(6) : 0; P.max_sfb_ste = vx_param(7); P.tns_on_lr = vx_param(8);
    U.window_shape_prev[0] = U.window_shape_prev[1] = vx_param(2);
    if (frame) ia_core_coder_cplx_prev_mdct_dmx(&S, save[0], save[1], U.dmx_re_prev[0], P.pred_dir, 0);
    vx_sym_f32(spec[0], 1024, 2 * frame, -1, 1);
    vx_sym_f32(spec[1], 1024, 2 * frame + 1, -1, 1);
    vx_out_i32(ia_core_coder_data_process(&U, 0, 0, 2, &P), 9 + frame);
  }
}
