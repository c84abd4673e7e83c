/* Frequency-domain synthesis: inverse transform, windows, overlap-add */
#include "vp_all.h"
#include "ia_core_coder_windows.h"
#include "vx.h"
static ia_usac_data_struct U;
static ia_usac_lpd_decoder T;
static FLOAT32 scr[8192], fft[16384];
/* the time-domain coder's parts are arbitrary: an aliasing cancellation signal, no post filter */
static FLOAT32 fac[2 * FAC_LENGTH + 16];
IA_ERRORCODE ia_core_coder_fwd_alias_cancel_tool(ia_usac_data_struct *u, WORD32 *prm, ia_usac_td_config_handle c, WORD32 len, FLOAT32 *lpc, FLOAT32 *o, FLOAT32 *fb, WORD32 fs, FLOAT32 *s, FLOAT32 *zir, WORD32 st, WORD32 l)
{
  memcpy(o, fac, 2 * len * sizeof(FLOAT32));
  return 0;
}
IA_ERRORCODE ia_core_coder_bass_post_filter(FLOAT32 *syn, FLOAT32 *fb, WORD32 fac_fb, WORD32 *pitch, FLOAT32 *gain, FLOAT32 *out, WORD32 len, WORD32 len2, FLOAT32 *prev)
{ /* pass-through with the filter's delay of one subframe */
  memcpy(out, syn - LEN_SUBFR, len * sizeof(FLOAT32));
  return 0;
}
IA_ERRORCODE ia_core_coder_lpd_bpf(ia_usac_data_struct *u, WORD32 s, FLOAT32 *o, ia_usac_lpd_decoder_handle st) { return 0; }
void h_fd(void)
{
  vx_junk_f32(scr, 8192); vx_junk_f32(fft, 16384); vx_junk_f32(U.time_sample_vector[3], 1024);
  U.ccfl = 1024;
  static FLOAT32 coef[1024];
  FLOAT32 *out = U.time_sample_vector[3];
  U.coef[3] = coef;
  FLOAT32 *ov = U.overlap_data_ptr[3];
  U.ptr_fft_scratch = fft;
  U.scratch_buffer_float = scr;
  U.str_tddec[3] = &T;
  U.window_sequence[3] = vx_param(0);
  U.window_shape[3] = vx_param(1);
  U.window_shape_prev[3] = vx_param(2);
  U.prev_aliasing_symmetry[3] = vx_param(3);
  U.curr_aliasing_symmetry[3] = vx_param(4);
  U.td_frame_prev[3] = vx_param(5); U.fac_data_present[3] = vx_param(6); T.mode_prev = 1;
  ia_usac_td_config_struct *c = &U.td_config[1];
  c->len_frame = 1024; c->num_frame = 4; c->num_subfrm = 4; c->len_subfrm = 256; c->fac_fb = 1; c->fscale = T.fscale = 12800;
  vx_sym_f32(coef, 1024, 0, -1, 1); vx_sym_f32(ov, 1024, 1, -1, 1); vx_sym_f32(fac, 2 * FAC_LENGTH, 3, -1, 1);
  vx_out_i32(ia_core_coder_fd_frm_dec(&U, 3, 1), 2);
  vx_out_f32(out, 1024, 0); vx_out_f32(ov, 1024, 1);
}
