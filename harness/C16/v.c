/* Output sample rate conversion over consecutive frames */
#include "vp_all.h"
#include "vx.h"
IA_ERRORCODE impegh_dec_ln_pl_process(ia_dec_data_struct *, ia_mpegh_dec_state_struct *, FLOAT32, WORD32 *);
static ia_resampler_struct R;
static FLOAT32 in[1024], out[3072], scr[8192];
/* up, down, frame length, frames */
void h_res(void)
{
  int f;
  R.fac_up = vx_param(0); R.fac_down = vx_param(1); R.input_length = vx_param(2); R.output_length = vx_param(2) * vx_param(0) / vx_param(1);
  for (f = 0; f < vx_param(3); f++) {
    vx_junk_f32(out, 3072); vx_junk_f32(scr, 8192);
    vx_sym_f32(in, R.input_length, f, -1, 1);
    impeghd_resample(&R, in, out, scr);
    vx_out_f32(out, R.output_length, f);
  }
}
/* the last stage: loudness gain, then conversion; channels, up, down, frames, gain */
void h_ln(void)
{
  static ia_dec_data_struct D;
  static ia_mpegh_dec_state_struct S;
  static ia_mpegh_dec_config_struct C;
  static FLOAT32 mem[24 * 1024 * 4];
  WORD32 n = vx_param(0), f, c;
  C.resample_output = 1; C.fac_up = vx_param(1); C.fac_down = vx_param(2); C.output_framelength = 1024 * C.fac_up / C.fac_down;
  C.out_samp_freq = 48000; C.ui_pcm_wdsz = 24;
  S.p_config = &C; S.mpeghd_scratch_mem_v = mem;
  D.str_usac_data.ccfl = 1024;
  for (f = 0; f < vx_param(3); f++) {
    vx_junk_f32(mem, 24 * 1024 * 4);
    for (c = 0; c < n; c++) vx_sym_f32(D.str_usac_data.time_sample_vector[c], 1024, f * n + c, -1, 1);
    vx_out_i32(impegh_dec_ln_pl_process(&D, &S, (FLOAT32)vx_paramf(4), &n), 100);
    for (c = 0; c < n; c++) vx_out_f32(mem + c * C.output_framelength, C.output_framelength, f * n + c);
  }
  vx_out_i32(S.ui_out_bytes, 101);
}
