/* Format conversion and the switch between time and frequency domain */
#include "vp_all.h"
#include "vx.h"
static ia_mpegh_dec_api_struct A;
static ia_mpegh_dec_state_struct T;
static ia_dec_data_struct D;
static FLOAT32 scr[2 * MAX_NUM_CHANNELS * FC_STFT_FRAMEx2 * 4], stft[4][2048];
/* left by earlier frames, in parts of the scratch memory */
static void stale(void) { vx_junk_f32(scr, 4); vx_junk_f32(scr + 510, 4); vx_junk_f32(scr + 1022, 4); vx_junk_f32(scr + 1100, 2); vx_junk_f32(scr + 3070, 4); vx_junk_f32(scr + 5118, 4); vx_junk_f32(scr + 9214, 4); }
static unsigned seed = 1;
static FLOAT32 rnd(void) { seed = seed * 1103515245u + 12345u; return (FLOAT32)((int)(seed >> 16 & 255) - 128) / 256; }
static ia_domain_switcher_struct *sw(int n)
{
  ia_domain_switcher_struct *s = &D.str_domain_switcher;
  int i;
  A.p_state_mpeghd = &T; T.pstr_dec_data = &D;
  s->ds_params.num_in_ch = s->ds_params.num_out_ch = n;
  T.state_domain_switcher.ds_params = &s->ds_params;
  T.state_domain_switcher.stft_in_buf = s->stft_input_buf_ptr; T.state_domain_switcher.stft_out_buf = s->stft_output_buf_ptr;
  for (i = 0; i < FC_MAX_CHANNELS; i++) { s->stft_input_buf_ptr[i] = s->stft_input_buf + i * 256; s->stft_output_buf_ptr[i] = s->stft_output_buf + i * 256; }
  for (i = 0; i < 4; i++) D.str_usac_data.time_sample_stft[i] = stft[i];
  return s;
}
/* channels, what: 0 to spectra, 1 to time, 2 there and back */
void h_switch(void)
{
  int n = vx_param(0), w = vx_param(1), c, f;
  WORD32 no = 0;
  ia_domain_switcher_struct *s = sw(n);
  for (c = 0; c < n; c++) {
    if (w != 1) vx_sym_f32(s->stft_input_buf_ptr[c], 256, c, -1, 1);
    if (w != 0) vx_sym_f32(s->stft_output_buf_ptr[c], 256, 10 + c, -1, 1);
  }
  for (f = 0; f < vx_param(2); f++) {
    for (c = 0; c < n; c++) {
      { vx_junk_f32(stft[c], 4); vx_junk_f32(stft[c] + 1022, 4); }
      if (w != 1) vx_sym_f32(D.str_usac_data.time_sample_vector[c], 1024, 20 + 4 * f + c, -1, 1);
      else { vx_junk_f32(D.str_usac_data.time_sample_vector[c] + 254, 4); vx_sym_f32(stft[c], 2048, 20 + 4 * f + c, -1, 1); }
    }
    stale();
    if (w != 1) vx_out_i32(impeghd_domain_switcher_process(&A, &no, 1, scr), 900 + 2 * f);
    stale();
    if (w != 0) {
      if (w == 2) for (c = 0; c < n; c++) vx_junk_f32(D.str_usac_data.time_sample_vector[c] + 254, 4);
      vx_out_i32(impeghd_domain_switcher_process(&A, &no, 0, scr), 901 + 2 * f);
    }
    vx_out_i32(no, 910);
    for (c = 0; c < n; c++) if (w == 0) vx_out_f32(stft[c], 2048, 100 + 4 * f + c); else vx_out_f32(D.str_usac_data.time_sample_vector[c], 1024, 100 + 4 * f + c);
  }
  for (c = 0; c < n; c++) { if (w != 1) vx_out_f32(s->stft_input_buf_ptr[c], 256, 200 + c); if (w != 0) vx_out_f32(s->stft_output_buf_ptr[c], 256, 210 + c); }
}
/* in, out, frames, first band kept, last band kept + 1, previous target energy, previous realised energy (hundredths), earcon */
void h_conv(void)
{
  int n = vx_param(0), o = vx_param(1), fr = vx_param(2), c, d, f, b, t;
  ia_format_conv_struct *s = &D.str_format_converter;
  static FLOAT32 sy[8];
  static ia_pcm_data_config pcm;
  WORD32 no = 0;
  A.p_state_mpeghd = &T; T.pstr_dec_data = &D;
  T.state_format_conv.fc_params = &s->fc_params; T.state_format_conv.stft_in_buf = s->stft_input_buf_ptr; T.state_format_conv.stft_out_buf = s->stft_output_buf_ptr;
  s->fc_params.num_in_ch = n; s->fc_params.num_out_ch = o; s->fc_params.active_dmx_stft = &s->active_dmx_stft;
  s->active_dmx_stft.downmix_mat = s->active_downmix_mat_ptr;
  for (c = 0; c < FC_MAX_CHANNELS; c++) {
    s->stft_input_buf_ptr[c] = s->stft_input_buf + c * 256; s->stft_output_buf_ptr[c] = s->stft_output_buf + c * 256;
    s->active_downmix_mat_ptr[c] = s->active_downmix_mat_ch_ptr + c * FC_MAX_CHANNELS;
    for (d = 0; d < FC_MAX_CHANNELS; d++) s->active_downmix_mat_ptr[c][d] = s->active_downmix_mat_freq_ptr + (c * FC_MAX_CHANNELS + d) * FC_BANDS;
  }
  for (b = 0; b < FC_BANDS; b++) for (c = 0; c < n; c++) for (d = 0; d < o; d++) {
    FLOAT32 g = rnd() + 1;
    s->fc_params.downmix_mat_freq[b][c][d] = (n > 1 && o > 1 && (c + d) % 3 == 2) ? 0 : b == 0 || (b >= vx_param(3) && b < vx_param(4)) ? g : 0;
  }
  vx_out_i32(impeghd_format_conv_dmx_init(&s->active_dmx_stft, &s->fc_params), 900);
  for (d = 0; d < o; d++) for (b = 0; b < FC_ERB_BANDS; b++) {
    s->active_dmx_stft.target_energy_prev[d][b] = (FLOAT32)vx_param(5) / 100; s->active_dmx_stft.realized_energy_prev[d][b] = (FLOAT32)vx_param(6) / 100;
  }
  for (f = 0; f < fr; f++) {
    for (c = 0; c < n; c++) {
      FLOAT32 *x = vx_param(7) ? pcm.pcm_sample[c] : D.str_usac_data.time_sample_vector[c];
      vx_sym_f32(sy, 2, 10 * f + c, -1, 1);
      for (t = 0; t < 1024; t++) { FLOAT32 p = rnd(); x[t] = (p * sy[0] + rnd() * sy[1]) / 8; }
    }
    stale();
    vx_out_i32(vx_param(7) ? impeghd_format_conv_earcon_process(&A, &pcm, scr) : impeghd_format_converter_process(&A, &no, scr), 901);
    for (d = 0; d < o; d++) vx_out_f32(vx_param(7) ? pcm.pcm_sample[d] : D.str_usac_data.time_sample_vector[d], 1024, 100 + 10 * f + d);
  }
  for (d = 0; d < o; d++) {
    vx_out_f32(s->active_dmx_stft.target_energy_prev[d], FC_ERB_BANDS, 200 + d);
    vx_out_f32(s->active_dmx_stft.realized_energy_prev[d], FC_ERB_BANDS, 210 + d);
  }
}
