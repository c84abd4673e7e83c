/* Embedded PCM configuration, PCM data and earcon packets. */
#include "vp.h"
#include "vp_all.h"
IA_ERRORCODE impeghd_pcm_data_payload(ia_pcm_data_config *, ia_bit_buf_struct *);
IA_ERRORCODE impeghd_pcm_data_config(ia_pcm_data_config *, ia_bit_buf_struct *);
IA_ERRORCODE impeghd_econ_config_info(ia_earcon_info *, ia_bit_buf_struct *);
static void vp_on_longjmp(int code) { }
#ifndef VP_N
#define VP_N 32
#endif
#include "vp_bits.h"
static ia_pcm_data_config C;
static ia_earcon_info E;
static const int rates[] = {0, 0, 0, 48000, 44100, 32000, 24000, 22050, 16000};
#ifndef W
#define W 16
#define FS 1
#endif
#ifndef VP_BITS_ND
void h_cfg(void)
{
  int r, i, n;
  vp_bits_init(VP_N);
  r = impeghd_pcm_data_config(&C, &vp_bb);
  n = vp_rd(7);
  if (n > 23) { vp_assert(r, "more signals than channels rejected"); return; }
  vp_assert(!r, "accepted");
  vp_assert(C.bs_num_pcm_signals == n, "signals");
  EQ(C.pcm_align_audio_flag, 1); EQ(C.pcm_sampling_rate_idx, 5);
  if (C.pcm_sampling_rate_idx == 31) EQ(C.pcm_sampling_rate, 24);
  else if (C.pcm_sampling_rate_idx >= 3 && C.pcm_sampling_rate_idx <= 8) vp_assert(C.pcm_sampling_rate == rates[C.pcm_sampling_rate_idx], "sampling rate");
  EQ(C.pcm_bits_per_sample_idx, 3);
  if (C.pcm_bits_per_sample_idx <= 2) {
    vp_assert(C.pcm_bits_per_sample == (C.pcm_bits_per_sample_idx == 0 ? 16 : C.pcm_bits_per_sample_idx == 1 ? 24 : 32), "sample width");
    EQ(C.pcm_frame_size_idx, 3);
    if (C.pcm_frame_size_idx == 5) EQ(C.pcm_fix_frame_size, 16);
    for (i = 0; i <= n; i++) EQ(C.pcm_signal_id[i], 7);
    EQ(C.bs_pcm_loudness_value, 8); EQ(C.pcm_has_attenuation_gain, 2);
    if (C.pcm_has_attenuation_gain == 1) EQ(C.bs_pcm_attenuation_gain, 8);
    vp_witness("end");
  }
  vp_assert(vp_used() == vp_pos, "cursor");
}
void h_data(void)
{
  int r, i, j, n, size = 0;
  vp_bits_init(VP_N);
  C.pcm_bits_per_sample = W;
  C.pcm_frame_size_idx = FS;
  C.pcm_has_attenuation_gain = vp_range(0, 3);
  C.pcm_fix_frame_size = vp_range(0, 65535);
  if (FS == 5) size = C.pcm_fix_frame_size;
  r = impeghd_pcm_data_payload(&C, &vp_bb);
  n = vp_rd(7);
  if (n > 23) { vp_assert(r, "more signals than channels rejected"); return; }
  vp_assert(C.bsnum_pcm_signals_in_frame == n, "signals");
  for (i = 0; i <= n; i++) EQ(C.pcm_signal_id[i], 7);
  if (C.pcm_has_attenuation_gain == 2) EQ(C.bs_pcm_attenuation_gain, 8);
  if (FS == 6) { size = vp_rd(16); vp_assert(C.pcm_var_frame_size == size, "variable size"); }
  if (FS == 7 || size > 1024) { vp_assert(r, "oversized or reserved frame rejected"); return; }
  vp_assert(!r, "accepted");
  for (i = 0; i < size; i++)
    for (j = 0; j <= n; j++) {
      uint32_t v = vp_rd(W);
#if W == 16
      vp_assert(C.pcm_sample[j][i] == (float)(int16_t)v, "16 bit sample");
#elif W == 24
      vp_assert(C.pcm_sample[j][i] == (float)((int32_t)(v << 8) >> 8) / 256.0f, "24 bit sample");
#else
      vp_assert(C.pcm_sample[j][i] == (float)(int32_t)v / 65536.0f, "32 bit sample");
#endif
    }
  vp_assert(vp_used() == vp_pos, "cursor");
  vp_witness("end");
}
void h_earcon(void)
{
  int r, i, j, k, n;
  vp_bits_init(VP_N);
  for (i = 0; i < 16; i++) E.earcon_num_languages[i] = vp_range(0, 15); /* left by an earlier packet */
  r = impeghd_econ_config_info(&E, &vp_bb);
  n = vp_rd(7) + 1;
  if (n > 16) { vp_assert(r, "more than 16 earcons rejected"); return; }
  vp_assert(!r, "accepted");
  for (i = 0; i < n; i++) {
    EQ(E.earcon_is_independent[i], 1); EQ(E.earcon_id[i], 7); EQ(E.earcon_type[i], 4); EQ(E.earcon_active[i], 1); EQ(E.earcon_pos_type[i], 2);
    if (E.earcon_pos_type[i] == 0) EQ(E.earcon_cicp_spk_idx[i], 7);
    else if (E.earcon_pos_type[i] == 1) { EQ(E.earcon_azimuth[i], 8); EQ(E.earcon_elevation[i], 6); EQ(E.earcon_distance[i], 9); }
    else vp_assert(E.earcon_azimuth[i] == 0 && E.earcon_elevation[i] == 0, "default position");
    if (vp_rd(1)) EQ(E.earcon_gain[i], 7);
    if (vp_rd(1)) EQ(E.earcon_num_languages[i], 4);
    else vp_assert(E.earcon_num_languages[i] == 0, "no text label, no languages");
    for (j = 0; j < E.earcon_num_languages[i]; j++) {
      EQ(E.earcon_languages[i][j], 24); EQ(E.earcon_text_data_length[i][j], 8);
      for (k = 0; k < E.earcon_text_data_length[i][j]; k++) EQ(E.earcon_text_data[i][j][k], 8);
    }
  }
  vp_assert(vp_used() == vp_pos, "cursor");
  vp_witness("end");
}
#else
void s_cfg(void) { vp_bits_init(0); impeghd_pcm_data_config(&C, &vp_bb); vp_assert(C.bs_num_pcm_signals <= 23, "signals within the channels"); vp_witness("end"); }
#ifndef TBL
#define TBL 768
#endif
/* table frame sizes: one signal, sample count and cursor */
void s_data(void)
{
  int before, r;
  vp_bits_init(0);
  C.pcm_bits_per_sample = W; C.pcm_frame_size_idx = FS; C.pcm_has_attenuation_gain = 0;
  before = vp_bb.cnt_bits;
  r = impeghd_pcm_data_payload(&C, &vp_bb);
  if (TBL > 1024) vp_assert(r, "frame larger than the sample store rejected");
  else vp_assert(!r, "accepted");
  if (TBL <= 1024) { vp_assert(before - vp_bb.cnt_bits == 7 + 7 * (C.bsnum_pcm_signals_in_frame + 1) + W * TBL * (C.bsnum_pcm_signals_in_frame + 1), "samples of the frame consumed"); }
  vp_witness("end");
}
void s_earcon(void) { vp_bits_init(0); impeghd_econ_config_info(&E, &vp_bb); vp_witness("end"); }
#endif
