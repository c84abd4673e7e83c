/* Complex and real Fourier transforms */
#include "vp_all.h"
#include "impeghd_fft_ifft.h"
#include "ia_core_coder_stereo_lpd.h"
#include "vx.h"
static FLOAT32 re[16384], im[16384], s[8 * 16384];
void h_cplx(void)
{
  vx_junk_f32(s, 8 * 16384);
  int n = vx_param(0);
  vx_sym_f32(re, n, 0, -1, 1); vx_sym_f32(im, n, 1, -1, 1);
  if (vx_param(1)) impeghd_rad2_cplx_ifft(re, im, n, s); else impeghd_rad2_cplx_fft(re, im, n, s);
  vx_out_f32(re, n, 0); vx_out_f32(im, n, 1);
}
/* long transforms: every step-th input is unknown, starting at first */
void h_long(void)
{
  vx_junk_f32(s, 8 * 16384);
  int n = vx_param(0), step = vx_param(2), first = vx_param(3), i;
  for (i = first; i < n; i += step) { vx_sym_f32(re + i, 1, 0, -1, 1); vx_sym_f32(im + i, 1, 1, -1, 1); }
  if (vx_param(1)) impeghd_cplx_ifft_8k(re, im, s, n); else impeghd_cplx_fft_16k(re, im, s, n);
  vx_out_f32(re, n, 0); vx_out_f32(im, n, 1);
}
void h_real(void)
{
  vx_junk_f32(s, 8 * 16384);
  int n = vx_param(0), inv = vx_param(1);
  vx_sym_f32(re, n, 0, -1, 1);
  ia_core_coder_real_fft(re, n == 672 ? ia_core_coder_slpd_sintable_336 : ia_core_coder_slpd_sintable_168, n, inv ? 1 : -1, s);
  vx_out_f32(re, n, 0);
}
