/* linear filters and transforms of the time-domain coder */
#include "vp_all.h"
#include "vx.h"
#include "ia_core_coder_acelp_com.h"
static ia_usac_data_struct U;
static ia_usac_td_config_struct TD;
static FLOAT32 a[64], x[1200], y[2048], mem[16], scr[8192], fft[16384], zir[512];
static void coefs(int base, FLOAT32 *d, int n) { for (int i = 0; i < n; i++) d[i] = (FLOAT32)vx_paramf(base + i); }
/* kind, length, then coefficients */
void h_filt(void)
{
  vx_junk_f32(scr, 8192); vx_junk_f32(y, 2048);
  int k = vx_param(0), n = vx_param(1), i;
  coefs(2, a, k == 4 ? 51 : 17);
  vx_sym_f32(x, n + 16, 0, -1, 1);
  switch (k) {
  case 0: ia_core_coder_preemphsis_tool(x + 16, a[1], n, x[15]); vx_out_f32(x + 16, n, 0); break;
  case 1: ia_core_coder_deemphsis_tool(x + 16, n, x[15]); vx_out_f32(x + 16, n, 0); break;
  case 2: ia_core_coder_lpc_wt_synthesis_tool(a, x + 16, n); vx_out_f32(x + 16, n, 0); break;
  case 3: ia_core_coder_synthesis_tool1(a, x + 16, n); vx_out_f32(x + 16, n, 0); break;
  case 4: ia_core_coder_residual_tool(a, x + 16, y, n / 3, 3, 17); vx_out_f32(y, n, 0); break;
  case 5: memcpy(mem, x, sizeof mem); ia_core_coder_synthesis_tool(a, x + 16, y, n, mem, scr); vx_out_f32(y, n, 0); break;
  case 6: ia_core_coder_lpc_coeff_wt_apply(a, y); vx_out_f32(y, 17, 0); break;
  }
}
void h_mdct(void)
{
  static FLOAT32 xa[2048];
  vx_junk_f32(scr, 8192); vx_junk_f32(fft, 16384); vx_junk_f32(y, 2048);
  int l = vx_param(0), m = vx_param(1);
  vx_sym_f32(x, l + m, 0, -1, 1);
  U.ccfl = 1024; U.scratch_buffer_float = scr; U.x_ac_dec_float = xa;
  if (vx_param(2)) { vx_out_i32(ia_core_coder_acelp_mdct(x, y, l + m, scr, fft), 1); vx_out_f32(y, l + m, 0); }
  else { vx_out_i32(ia_core_coder_acelp_mdct_main(&U, x, y, l, m, fft), 1); vx_out_f32(y, 2 * l + m, 0); }
}
/* fac length, with zir, gain index, sub-frame length, lpc, impulse count, (position, value)* */
void h_fac(void)
{
  static WORD32 prm[140];
  int len = vx_param(0), i, n = vx_param(4);
  FLOAT32 *out = y;
  vx_junk_f32(fft, 16384); vx_junk_f32(y, 2048);
  prm[0] = vx_param(2);
  coefs(5, a, 17);
  for (i = 0; i < n; i++) prm[1 + vx_param(22 + 2 * i)] = vx_param(23 + 2 * i);
  U.ccfl = 1024;
  vx_sym_f32(zir, 2 * len + 1, 0, -1, 1);
  vx_out_i32(ia_core_coder_fwd_alias_cancel_tool(&U, prm, &TD, len, a, out, out, 12800, fft, vx_param(1) ? zir + len - vx_param(3) / 2 : 0, 0, vx_param(3)), 1);
  vx_out_f32(out, 2 * len, 0);
}
