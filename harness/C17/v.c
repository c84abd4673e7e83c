/* The limiter's gain rule against a plain reference, over consecutive samples */
#include "vp_all.h"
#include "vx.h"
IA_ERRORCODE impeghd_peak_limiter_init(ia_peak_limiter_struct *, UWORD32, UWORD32, FLOAT32 *);
VOID impeghd_peak_limiter_process(ia_peak_limiter_struct *, FLOAT32 *, UWORD32);
static ia_peak_limiter_struct S;
static FLOAT32 st[64], x[16], in[16], df[64], b[16];
/* attack, channels, samples, write position, delay position, position of the maximum, samples in the first call */
void h_gain(void)
{
  int A = vx_param(0), ch = vx_param(1), n = vx_param(2), cir = vx_param(3), d = vx_param(4), mx = vx_param(5), first = vx_param(6), i, j, k, f = 0;
  float thr, g, p, gm, y;
  impeghd_peak_limiter_init(&S, ch, A * 200, st);
  thr = S.limit_threshold;
  vx_sym_f32(S.max_buf, A + 1, 0, 0, 1e6);
  vx_sym_f32(S.delayed_input, A * ch, 1, -1e6, 1e6);
  vx_sym_f32(x, n * ch, 2, -1e6, 1e6);
  vx_sym_f32(&S.pre_smoothed_gain, 1, 3, 1e-6, 1); p = S.pre_smoothed_gain;
  vx_sym_f32(&S.gain_modified, 1, 4, -.2, 1); gm = S.gain_modified;
  S.cir_buf_pnt = cir; S.delayed_input_index = d; S.max_idx = mx;
  for (i = 0; i <= A; i++) vx_assume(S.max_buf[i] <= S.max_buf[mx]);
  for (i = 0; i < A; i++) b[i] = S.max_buf[(cir + 1 + i) % (A + 1)]; /* oldest first, without the one that drops out */
  static FLOAT32 dl[32];
  for (i = 0; i < A * ch; i++) dl[i] = S.delayed_input[(d * ch + i) % (A * ch)];
  for (i = 0; i < n * ch; i++) in[i] = dl[A * ch + i] = x[i];
  if (first) impeghd_peak_limiter_process(&S, x, first);
  if (first < n) impeghd_peak_limiter_process(&S, x + first * ch, n - first);
  for (k = 0; k < n; k++) {
    float m = 0;
    for (j = 0; j < ch; j++) { y = in[k * ch + j]; if (y < 0) y = -y; if (y > m) m = y; }
    b[A + k] = m;
    for (i = k; i < A + k; i++) if (b[i] > m) m = b[i];
    g = m > thr ? thr / m : 1;
    if (g < p) { y = (g - 0.1f * p) * 1.11111111f; if (y < gm) gm = y; } else gm = g;
    if (gm < p) { p = gm + S.attack_constant * (p - gm); if (p < g) p = g; }
    else p = gm + S.release_constant * (p - gm);
    for (j = 0; j < ch; j++) {
      y = dl[k * ch + j] * p;
      if (y > thr) y = thr;
      if (y < -thr) y = -thr;
      df[f++] = (x[k * ch + j] - y) / 32768;
    }
  }
  df[f++] = S.gain_modified - gm;
  df[f++] = S.pre_smoothed_gain - p;
  vx_out_f32(df, f, 0);
}
/* one call on many samples is as many calls on one: attack, channels, samples, write position, delay position, loud samples */
void h_run(void)
{
  static ia_peak_limiter_struct T;
  static FLOAT32 st2[64], y[16];
  int A = vx_param(0), ch = vx_param(1), n = vx_param(2), i;
  impeghd_peak_limiter_init(&S, ch, A * 200, st);
  S.cir_buf_pnt = S.max_idx = vx_param(3); S.delayed_input_index = vx_param(4);
  vx_sym_f32(S.delayed_input, A * ch, 1, -3e4, 3e4);
  vx_sym_f32(&S.pre_smoothed_gain, 1, 3, 1e-6, 1);
  vx_sym_f32(&S.gain_modified, 1, 4, -.2, 1);
  for (i = 0; i < n * ch; i++) x[i] = y[i] = (FLOAT32)vx_paramf(5 + i);
  T = S; T.max_buf = st2; T.delayed_input = st2 + 1 + A;
  for (i = 0; i < 1 + A + A * ch; i++) st2[i] = st[i];
  impeghd_peak_limiter_process(&S, x, n);
  for (i = 0; i < n; i++) impeghd_peak_limiter_process(&T, y + i * ch, 1);
  for (i = 0; i < n * ch; i++) df[i] = (x[i] - y[i]) / 32768;
  df[i++] = S.pre_smoothed_gain - T.pre_smoothed_gain;
  df[i++] = S.gain_modified - T.gain_modified;
  vx_out_f32(df, i, 0);
  vx_out_i32(S.cir_buf_pnt * 10000 + S.max_idx * 100 + S.delayed_input_index - T.cir_buf_pnt * 10000 - T.max_idx * 100 - T.delayed_input_index, 1);
}
