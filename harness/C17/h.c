/* Peak limiter: one call from an arbitrary reachable state */
#include "vp.h"
#include "vp_all.h"
IA_ERRORCODE impeghd_peak_limiter_init(ia_peak_limiter_struct *, UWORD32, UWORD32, FLOAT32 *);
VOID impeghd_peak_limiter_process(ia_peak_limiter_struct *, FLOAT32 *, UWORD32);
#ifndef A
#define A 2
#define CH 2
#define FR 1
#endif
#define BIG 1e9f
static ia_peak_limiter_struct S, S0;
static FLOAT32 x[CH * FR], in[CH * FR], old[CH * A], st[1 + A + CH * A];
static FLOAT32 thr;
static void start(void)
{
  impeghd_peak_limiter_init(&S, CH, A * 200, st);
  thr = S.limit_threshold;
}
static int inv(ia_peak_limiter_struct *s)
{
  int i, ok = s->cir_buf_pnt <= A && s->max_idx <= A && s->delayed_input_index < A;
  if (!ok) return 0;
  for (i = 0; i <= A; i++) ok &= s->max_buf[i] >= 0 && s->max_buf[i] <= BIG && s->max_buf[s->max_idx] >= s->max_buf[i];
  return ok && s->pre_smoothed_gain > 0 && s->pre_smoothed_gain <= 1 && s->gain_modified >= -.5f && s->gain_modified <= 1;
}
static void state(float lim)
{
  int i;
  start();
  for (i = 0; i < CH * A; i++) old[i] = S.delayed_input[i] = vp_f32_in(-lim, lim);
  for (i = 0; i <= A; i++) S.max_buf[i] = vp_f32_in(0, lim);
  S.cir_buf_pnt = vp_range(0, A); S.max_idx = vp_range(0, A); S.delayed_input_index = vp_range(0, A - 1);
}
static void samples(float lim) { for (int i = 0; i < CH * FR; i++) x[i] = in[i] = vp_f32_in(-lim, lim); }
static float amax(int f) { float m = 0; for (int j = 0; j < CH; j++) { float v = in[f * CH + j] < 0 ? -in[f * CH + j] : in[f * CH + j]; if (v > m) m = v; } return m; }
/* nothing ever exceeds the threshold, the window maximum is right, and the state stays one of the assumed ones */
void h_inv(void)
{
  int c, d, i;
  state(BIG);
  S.pre_smoothed_gain = vp_f32_in(1e-30f, 1); S.gain_modified = vp_f32_in(-.5f, 1);
  vp_assume(inv(&S));
  samples(BIG);
  c = S.cir_buf_pnt; d = S.delayed_input_index;
  S0 = S;
  impeghd_peak_limiter_process(&S, x, FR);
  for (i = 0; i < CH * FR; i++) vp_assert(x[i] >= -thr && x[i] <= thr, "output within the threshold");
  for (i = 0; i < FR; i++) vp_assert(S.max_buf[(c + i) % (A + 1)] == amax(i), "window holds the sample's peak");
  for (i = 0; i < CH * FR && i < CH * A; i++) if (FR <= A) vp_assert(S.delayed_input[(d * CH + i) % (CH * A)] == in[i], "sample saved in order");
  vp_assert(S.cir_buf_pnt == (c + FR) % (A + 1) && S.delayed_input_index == (d + FR) % A, "positions advance");
  vp_assert(inv(&S), "state");
  vp_assert(S.limit_threshold == thr && S.num_channels == CH && S.attack_time_samples == A && S.limiter_on == 1, "set-up kept");
  vp_witness("end");
}
/* the gain follows the attack and release rules, and is applied to the delayed sample */
void h_gain(void)
{
  int j, d;
  float g, gm, p, y;
  state(BIG);
  S.pre_smoothed_gain = p = vp_f32_in(1e-30f, 1); S.gain_modified = gm = vp_f32_in(-.5f, 1);
  vp_assume(inv(&S));
  samples(BIG);
  d = S.delayed_input_index;
  impeghd_peak_limiter_process(&S, x, 1);
  g = S.max_buf[S.max_idx];
  if (g <= thr) g = 1; else g = thr / g;
  if (g < p) { y = (g - 0.1f * p) * 1.11111111f; gm = y < gm ? y : gm; } else gm = g;
  vp_assert(S.gain_modified == gm, "target gain");
  if (gm >= p) p = gm + S.release_constant * (p - gm);
  else { p = gm + S.attack_constant * (p - gm); if (p < g) p = g; }
  vp_assert(S.pre_smoothed_gain == p, "smoothed gain");
#ifdef OUT
  for (j = 0; j < CH; j++) {
    y = old[d * CH + j] * S.pre_smoothed_gain;
    vp_assert(x[j] == (y > thr ? thr : y < -thr ? -thr : y), "delayed sample scaled");
  }
#endif
  vp_witness("end");
}
/* quiet input is only delayed */
void h_quiet(void)
{
  int i, f, d;
  state(29204.512f);
  S.pre_smoothed_gain = S.gain_modified = 1;
  vp_assert(thr > 29204.5f && thr < 29204.52f, "threshold of -1 dB");
  vp_assume(S.max_buf[S.max_idx] >= S.max_buf[0]);
  for (i = 1; i <= A; i++) vp_assume(S.max_buf[S.max_idx] >= S.max_buf[i]);
  S.limiter_on = vp_bool();
  samples(29204.512f);
  d = S.delayed_input_index;
  impeghd_peak_limiter_process(&S, x, FR);
  for (f = 0; f < FR; f++)
    for (i = 0; i < CH; i++) vp_assert(x[f * CH + i] == (f < A ? old[(d + f) % A * CH + i] : in[(f - A) * CH + i]), "quiet input is only delayed");
  for (f = 0; f < A && f < FR; f++)
    for (i = 0; i < CH; i++) vp_assert(S.delayed_input[(d + FR - 1 - f) % A * CH + i] == in[(FR - 1 - f) * CH + i], "kept for the next call");
  vp_assert(S.pre_smoothed_gain == 1 && S.gain_modified == 1 && S.min_gain == 1 && S.max_buf[S.max_idx] <= 29204.512f, "gain stays one");
  vp_witness("end");
}
/* one call on two samples is two calls on one */
void h_split(void)
{
  static FLOAT32 y[CH * 2];
  int i;
  state(BIG);
  S.pre_smoothed_gain = vp_f32_in(1e-30f, 1); S.gain_modified = vp_f32_in(-.5f, 1);
  vp_assume(inv(&S));
  static FLOAT32 st2[1 + A + CH * A];
  S0 = S; S0.max_buf = st2; S0.delayed_input = st2 + 1 + A;
  for (i = 0; i < 1 + A + CH * A; i++) st2[i] = st[i];
  samples(BIG);
  for (i = 0; i < CH * 2; i++) y[i] = x[i];
  impeghd_peak_limiter_process(&S, x, 2);
  impeghd_peak_limiter_process(&S0, y, 1);
  impeghd_peak_limiter_process(&S0, y + CH, 1);
  for (i = 0; i < CH * 2; i++) vp_assert(x[i] == y[i], "same output");
  vp_assert(S.pre_smoothed_gain == S0.pre_smoothed_gain && S.gain_modified == S0.gain_modified && S.max_idx == S0.max_idx && S.cir_buf_pnt == S0.cir_buf_pnt && S.delayed_input_index == S0.delayed_input_index, "same state");
  vp_witness("end");
}
