/* long-term post-filter over consecutive frames */
#include "vp_all.h"
#include "vx.h"
#include "ia_core_coder_ltpf.h"
static ia_ltpf_data_str L;
static FLOAT32 x[1024], scr[LTPF_SCRATCH_SIZE];
/* frame length, sampling rate, frames, fixed samples; then per frame: present, lag, gain; then the fixed samples */
void h_ltpf(void)
{
  int n = vx_param(0), f, i, nf = vx_param(2), nfix = vx_param(3), k = 4 + 3 * nf;
  ia_core_coder_ltpf_init(&L, vx_param(1), n, scr);
  for (f = 0; f < nf; f++) {
    vx_junk_f32(scr, LTPF_SCRATCH_SIZE);
    vx_sym_f32(x, n, f, -1, 1);
    for (i = 0; i < n && i + f * n < nfix; i++) x[i] = (FLOAT32)vx_paramf(k + i + f * n);
    L.data_present = vx_param(4 + 3 * f); L.pitch_lag_idx = vx_param(5 + 3 * f); L.gain_idx = vx_param(6 + 3 * f);
    ia_core_coder_usac_ltpf_process(&L, x);
    vx_out_f32(x, n, f);
  }
}
