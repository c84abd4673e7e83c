/* temporal noise shaping synthesis filter */
#include "vp_all.h"
#include "vx.h"
static ia_usac_data_struct U;
static ia_tns_frame_info_struct T;
static ia_sfb_info_struct S;
static ia_usac_igf_config_struct G;
static FLOAT32 scr[4096], spec[1024];
static WORD16 tbl[64];
/* params: long, subblocks, bands per window, lines per band, nbands, rate index, igf, igf after tns, igf start, igf stop, then per window: n_filt, coef_res, per filter: start, stop, order, dir, coefs */
void h_tns(void)
{
  int i, j, f, p = 10, nb;
  S.islong = vx_param(0);
  T.n_subblocks = vx_param(1);
  S.sfb_per_sbk = vx_param(2);
  for (i = 0; i < S.sfb_per_sbk; i++) tbl[i] = (i + 1) * vx_param(3);
  S.ptr_sfb_tbl = tbl;
  nb = vx_param(4);
  U.sampling_rate_idx = vx_param(5);
  U.tns_max_bands_tbl_usac = (void *)&ia_core_coder_mpeghd_block_tables.tns_max_bands_tbl_usac;
  S.bins_per_sbk = S.islong ? 1024 : 128;
  U.scratch_buffer_float = scr;
  vx_junk_f32(scr, 4096);
  G.igf_active = vx_param(6);
  G.igf_after_tns_synth = vx_param(7);
  G.igf_grid[!S.islong].igf_sfb_start = vx_param(8);
  G.igf_grid[!S.islong].igf_sfb_stop = vx_param(9);
  for (j = 0; j < T.n_subblocks; j++) {
    T.str_tns_info[j].n_filt = vx_param(p++);
    T.str_tns_info[j].coef_res = vx_param(p++);
    for (f = 0; f < T.str_tns_info[j].n_filt; f++) {
      ia_tns_filter_struct *q = &T.str_tns_info[j].str_filter[f];
      q->start_band = vx_param(p++); q->stop_band = vx_param(p++); q->order = vx_param(p++); q->direction = vx_param(p++);
      for (i = 0; i < q->order; i++) q->coef[i] = (WORD16)vx_param(p++);
    }
  }
  vx_sym_f32(spec, 1024, 0, -1, 1);
  vx_out_i32(ia_core_coder_tns_apply(&U, spec, nb, &S, &T, &G), 1);
  vx_out_f32(spec, 1024, 0);
}
