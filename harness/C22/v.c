/* Dynamic range control applied to the signal over consecutive frames */
#include "vp_all.h"
#include "vx.h"
static ia_drc_gain_dec_struct G;
static ia_drc_config C;
static ia_drc_gain_struct N;
static ia_drc_uni_drc_coeffs_struct Q;
static ia_drc_interp_buf_struct B[3][8];
static FLOAT32 band[16][1024], re[4][4096], im[4][4096], *bandp[16], *rep[4], *imp[4];
static int ip;
#define NI vx_param(ip++)
#define NF ((FLOAT32)vx_paramf(ip++))
static int sub, fs, nch, frames, nseq;
static FLOAT32 boost, compress, ln;
static int setup(void)
{
  int s, g, b, i, k, r = 0;
  sub = NI; fs = NI; nch = NI; frames = NI;
  G.ia_drc_params_struct.drc_frame_size = fs;
  G.ia_drc_params_struct.delay_mode = NI;
  G.ia_drc_params_struct.gain_delay_samples = NI;
  G.ia_drc_params_struct.num_ch_process = NI;
  boost = NF; compress = NF; ln = NF;
  nseq = NI;
  for (k = 0; k < nseq; k++) {
    Q.gain_set_params[k].band_count = NI; Q.gain_set_params[k].drc_band_type = NI;
    for (b = 0; b < Q.gain_set_params[k].band_count; b++) {
      Q.gain_set_params[k].gain_params[b].crossover_freq_idx = NI;
      Q.gain_set_params[k].gain_params[b].start_subband_index = NI;
    }
  }
  G.ia_drc_params_struct.drc_set_counter = NI;
  G.ia_drc_params_struct.multiband_sel_drc_idx = NI;
  G.ia_drc_params_struct.sub_band_domain_mode = sub ? SUBBAND_DOMAIN_MODE_STFT256 : SUBBAND_DOMAIN_MODE_OFF;
  C.apply_drc = 1;
  for (s = 0; s < G.ia_drc_params_struct.drc_set_counter; s++) {
    ia_drc_instructions_struct *D = &C.str_drc_instruction_str[2 - s];
    G.ia_drc_params_struct.sel_drc_array[s].drc_instrns_idx = 2 - s;
    D->audio_num_chan = nch;
    D->drc_set_id = NI; D->drc_set_effect = NI;
    D->limiter_peak_target_present = NI; D->limiter_peak_target = NF;
    for (i = 0; i < nch; i++) {
      D->channel_group_of_ch[i] = NI;
      if (D->channel_group_of_ch[i] >= 0) D->num_chan_per_ch_group[D->channel_group_of_ch[i]]++;
    }
    D->num_drc_ch_groups = NI; k = 0;
    for (g = 0; g < D->num_drc_ch_groups; g++) {
      ia_drc_gain_modifiers_struct *m = &D->str_gain_modifiers_of_ch_group[g];
      D->gain_set_index_for_channel_group[g] = NI; D->band_count_of_ch_group[g] = NI;
      D->gain_interpolation_type_for_channel_group[g] = NI; D->time_delta_min_for_channel_group[g] = NI;
      D->str_ducking_modifiers_for_channel_group[g].ducking_scaling_flag = NI; D->str_ducking_modifiers_for_channel_group[g].ducking_scaling = NF;
      for (b = 0; b < D->band_count_of_ch_group[g]; b++) {
        m->gain_scaling_flag[b] = NI; m->attn_scale_factor[b] = NF; m->amplfn_scale_factor[b] = NF;
        m->gain_offset_flag[b] = NI; m->gain_offset[b] = NF;
      }
      k += D->band_count_of_ch_group[g];
    }
    D->gain_element_count = k;
    G.drc_gain_buffers.pstr_gain_buf[s].pstr_buf_interp = B[s];
    G.drc_gain_buffers.pstr_gain_buf[s].buf_interp_cnt = k;
    for (i = 0; i < k; i++) {
      B[s][i].prev_node.time = -1;
      for (b = 0; b < (int)(sizeof(B[s][i].lpcm_gains) / sizeof(FLOAT32)); b++) B[s][i].lpcm_gains[b] = 1;
    }
    if (s == G.ia_drc_params_struct.multiband_sel_drc_idx) {
      r |= impd_drc_init_all_filter_banks(&G.ia_filter_banks_struct, &Q, D);
      r |= impd_drc_init_overlap_weight(&G.str_overlap_params, &Q, D, SUBBAND_DOMAIN_MODE_STFT256);
    }
  }
  for (i = 0; i < 16; i++) { bandp[i] = band[i]; vx_junk_f32(band[i], 1024); }
  G.audio_band_buffer.non_interleaved_audio = bandp;
  return r;
}
void h_drc(void)
{
  int f, c, k, b, i, r = setup(), n = sub ? fs / 256 * 256 : fs;
  for (c = 0; c < nch; c++) { rep[c] = re[c]; imp[c] = im[c]; }
  for (f = 0; f < frames; f++) {
    for (k = 0; k < nseq; k++) for (b = 0; b < Q.gain_set_params[k].band_count; b++) {
      ia_drc_spline_nodes_struct *p = &N.drc_gain_sequence[k].str_spline_nodes[b];
      p->no_of_nodes = NI;
      for (i = 0; i < p->no_of_nodes; i++) { p->str_node[i].loc_gain_db = NF; p->str_node[i].slope = NF; p->str_node[i].time = NI; }
    }
    for (c = 0; c < nch; c++) {
      vx_sym_f32(re[c], n, (f * nch + c) * 2, -1, 1);
      if (sub) vx_sym_f32(im[c], n, (f * nch + c) * 2 + 1, -1, 1);
    }
    if (sub) r |= impd_drc_fd_process(rep, imp, &G, &C, &N, ln, boost, compress, 0);
    else r |= impd_drc_td_process(rep, &G, &C, &N, ln, boost, compress, 0);
    for (c = 0; c < nch; c++) {
      vx_out_f32(re[c], n, (f * nch + c) * 2);
      if (sub) vx_out_f32(im[c], n, (f * nch + c) * 2 + 1);
    }
  }
  vx_out_i32(r, 10000);
}
/* set-up refused when the channel groups need more filters than there are: groups, bands */
void h_many(void)
{
  static ia_drc_instructions_struct D;
  int g, b, n = vx_param(0);
  D.audio_num_chan = n; D.num_drc_ch_groups = n;
  for (g = 0; g < n; g++) {
    D.num_chan_per_ch_group[g] = 1; D.gain_set_index_for_channel_group[g] = g; D.band_count_of_ch_group[g] = vx_param(1); D.channel_group_of_ch[g] = g;
    Q.gain_set_params[g].band_count = vx_param(1); Q.gain_set_params[g].drc_band_type = 1;
    for (b = 1; b < vx_param(1); b++) Q.gain_set_params[g].gain_params[b].crossover_freq_idx = (g + b * 4) % 16;
  }
  vx_out_i32(impd_drc_init_all_filter_banks(&G.ia_filter_banks_struct, &Q, &D) != 0, 0);
}
