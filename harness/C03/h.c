/* MPEG-H audio scene information: every field lands where the syntax says, and the cursor ends where it should. */
#include "vp.h"
#include "impeghd_mhas_parse.c"
static void vp_on_longjmp(int code) { }
#ifndef VP_N
#define VP_N 40
#endif
#include "vp_bits.h"
static ia_mae_audio_scene_info A;
static ia_mae_group_def g[16];
static ia_mae_switch_group_def sg[8];
static ia_mae_group_presets_def pg[8];
static ia_mae_group_presets_ext_def px;
static ia_description_data dd;
#ifndef VP_BITS_ND
#ifndef KIND
#define KIND 0
#endif
#ifndef NG
#define NG 2
#endif
#ifndef NM
#define NM 2
#endif
void h_group(void)
{
  int i, j, r;
  vp_bits_init(VP_N);
  r = impeghd_mae_asi_group_def(g, &vp_bb, NG);
  for (i = 0; i < NG; i++) {
    EQ(g[i].group_id, 7);
    for (j = 0; j < i; j++)
      if (g[i].group_id == g[j].group_id) { vp_assert(r, "duplicate group id rejected"); vp_witness("dup"); return; }
    EQ(g[i].allow_on_off, 1); EQ(g[i].default_on_off, 1); EQ(g[i].allow_pos_interact, 1);
    if (g[i].allow_pos_interact) {
      EQ(g[i].min_az_offset, 7); EQ(g[i].max_az_offset, 7); EQ(g[i].min_el_offset, 5);
      EQ(g[i].max_el_offset, 5); EQ(g[i].min_dist_factor, 4); EQ(g[i].max_dist_factor, 4);
    }
    EQ(g[i].allow_gain_interact, 1);
    if (g[i].allow_gain_interact) { EQ(g[i].min_gain, 6); EQ(g[i].max_gain, 5); }
    vp_assert(g[i].group_num_members == (int)vp_rd(7) + 1, "group_num_members");
    EQ(g[i].has_conjunct_members, 1);
    if (g[i].has_conjunct_members) EQ(g[i].start_id, 7);
    else {
      vp_assume(g[i].group_num_members <= NM);
      for (j = 0; j < g[i].group_num_members; j++) EQ(g[i].metadata_ele_id[j], 7);
    }
  }
  vp_assert(!r, "well-formed groups accepted");
  vp_assert(vp_used() == vp_pos, "cursor");
  vp_witness("end");
}
void h_switch(void)
{
  int i, j, r;
  vp_bits_init(VP_N);
  r = impeghd_mae_asi_switch_group_def(sg, &vp_bb, NG);
  for (i = 0; i < NG; i++) {
    EQ(sg[i].group_id, 5);
    for (j = 0; j < i; j++)
      if (sg[i].group_id == sg[j].group_id) { vp_assert(r, "duplicate group id rejected"); return; }
    EQ(sg[i].allow_on_off, 1);
    if (sg[i].allow_on_off) EQ(sg[i].default_on_off, 1);
    vp_assert(sg[i].group_num_members == (int)vp_rd(5) + 1, "members");
    vp_assume(sg[i].group_num_members <= NM);
    for (j = 0; j < sg[i].group_num_members; j++) EQ(sg[i].member_id[j], 7);
    EQ(sg[i].default_group_id, 7);
  }
  vp_assert(!r, "well-formed switch groups accepted");
  vp_assert(vp_used() == vp_pos, "cursor");
  vp_witness("end");
}
void h_preset(void)
{
  int i, j, r;
  vp_bits_init(VP_N);
  for (i = 0; i < NG; i++) { g[i].allow_gain_interact = vp_bool(); g[i].allow_pos_interact = vp_bool(); }
  r = impeghd_mae_asi_group_presets_def(pg, g, &vp_bb, NG);
  for (i = 0; i < NG; i++) {
    EQ(pg[i].group_id, 5);
    for (j = 0; j < i; j++)
      if (pg[i].group_id == pg[j].group_id) { vp_assert(r, "duplicate group id rejected"); return; }
    EQ(pg[i].preset_kind, 5);
    vp_assert(pg[i].num_conditions == (int)vp_rd(4) + 1, "conditions");
    vp_assume(pg[i].num_conditions <= NM);
    for (j = 0; j < pg[i].num_conditions; j++) {
      EQ(pg[i].reference_id[j], 7); EQ(pg[i].cond_on_off[j], 1);
      if (pg[i].cond_on_off[j]) {
        EQ(pg[i].disable_gain_interact[j], 1); EQ(pg[i].gain_flag[j], 1);
        if (pg[i].gain_flag[j]) EQ8(pg[i].gain[j], 8);
        if (!g[i].allow_gain_interact && pg[i].gain_flag[j]) { vp_assert(r, "preset gain without gain interaction rejected"); vp_witness("gain"); return; }
        EQ(pg[i].disable_pos_interact[j], 1); EQ(pg[i].position_interact[j], 1);
        if (pg[i].position_interact[j]) {
          EQ8(pg[i].azimuth_offset[j], 8); EQ(pg[i].elevation_offset[j], 6); EQ(pg[i].dist_factor[j], 4);
        }
        if (!g[i].allow_pos_interact && pg[i].position_interact[j]) { vp_assert(r, "preset position without position interaction rejected"); return; }
      }
    }
  }
  vp_assert(!r, "well-formed presets accepted");
  vp_assert(vp_used() == vp_pos, "cursor");
  vp_witness("end");
}
void h_descr(void)
{
  int b, l, k, r, gb = vp_bool() ? 7 : 5;
  vp_bits_init(VP_N);
  vp_assume(vp_buf[0] >> 1 < NG);
  r = impeghd_mae_parse_description_data(&dd, &vp_bb, gb);
  vp_assert(dd.num_descr_blks == vp_rd(7) + 1, "blocks");
  for (b = 0; b < dd.num_descr_blks && b < NG; b++) {
    int nl;
    EQ(dd.grp_id[b], gb);
    nl = vp_rd(4) + 1;
    if (nl > MAX_NUM_DESCR_LANGUAGES) { vp_assert(r, "too many languages rejected"); vp_witness("lang"); return; }
    vp_assert(dd.num_descr_languages[b] == nl, "languages");
    vp_assume(nl <= 2);
    for (l = 0; l < nl; l++) {
      EQ(dd.descr_language[b][l], 24);
      vp_assert(dd.descr_data_length[b][l] == (int)vp_rd(8) + 1, "text length");
      vp_assume(dd.descr_data_length[b][l] <= NM);
      for (k = 0; k < dd.descr_data_length[b][l]; k++) EQ8(dd.descr_data[b][l][k], 8);
    }
  }
  vp_assert(!r, "accepted");
  vp_assert(vp_used() == vp_pos, "cursor");
  vp_witness("end");
}
/* one data set inside the data set container */
void h_set(void)
{
  int i, j, r, len, start, end;
  vp_bits_init(VP_N);
  vp_buf[0] = 0x10 | KIND; /* one set, of kind KIND; 16 bits of length follow */
  len = (vp_buf[1] << 8) | vp_buf[2];
  vp_assume(len <= (KIND == 12 ? 12 : 3 * VP_N));
  /* entry counts within the bound */
  if (KIND == 2 || KIND == 3) vp_assume(vp_buf[3] >> 1 <= NM);
  if (KIND == 6) vp_assume(((vp_buf[3] >> 3) & 7) <= NM);
  if (KIND == 7) vp_assume(vp_buf[3] & 0x80 ? (vp_buf[5] & 7) * 4 + (vp_buf[6] >> 6) <= NM : ((vp_buf[3] >> 2) & 31) <= NM);
  r = impeghd_mae_asi_data_parse(&A, &vp_bb);
  vp_assert(A.mae_data.num_data_sets == 1 && A.mae_data.data_type[0] == KIND && A.mae_data.data_length[0] == len, "data set header");
  vp_pos = start = 24;
  switch (KIND) {
  case 2:
    EQ(A.content_data.num_data_blks, 7);
    for (i = 0; i < A.content_data.num_data_blks + 1; i++) {
      EQ(A.content_data.data_grp_id[i], 7); EQ(A.content_data.content_kind[i], 4); EQ(A.content_data.has_content_language[i], 1);
      if (A.content_data.has_content_language[i]) EQ(A.content_data.content_language[i], 24);
    }
    break;
  case 3:
    EQ(A.composite_pair_data.num_pairs, 7);
    for (i = 0; i < A.composite_pair_data.num_pairs; i++) { EQ(A.composite_pair_data.ele_id[i][0], 7); EQ(A.composite_pair_data.ele_id[i][1], 7); }
    break;
  case 4:
    EQ(A.screen_size_data.has_non_std_screen_size, 1);
    if (A.screen_size_data.has_non_std_screen_size) { EQ(A.screen_size_data.screen_size_az, 9); EQ(A.screen_size_data.screen_size_el, 9); EQ(A.screen_size_data.screen_size_bot_el, 9); }
    break;
  case 6:
    EQ(A.drc_interface_info.version, 2);
    if (A.drc_interface_info.version == 0) {
      EQ(A.drc_interface_info.num_tgt_loudness_cnd, 3);
      for (i = 0; i < A.drc_interface_info.num_tgt_loudness_cnd; i++) { EQ(A.drc_interface_info.tgt_loudness_value[i + 1], 6); vp_rd(16); }
    }
    break;
  case 7: {
    ia_production_screen_size_ext_data *s = &A.screen_size_ext_data;
    EQ(s->overwrite_prod_screen_size_data, 1);
    if (s->overwrite_prod_screen_size_data) { EQ(s->default_screen_sz_left_az, 10); EQ(s->default_screen_sz_right_az, 10); }
    EQ(s->num_preset_prod_screens, 5);
    for (i = 0; i < s->num_preset_prod_screens; i++) {
      EQ(s->screen_grp_preset_id[i], 5); EQ(s->has_non_std_screen_sz[i], 1);
      if (s->has_non_std_screen_sz[i]) {
        EQ(s->centered_in_az[i], 1);
        if (s->centered_in_az[i]) EQ(s->screen_sz_left_az[i], 9);
        else { EQ(s->screen_sz_left_az[i], 10); EQ(s->screen_sz_right_az[i], 10); }
        EQ(s->screen_sz_top_el[i], 9); EQ(s->screen_sz_bot_el[i], 9);
      }
    }
    break; }
  case 9:
    EQ(A.loud_comp_data.group_loudness_present, 1); EQ(A.loud_comp_data.default_params_present, 1);
    if (A.loud_comp_data.default_params_present) {
      EQ(A.loud_comp_data.default_min_max_gain_present, 1);
      if (A.loud_comp_data.default_min_max_gain_present) { EQ(A.loud_comp_data.default_min_gain, 4); EQ(A.loud_comp_data.default_max_gain, 4); }
    }
    break;
  default: /* unknown kinds are stepped over */
    vp_pos += 8 * len;
    break;
  }
  vp_assert(!r, "accepted");
  end = vp_pos;
  if (end < start + 8 * len) end = start + 8 * len; /* a longer data set than the known fields is skipped as a whole */
  vp_pos = end;
  vp_assert(vp_used() == vp_pos, "cursor");
  vp_witness("end");
}
/* loudness compensation: per group and per preset blocks */
void h_loud(void)
{
  int i, j;
  ia_loudness_compensation_data *d = &A.loud_comp_data;
  vp_bits_init(VP_N);
  A.num_groups = vp_range(0, NG); A.num_group_presets = vp_range(0, NM);
  impeghd_mae_parse_loudness_comp_data(&A, &vp_bb);
  EQ(d->group_loudness_present, 1);
  if (d->group_loudness_present) for (i = 0; i < A.num_groups; i++) EQ8(d->group_loudness[i], 8);
  EQ(d->default_params_present, 1);
  if (d->default_params_present) {
    for (i = 0; i < A.num_groups; i++) EQ(d->default_include_group[i], 1);
    EQ(d->default_min_max_gain_present, 1);
    if (d->default_min_max_gain_present) { EQ(d->default_min_gain, 4); EQ(d->default_max_gain, 4); }
  }
  for (j = 0; j < A.num_group_presets; j++) {
    EQ(d->preset_params_present[j], 1);
    if (d->preset_params_present[j]) {
      for (i = 0; i < A.num_groups; i++) EQ(d->preset_include_group[j][i], 1);
      EQ(d->preset_min_max_gain_present[j], 1);
      if (d->preset_min_max_gain_present[j]) { EQ(d->preset_min_gain[j], 4); EQ(d->preset_max_gain[j], 4); }
    }
  }
  vp_assert(vp_used() == vp_pos, "cursor");
  vp_witness("end");
}
/* main stream header, no groups, no sets */
void h_head(void)
{
  int r;
  vp_bits_init(VP_N);
  vp_buf[0] = 0xD6; vp_buf[1] = 0x80; vp_buf[2] = 0; vp_buf[3] = 0;
  r = impeghd_mae_asi_parse(&A, &vp_bb);
  vp_assert(!r, "accepted");
  EQ(A.main_stream_flag, 1); EQ(A.asi_id_present, 1); EQ(A.asi_id, 8); EQ(A.num_groups, 7); EQ(A.num_switch_groups, 5); EQ(A.num_group_presets, 5);
  EQ(A.mae_data.num_data_sets, 4);
  vp_assert(A.mae_id_offset == 0, "offset");
  EQ(A.mae_id_max_avail, 7);
  vp_assert(vp_used() == vp_pos, "cursor");
  vp_witness("end");
}
/* more entries than the tables hold */
#ifndef LG
#define LG 17
#define LS 0
#define LP 0
#endif
void h_limit(void)
{
  int r;
  vp_bits_init(VP_N);
  /* 1 main, 0 id, 7 groups, 5 switch groups, 5 presets */
  vp_buf[0] = 0x80 | (LG >> 1); vp_buf[1] = ((LG & 1) << 7) | (LS << 2) | (LP >> 3); vp_buf[2] = LP << 5;
  r = impeghd_mae_asi_parse(&A, &vp_bb);
  vp_assert(r, "too many entries rejected");
  vp_assert(A.num_groups >= 0 && A.num_groups <= 16 && A.num_switch_groups >= 0 && A.num_switch_groups <= 8 && A.num_group_presets >= 0 && A.num_group_presets <= 8, "counts within the tables");
  vp_witness("end");
}
void h_sub(void)
{
  int r;
  vp_bits_init(VP_N);
  vp_buf[0] = 0x2B; /* not the main stream */
  r = impeghd_mae_asi_parse(&A, &vp_bb);
  vp_assert(!r && A.main_stream_flag == 0, "sub stream");
  vp_rd(1);
  vp_assert(A.mae_id_offset == (int)vp_rd(7) + 1, "offset");
  EQ(A.mae_id_max_avail, 7);
  vp_assert(vp_used() == vp_pos, "cursor");
  vp_witness("end");
}
#else
#ifndef SG
#define SG 1
#endif
/* any bitstream at all: nothing is written outside the scene description */
void s_group(void) { vp_bits_init(0); impeghd_mae_asi_group_def(g, &vp_bb, SG); vp_witness("end"); }
void s_switch(void) { vp_bits_init(0); impeghd_mae_asi_switch_group_def(sg, &vp_bb, SG); vp_witness("end"); }
void s_preset(void) { vp_bits_init(0); impeghd_mae_asi_group_presets_def(pg, g, &vp_bb, SG); vp_witness("end"); }
void s_presetx(void) { vp_bits_init(0); impeghd_mae_asi_group_presets_def_ext(&px, g, &vp_bb, SG, 16); vp_witness("end"); }
void s_loud(void) { vp_bits_init(0); A.num_groups = 16; A.num_group_presets = 8; impeghd_mae_parse_loudness_comp_data(&A, &vp_bb); vp_witness("end"); }
void s_content(void) { vp_bits_init(0); impeghd_mae_parse_content_data(&A.content_data, &vp_bb); vp_witness("end"); }
void s_composite(void) { vp_bits_init(0); impeghd_mae_parse_composite_pair(&A.composite_pair_data, &vp_bb); vp_witness("end"); }
void s_screen(void) { vp_bits_init(0); impeghd_mae_parse_prod_screen_sz_data_ext(&A.screen_size_ext_data, &vp_bb); vp_witness("end"); }
void s_drc(void) { vp_bits_init(0); impeghd_mae_parse_drc_user_interface_info(&A.drc_interface_info, &vp_bb); vp_witness("end"); }
void s_descr(void) { vp_bits_init(0); impeghd_mae_parse_description_data(&dd, &vp_bb, 7); vp_witness("end"); }
#endif
