/* User interaction with audio elements, and scene displacement. */
#include "vp.h"
#include "vp_all.h"
static int expect_short;
static void vp_on_longjmp(int code) { vp_assert(expect_short, "data that fits is not refused"); }
#include "vp_bits.h"
#ifndef NG
#define NG 2
#endif
#ifndef SGR
#define SGR 16
#endif
static ia_ele_intrctn E, R; /* result, reference */
static ia_mae_audio_scene_info A;
static ia_scene_disp_data S;
static void scene(void)
{
  int i;
  A.asi_present = vp_bool();
  A.num_groups = vp_range(0, SGR);
  A.num_group_presets = vp_range(0, 8);
  for (i = 0; i < SGR; i++) {
    A.group_definition[i].group_id = vp_range(0, 127);
    A.group_definition[i].allow_pos_interact = vp_bool();
    A.group_definition[i].allow_gain_interact = vp_bool();
  }
  for (i = 0; i < 8; i++) A.group_presets_definition[i].group_id = vp_range(0, 31);
}
static int group(int id) { int i; for (i = 0; i < SGR; i++) if (i < A.num_groups && A.group_definition[i].group_id == id) return i; return -1; }
static int preset(int id) { int i; for (i = 0; i < 8; i++) if (i < A.num_group_presets && A.group_presets_definition[i].group_id == id) return i; return -1; }
#ifndef VP_BITS_ND
static int parse(int bits) /* the reference: is the data valid, does it fit, what does it say */
{
  int i, k, n, len, mode, ng, g;
  vp_pos = 0;
#define NEED if (vp_pos > bits) { expect_short = 1; return 0; }
  len = vp_rd(8); vp_assume(len <= 2); NEED
  R.ei_intrctn_sign_data_len = len;
  if (len) { R.ei_intrctn_sign_data_type = vp_rd(8); for (i = 0; i < len; i++) R.ei_intrctn_sign_data[i] = vp_rd(8); } NEED
  mode = vp_rd(1); NEED
  R.ei_intrctn_mode = mode;
  if (A.asi_present && A.num_group_presets && !mode) return 0;
  ng = vp_rd(7); NEED
  R.ei_num_groups = ng;
  if (A.asi_present && ng != A.num_groups) return 0;
  if (mode) {
    k = vp_rd(5); NEED
    R.ei_group_preset_id = k;
    if (A.asi_present && preset(k) < 0) return 0;
  }
  vp_assume(ng <= NG);
  for (i = 0; i < ng; i++) {
    int on, id = vp_rd(7); NEED
    R.ei_grp_id[i] = id;
    g = group(id);
    if (A.asi_present && g < 0) return 0;
    on = vp_rd(1); NEED
    R.ei_on_off[i] = on;
    n = vp_rd(1); NEED
    R.ei_route_to_wire[i] = n;
    if (n) R.route_to_wire_id[i] = vp_rd(16); else R.route_to_wire_id[i] = -1;
    if (on) {
      n = vp_rd(1); NEED
      R.ei_change_pos[i] = n;
      if (!n && A.asi_present && A.group_definition[g].allow_pos_interact) return 0;
      if (n) { R.ei_az_offset[i] = vp_rd(8); R.ei_el_offset[i] = vp_rd(6); R.ei_dist_fact[i] = vp_rd(4); }
      n = vp_rd(1); NEED
      R.ei_change_gain[i] = n;
      if (!n && A.asi_present && A.group_definition[g].allow_gain_interact) return 0;
      if (n) R.ei_gain[i] = vp_rd(7);
    }
    NEED
  }
  n = vp_rd(1); NEED
  R.has_zoom_area_sz = n;
  if (n) { R.zoom_az_center = vp_rd(10); R.zoom_az = vp_rd(10); R.zoom_el_center = vp_rd(9); R.zoom_el = vp_rd(10); }
  NEED
  return 1;
}
void h_ei(void)
{
  int i, r, valid, bytes = vp_range(0, VP_N - 8);
  vp_bits_init(bytes);
  scene();
  valid = parse(bytes * 8);
  r = impeghd_ele_interaction(&vp_bb, &E, &A);
  vp_assert(!expect_short, "truncated data does not return");
  vp_assert(!r == valid, "data is accepted exactly when it names groups and presets of the scene and keeps its rules");
  if (valid) {
#define SAME(f) vp_assert(E.f == R.f, #f)
    SAME(ei_intrctn_sign_data_len);
    if (R.ei_intrctn_sign_data_len) SAME(ei_intrctn_sign_data_type);
    for (i = 0; i < 2; i++) if (i < R.ei_intrctn_sign_data_len) SAME(ei_intrctn_sign_data[i]);
    SAME(ei_intrctn_mode); SAME(ei_num_groups);
    if (R.ei_intrctn_mode) SAME(ei_group_preset_id);
    for (i = 0; i < NG; i++) if (i < R.ei_num_groups) {
      SAME(ei_grp_id[i]); SAME(ei_on_off[i]); SAME(ei_route_to_wire[i]); SAME(route_to_wire_id[i]);
      if (R.ei_on_off[i]) {
        SAME(ei_change_pos[i]); SAME(ei_change_gain[i]);
        if (R.ei_change_pos[i]) { SAME(ei_az_offset[i]); SAME(ei_el_offset[i]); SAME(ei_dist_fact[i]); }
        if (R.ei_change_gain[i]) SAME(ei_gain[i]);
      }
    }
    SAME(has_zoom_area_sz);
    if (R.has_zoom_area_sz) { SAME(zoom_az_center); SAME(zoom_az); SAME(zoom_el_center); SAME(zoom_el); }
    vp_assert(vp_used() == vp_pos, "cursor");
    vp_assert(E.ei_data_present == 1, "present");
    vp_witness("end");
  }
}
void h_sd(void)
{
  int bytes = vp_range(0, 8);
  vp_bits_init(bytes);
  S.sd_buf = vp_bb;
  expect_short = bytes * 8 < 45;
  vp_assert(!impeghd_scene_displacement_data(&S), "accepted");
  vp_assert(!expect_short, "truncated data does not return");
  EQ(S.sd_yaw, 9); EQ(S.sd_pitch, 9); EQ(S.sd_roll, 9); EQ(S.sd_azimuth, 8); EQ(S.sd_elevation, 6); EQ(S.sd_radius, 4);
  vp_assert(S.scene_dspl_data_present == 1, "present");
  vp_assert(S.sd_buf.size - S.sd_buf.cnt_bits == 45, "cursor");
  vp_witness("end");
}
#else
void s_ei(void) /* every count the syntax allows stays inside the tables */
{
  vp_bits_init(1);
  scene();
  A.asi_present = ASI;
  impeghd_ele_interaction(&vp_bb, &E, &A);
  vp_witness("end");
}
#endif
