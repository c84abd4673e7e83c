/* Object metadata: configuration, enhanced configuration and frames, low delay decoding. */
#include "vp.h"
#include "vp_all.h"
#include "impeghd_oam_dec_defines.h"
#include "impeghd_oam_dec_struct_def.h"
#include "impeghd_oam_dec.h"
static void vp_on_longjmp(int code) { }
#include "vp_bits.h"
static ia_oam_dec_config_struct C;
static ia_enh_oam_config_struct E;
static ia_enh_obj_md_frame_str F, P;
static ia_oam_dec_state_struct S, R;
#ifndef NO
#define NO 2
#endif
#ifndef SUB
#define SUB 1
#endif
#ifndef VP_BITS_ND
void h_cfg(void)
{
  int r, i, any = 0, cc = vp_bool() ? 1024 : 768, len, n = vp_range(0, NO);
  vp_bits_init(VP_N);
  r = impeghd_obj_md_cfg(&C, &vp_bb, cc, n);
  EQ(C.ld_md_coding_present, 1);
  if (vp_rd(1)) len = cc;
  else {
    len = (vp_rd(6) + 1) * 64;
    if (len > cc || (len != 256 && len != 512 && len != 1024)) { vp_assert(r, "frame length refused"); return; }
  }
  vp_assert(!r, "accepted");
  vp_assert(C.frame_length == len && C.cc_frame_length == cc, "frame lengths");
  if (vp_rd(1)) {
    for (i = 0; i < n; i++) { any |= vp_peek(vp_pos, 1); EQ(C.is_screen_rel_obj[i], 1); }
    vp_assert(C.screen_rel_objs_present == any, "screen related objects");
  }
  EQ(C.dyn_obj_priority_present, 1); EQ(C.uniform_spread_present, 1);
  vp_assert(vp_used() == vp_pos, "cursor");
  vp_witness("end");
}
void h_enh(void)
{
  int r, i, n = vp_range(0, NO), d, wd = 0, wd0 = 0, wo = 0, common = 0, pre = 0;
  vp_bits_init(VP_N);
  r = impeghd_enh_obj_md_config(&E, &vp_bb, n);
  EQ(E.has_diffuseness, 1);
  if (E.has_diffuseness) EQ(E.has_common_group_diffuseness, 1);
  EQ(E.has_excluded_sectors, 1);
  if (E.has_excluded_sectors) { common = vp_rd(1); if (common) pre = vp_rd(1); }
  vp_assert(E.has_common_group_excluded_sectors == common, "common sectors");
  EQ(E.has_closest_speaker_condition, 1);
  if (E.has_closest_speaker_condition) EQ(E.closest_spk_thr_angle, 7);
  for (i = 0; i < n; i++) {
    d = vp_rd(1);
    vp_assert(E.has_divergence[i] == d, "divergence");
    if (d) { wd++; wd0 += vp_peek(vp_pos, 6) > 0; EQ(E.divergence_az_range[i], 6); } else wo++;
    if (!common) pre = vp_rd(1);
    vp_assert(E.use_only_predefined_sectors[i] == pre, "predefined sectors only");
  }
  vp_assert(vp_used() == vp_pos, "cursor");
  vp_assert(!r == (n + 2 * wd <= 24 && wo + 3 * wd0 <= 16), "refused exactly when the diverged objects exceed the renderer");
  if (!r) { vp_assert(E.num_obj_with_divergence == wd, "count"); vp_witness("end"); }
}
#ifndef SEC
#define SEC 2
#endif
static float ang(int v, int mid, float step, float lim) { float x = step * (float)(v - mid); return x < -lim ? -lim : x > lim ? lim : x; }
static void sectors(int o, int indep, int pre)
{
  int i, n, u, keep = indep ? 0 : vp_rd(1);
  vp_assert(F.keep_exclusion[o] == keep, "keep exclusion");
  if (keep) {
    vp_assert(F.num_exclusion_sectors[o] == P.num_exclusion_sectors[o], "kept sector count");
    for (i = 0; i < SEC; i++) if (i < P.num_exclusion_sectors[o])
      vp_assert(F.exclude_sector_index[o][i] == P.exclude_sector_index[o][i] && F.use_predefined_sector[o][i] == P.use_predefined_sector[o][i]
        && F.exclude_sector_min_az[o][i] == P.exclude_sector_min_az[o][i] && F.exclude_sector_max_az[o][i] == P.exclude_sector_max_az[o][i]
        && F.exclude_sector_min_ele[o][i] == P.exclude_sector_min_ele[o][i] && F.exclude_sector_max_ele[o][i] == P.exclude_sector_max_ele[o][i], "kept sector");
    return;
  }
  n = vp_rd(4);
  vp_assert(F.num_exclusion_sectors[o] == n, "sector count");
  vp_assume(n <= SEC);
  for (i = 0; i < n; i++) {
    u = pre ? 1 : vp_rd(1);
    if (!pre) vp_assert(F.use_predefined_sector[o][i] == u, "predefined sector");
    if (u) EQ(F.exclude_sector_index[o][i], 4);
    else {
      vp_assert(F.exclude_sector_min_az[o][i] == ang(vp_rd(7), 63, 3, 180), "min azimuth");
      vp_assert(F.exclude_sector_max_az[o][i] == ang(vp_rd(7), 63, 3, 180), "max azimuth");
      vp_assert(F.exclude_sector_min_ele[o][i] == ang(vp_rd(5), 15, 6, 90), "min elevation");
      vp_assert(F.exclude_sector_max_ele[o][i] == ang(vp_rd(5), 15, 6, 90), "max elevation");
    }
  }
}
static void part(float v, float before, int now_keep, int indep) /* a 0..1 amount */
{
  int keep = indep ? 0 : vp_rd(1);
  vp_assert(now_keep == keep, "keep flag");
  if (keep) vp_assert(v == before, "kept amount");
  else vp_assert(v == (float)vp_rd(7) / 127.0f, "amount");
}
void h_frame(void)
{
  int r, o, i, indep = vp_bool(), n = NO;
  vp_bits_init(VP_N);
  E.has_diffuseness = vp_bool(); E.has_common_group_diffuseness = vp_bool();
  E.has_common_group_excluded_sectors = vp_bool();
  for (o = 0; o < NO; o++) {
    E.has_divergence[o] = vp_bool(); E.use_only_predefined_sectors[o] = vp_bool();
    F.num_exclusion_sectors[o] = vp_range(0, SEC);
    F.divergence[o] = vp_f32_in(0, 1); F.diffuseness[o] = vp_f32_in(0, 1);
    for (i = 0; i < SEC; i++) {
      F.use_predefined_sector[o][i] = vp_bool(); F.exclude_sector_index[o][i] = vp_range(0, 15);
      F.exclude_sector_min_az[o][i] = vp_f32_in(-180, 180); F.exclude_sector_max_az[o][i] = vp_f32_in(-180, 180);
      F.exclude_sector_min_ele[o][i] = vp_f32_in(-90, 90); F.exclude_sector_max_ele[o][i] = vp_f32_in(-90, 90);
    }
  }
#ifdef ONLYSEC
  E.has_diffuseness = 0; E.has_divergence[0] = E.has_divergence[1] = 0;
#endif
  F.p_enh_obj_md_cfg = &E;
  P = F;
  r = impeghd_enh_obj_md_frame(&F, &vp_bb, n, indep);
  vp_assert(!r, "accepted");
  if (E.has_common_group_excluded_sectors && (n > 0 || SEC)) {
    if (n == 0) return; /* sectors of no object */
    sectors(0, indep, E.use_only_predefined_sectors[0]);
  }
  if (E.has_diffuseness && E.has_common_group_diffuseness) { if (n == 0) return; part(F.diffuseness[0], P.diffuseness[0], F.keep_diffuseness[0], indep); }
  for (o = 0; o < n; o++) {
    EQ(F.closest_spkr_playout[o], 1);
    if (E.has_divergence[o]) part(F.divergence[o], P.divergence[o], F.keep_divergence[o], indep);
    if (E.has_diffuseness && !E.has_common_group_diffuseness) part(F.diffuseness[o], P.diffuseness[o], F.keep_diffuseness[o], indep);
    if (!E.has_common_group_excluded_sectors) sectors(o, indep, E.use_only_predefined_sectors[o]);
  }
  vp_assert(vp_used() == vp_pos, "cursor");
  vp_witness("end");
}
/* ---- low delay ------------------------------------------------------------------------- */
static int sgn(int n) { int v = vp_rd(n); return v >= 1 << (n - 1) ? v - (1 << n) : v; }
static int lo, hi; /* the objects of this sub-frame */
static void val(int32_t *ref, int bits, int sig)
{
  int i, v = 0, fixed = vp_rd(1), common = fixed ? 1 : vp_rd(1);
  if (common) v = sig ? sgn(bits) : vp_rd(bits);
  for (i = lo; i < hi; i++) ref[i] = common ? v : sig ? sgn(bits) : vp_rd(bits);
}
static int at(int i) { return i >= lo && i < hi; }
static float clampf(float v, float a, float b) { return v < a ? a : v > b ? b : v; }
void h_ld(void)
{
  int r, i, k, intra, uni, pri, sub = SUB, abs = 0, nf = 0;
  vp_bits_init(VP_N);
  C.uniform_spread_present = uni = vp_bool(); C.dyn_obj_priority_present = pri = vp_bool();
  C.ld_md_coding_present = 1;
  C.frame_length = 256;
  S.p_obj_md_cfg = &C;
  S.num_objects = NO; S.sub_frame_number = sub;
  lo = (sub - 1) * NO; hi = sub * NO;
  S.azimuth_fixed = vp_bool(); S.elevation_fixed = vp_bool(); S.radius_fixed = vp_bool(); S.gain_fixed = vp_bool(); S.spread_fixed = vp_bool();
#ifdef FIX
  S.elevation_fixed = S.radius_fixed = S.gain_fixed = S.spread_fixed = 1; C.dyn_obj_priority_present = pri = 0;
#endif
  for (i = 0; i < SUB * NO + NO; i++) {
    S.azimuth[i] = vp_range(-1000, 1000); S.elevation[i] = vp_range(-1000, 1000); S.radius[i] = vp_range(-30, 30); S.gain[i] = vp_range(-200, 200);
    S.spread_width[i] = vp_range(-1000, 1000); S.spread_height[i] = vp_range(-1000, 1000); S.spread_depth[i] = vp_range(-30, 30); S.dyn_obj_priority[i] = vp_range(-30, 30);
    S.has_obj_md[i] = vp_bool();
    S.azimuth_descaled[i] = S.elevation_descaled[i] = S.spread_width_descaled[i] = -7;
  }
  R = S;
#ifndef INTRA
#define INTRA 0
#endif
  vp_assume((vp_buf[0] >> 7) == INTRA);
  r = impeghd_obj_md_dec(&S, &vp_bb);
  vp_assert(!r, "accepted");
  intra = vp_rd(1);
  if (intra && NO > 1) {
    val(R.azimuth, 8, 1); val(R.elevation, 6, 1); val(R.radius, 4, 0); val(R.gain, 7, 1);
    { int w = 0, h = 0, d = 0, common = vp_rd(1) ? 1 : vp_rd(1);
      for (i = lo; i < hi; i++) {
        if (i == lo || !common) { w = vp_rd(7); if (!uni) { h = vp_rd(5); d = vp_rd(4); } }
        R.spread_width[i] = w; if (!uni) { R.spread_height[i] = h; R.spread_depth[i] = d; }
      }
    }
    if (pri) val(R.dyn_obj_priority, 3, 0);
  } else if (intra) {
    R.azimuth[lo] = sgn(8); R.elevation[lo] = sgn(6); R.radius[lo] = vp_rd(4); R.gain[lo] = sgn(7);
    R.spread_width[lo] = vp_rd(7); if (!uni) { R.spread_height[lo] = vp_rd(5); R.spread_depth[lo] = vp_rd(4); }
    if (pri) R.dyn_obj_priority[lo] = vp_rd(3);
  } else {
    abs = vp_rd(1);
    for (i = lo; i < hi; i++) {
      R.has_obj_md[i] = vp_rd(1);
      if (!R.has_obj_md[i]) continue;
      if (abs) {
        R.azimuth[i] = R.azimuth_fixed ? 0 : sgn(8); R.elevation[i] = R.elevation_fixed ? 0 : sgn(6);
        R.radius[i] = R.radius_fixed ? 0 : vp_rd(4); R.gain[i] = R.gain_fixed ? 0 : sgn(7);
        if (R.spread_fixed) R.spread_width[i] = R.spread_height[i] = R.spread_depth[i] = 0;
        else { R.spread_width[i] = vp_rd(7); if (!uni) { R.spread_height[i] = vp_rd(5); R.spread_depth[i] = vp_rd(4); } }
        if (pri) R.dyn_obj_priority[i] = vp_rd(3);
      } else {
        int nb = vp_rd(3) + 2;
#define D(f, cap) do { if (vp_rd(1)) R.f[i] += sgn(nb < (cap) + 1 ? nb : (cap) + 1); } while (0)
        if (!R.azimuth_fixed) D(azimuth, 20);
        if (!R.elevation_fixed) D(elevation, 6);
        if (!R.radius_fixed) D(radius, 4);
        if (!R.gain_fixed) D(gain, 7);
        if (R.spread_fixed) R.spread_width[i] = R.spread_height[i] = R.spread_depth[i] = 0;
        else { D(spread_width, 7); if (!uni) { D(spread_height, 5); D(spread_depth, 4); } }
        if (pri) D(dyn_obj_priority, 3);
      }
    }
  }
  vp_assert(vp_used() == vp_pos, "cursor");
#define SM(f) vp_assert(S.f[i] == R.f[i], #f)
  for (i = 0; i < SUB * NO + NO; i++) {
    SM(azimuth); SM(elevation); SM(radius); SM(gain); SM(spread_width); SM(spread_height); SM(spread_depth); SM(dyn_obj_priority);
    if (!intra) SM(has_obj_md);
#ifndef NOSCALE
    if (at(i)) {
      vp_assert(S.azimuth_descaled[i] == clampf(R.azimuth[i] * 1.5f, -180, 180), "azimuth in degrees");
      vp_assert(S.elevation_descaled[i] == clampf(R.elevation[i] * 3.0f, -90, 90), "elevation in degrees");
      vp_assert(S.spread_width_descaled[i] == clampf(R.spread_width[i] * 1.5f, 0, 180), "spread in degrees");
      vp_assert(S.dyn_obj_priority_descaled[i] == clampf(R.dyn_obj_priority[i], 0, 7), "priority");
      vp_assert(S.radius_descaled[i] >= 0.5f && S.radius_descaled[i] <= 16, "radius in range");
      vp_assert(S.gain_descaled[i] >= 0.004f && S.gain_descaled[i] <= 5.957f, "gain in range");
      if (!uni) {
        vp_assert(S.spread_height_descaled[i] == clampf(R.spread_height[i] * 3.0f, 0, 90), "spread height in degrees");
        vp_assert(S.spread_depth_descaled[i] >= 0 && S.spread_depth_descaled[i] <= 15.5f, "spread depth in range");
      }
    } else
      vp_assert(S.azimuth_descaled[i] == -7 && S.elevation_descaled[i] == -7 && S.spread_width_descaled[i] == -7, "other sub-frames untouched");
#endif
  }
  vp_witness("end");
}
#else
void s_all(void)
{
  int n = 24, k;
  vp_bits_init(1);
#if KIND == 0
  impeghd_obj_md_cfg(&C, &vp_bb, 1024, n);
#elif KIND == 2
  int r, wd = 0, wd0 = 0;
  n = vp_range(0, 24);
  r = impeghd_enh_obj_md_config(&E, &vp_bb, n);
  for (k = 0; k < n; k++) if (E.has_divergence[k]) { wd++; wd0 += E.divergence_az_range[k] > 0; }
  vp_assert(!r == (n + 2 * wd <= 24 && n - wd + 3 * wd0 <= 16), "refused exactly when the diverged objects exceed the renderer");
#elif KIND == 1
  F.p_enh_obj_md_cfg = &E;
  E.has_diffuseness = vp_bool(); E.has_common_group_diffuseness = vp_bool(); E.has_common_group_excluded_sectors = vp_bool();
  for (k = 0; k < 2; k++) { E.has_divergence[k] = vp_bool(); E.use_only_predefined_sectors[k] = vp_bool(); F.num_exclusion_sectors[k] = vp_range(0, 15); }
  impeghd_enh_obj_md_frame(&F, &vp_bb, 2, vp_bool());
#endif
  vp_witness("end");
}
#endif
