#include "vp_all.h"
#include "impeghd_cicp_defines.h"
#include "vx.h"
extern const ia_cicp_ls_geo_str ia_cicp_ls_geo_tbls[];
typedef double V3[3];
static ia_obj_ren_dec_state_struct st;
static ia_local_setup_struct ls;
static ia_speaker_config_3d cfg;
static ia_oam_dec_config_struct oc;
static char scratch[4096];
static float dir[3];
#ifndef REAL
void impeghd_pol_2_cart_degree(ia_polar_coord_str *p, ia_cart_coord_str *c)
{
  if (p->radius == 77.0f) { c->x = dir[0]; c->y = dir[1]; c->z = dir[2]; return; }
  c->x = p->radius * (float)(cos(p->theta * DEG_2_RAD) * cos(p->phi * DEG_2_RAD));
  c->y = p->radius * (float)(sin(p->theta * DEG_2_RAD) * cos(p->phi * DEG_2_RAD));
  c->z = p->radius * (float)sin(p->phi * DEG_2_RAD);
}
#endif
static const float flex[][24][2] = {
  {{30, 0}, {-30, 0}, {0, 0}, {110, 0}, {-110, 0}, {45, 35}, {-45, 35}, {135, 35}, {-135, 35}, {45, -60}, {-45, -60}, {180, -60}, {0, 90}},   /* all around: no imaginary speaker */
  {{30, 0}, {-30, 0}, {110, 0}, {-110, 0}, {45, 50}, {-45, 50}, {180, 50}, {170, -50}, {-10, -50}},                             /* speakers above and below */
  {{60, 0}, {20, 0}, {-20, 0}, {-60, 0}},                                                                                     /* frontal arc */
  {{45, 0}, {0, 0}, {-45, 0}, {-90, 0}, {-135, 0}, {180, 0}, {135, 0}, {90, 0}, {45, 40}, {0, 40}, {-45, 40}, {-90, 40}, {-135, 40}, {180, 40}, {135, 40}, {90, 40},
   {30, -40}, {-30, -40}, {150, -40}, {-150, -40}, {70, 70}, {-70, 70}, {-170, 70}, {90, -40}},                               /* 24 speakers */
};
static const int flexn[] = {13, 9, 4, 24};
static void setup(int lay)
{
  ls.enable_ele_int = 0;
  st.pstr_local_setup = &ls;
  if (lay > 0) { cfg.spk_layout_type = 0; cfg.cicp_spk_layout_idx = lay; st.cicp_out_idx = lay; }
  else
  {
    int k = -lay, i;
    cfg.spk_layout_type = 2;
    cfg.num_speakers = flexn[k];
    for (i = 0; i < flexn[k]; i++)
    {
      cfg.str_flex_spk.azimuth[i] = flex[k][i][0];
      cfg.str_flex_spk.elevation[i] = flex[k][i][1];
      cfg.str_flex_spk.str_flex_spk_descr[i].is_lfe = 0;
    }
  }
  vx_assert(impeghd_obj_renderer_dec_init(&st, &cfg, scratch) == 0, "the layout is accepted");
}
/* the layout, from the tables */
static int nls, nimag, tot, ntri, ori[64];
static V3 pos[64];
static double D[64][64], T[64][64];
static double det3(const double *a, const double *b, const double *c)
{
  return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]);
}
static void sph(double az, double el, double r, double *v)
{
  double d = 3.14159265358979323846 / 180;
  v[0] = r * cos(az * d) * cos(el * d); v[1] = r * sin(az * d) * cos(el * d); v[2] = r * sin(el * d);
}
static void mesh(int lay)
{
  int i, j, k, n = lay > 0 ? impgehd_cicp_get_num_ls[lay] : flexn[-lay];
  double up = -90, dn = 90;
  nls = 0;
  for (i = 0; i < n; i++)
  {
    double az, el;
    if (lay > 0)
    {
      const ia_cicp_ls_geo_str *g = &ia_cicp_ls_geo_tbls[ia_cicp_idx_ls_set_map_tbl[lay][i]];
      if (g->lfe_flag) continue;
      az = g->ls_azimuth; el = g->ls_elevation;
    }
    else { az = flex[-lay][i][0]; el = flex[-lay][i][1]; }
    sph(az, el, 1, pos[nls++]);
    if (el > up) up = el;
    if (el < dn) dn = el;
  }
  vx_assert(st.num_non_lfe_ls == nls, "every loudspeaker but the low-frequency ones takes part");
  nimag = st.num_imag_ls; tot = nls + nimag; ntri = st.num_triangles;
  
  vx_assert(nimag >= 0 && tot <= 40 && ntri >= 4 && ntri <= 64, "sizes");
  for (i = nls; i < tot; i++)
  {
    sph(st.non_lfe_ls_str[i].ls_azimuth, st.non_lfe_ls_str[i].ls_elevation, 1, pos[i]);
  }
  if (dn > -45) for (k = 0, i = nls; i < tot; i++) k += pos[i][2] < -.999;
  else k = 1;
  vx_assert(k == 1, "a speaker below");
  if (up < 45) for (k = 0, i = nls; i < tot; i++) k += pos[i][2] > .999;
  else k = 1;
  vx_assert(k == 1, "a speaker above");
  for (i = 0; i < tot; i++) for (j = 0; j < tot; j++) D[i][j] = i < nls && i == j;
  for (k = 0; k < ntri; k++)
  {
    int *v = st.ls_triangle[k].spk_index, m, e;
    double dd;
    for (m = 0; m < 3; m++) vx_assert(v[m] >= 0 && v[m] < tot, "triangle of speakers");
    dd = det3(pos[v[0]], pos[v[1]], pos[v[2]]);
    ori[k] = dd > 0 ? 1 : -1;
    vx_assert(dd * ori[k] > 0.02, "triangle seen from the listener");
    for (i = 0; i < tot; i++)
    {  /* no speaker beyond the triangle's plane */
      V3 a, b, c;
      for (m = 0; m < 3; m++) { a[m] = pos[v[1]][m] - pos[v[0]][m]; b[m] = pos[v[2]][m] - pos[v[0]][m]; c[m] = pos[i][m] - pos[v[0]][m]; }
      vx_assert(det3(a, b, c) * ori[k] < 1e-4, "the triangles are the convex hull");
    }
    for (m = 0; m < 3; m++)
    {
      int a = v[m], b = v[(m + 1) % 3], cnt = 0;
      for (j = 0; j < ntri; j++)
        for (e = 0; e < 3; e++)
        {
          int x = st.ls_triangle[j].spk_index[e], y = st.ls_triangle[j].spk_index[(e + 1) % 3];
          if ((x == a && y == b) || (x == b && y == a)) cnt++;
        }
      vx_assert(cnt == 2, "every edge between two triangles");
      if (a >= nls) D[b][a] = 1;
      if (b >= nls) D[a][b] = 1;
    }
  }
  for (i = nls; i < tot; i++)
  {
    double s = 0;
    for (j = 0; j < tot; j++) s += D[j][i];
    if (s) for (j = 0; j < tot; j++) D[j][i] /= s;
  }
  for (k = 0; k < 20; k++)
  {
    double m = 0;
    for (i = 0; i < tot; i++) for (j = 0; j < tot; j++)
    {
      int q;
      T[i][j] = 0;
      for (q = 0; q < tot; q++) if (D[i][q] != 0 && D[q][j] != 0) T[i][j] += D[i][q] * D[q][j];
    }
    for (i = 0; i < tot; i++) for (j = 0; j < tot; j++)
    {
      D[i][j] = T[i][j];
      if (i >= nls && j >= nls && D[i][j] > m) m = D[i][j];
    }
    if (m <= 1e-4) break;
  }
  for (i = 0; i < tot; i++) for (j = 0; j < tot; j++) D[i][j] = sqrt(D[i][j]);
}
/* layout, previous layout (0: none), triangle, line (-1: the whole triangle, 0..2: through a corner), both gains */
void h_pan(void)
{
  int lay = vx_param(0), prev = vx_param(1), t = vx_param(2), line = vx_param(3), first = vx_param(4), i, k, j0, *v;
  float w[3], m, out[32];
  float *g;
  if (prev) setup(prev);
  setup(lay);
  mesh(lay);
  st.str_obj_md_dec_state.p_obj_md_cfg = &oc;
  t %= ntri;
  v = st.ls_triangle[t].spk_index;
  if (line < 0)
  {
    vx_sym_f32(w, 2, 1, .05, .9);
    w[2] = 1.0f - w[0] - w[1];
    vx_assume(w[2] >= .05f);
  }
  else
  {
    vx_sym_f32(&m, 1, 1, .06, .9);
    w[line] = m;
    w[(line + 1) % 3] = .61f * (1.0f - m);
    w[(line + 2) % 3] = .39f * (1.0f - m);
  }
  for (i = 0; i < 3; i++) dir[i] = w[0] * (float)pos[v[0]][i] + w[1] * (float)pos[v[1]][i] + w[2] * (float)pos[v[2]][i];
  st.first_frame_flag[1] = first;
  st.str_obj_md_dec_state.radius_descaled[1] = 77.0f;
  st.str_obj_md_dec_state.gain_descaled[1] = .7f;
  impegh_obj_ren_vbap_process(&st, 1);
  g = first ? st.initial_gains[1] : st.final_gains;
  for (j0 = 0; j0 < nls && !(D[j0][v[0]] > 0); j0++) ;
  vx_assert(j0 < nls, "every speaker ends in a real one");
  {
    float e0 = w[0] * (float)D[j0][v[0]] + w[1] * (float)D[j0][v[1]] + w[2] * (float)D[j0][v[2]];
    for (k = 0; k < nls; k++)
    {
      float e = w[0] * (float)D[k][v[0]] + w[1] * (float)D[k][v[1]] + w[2] * (float)D[k][v[2]];
      out[k] = g[k] * e0 - g[j0] * e;
    }
  }
  vx_out_f32(out, nls, 3);
  vx_out_i32(1, 2);
}
/* amplitude panning of one direction over the triangles */
static void point(const double *p, double *g)
{
  int k, m, best = 0;
  double bg[3] = {0}, bm = -1e9, s;
  for (k = 0; k < ntri; k++)
  {
    int *v = st.ls_triangle[k].spk_index;
    double dd = det3(pos[v[0]], pos[v[1]], pos[v[2]]), a[3], mn;
    a[0] = det3(p, pos[v[1]], pos[v[2]]) / dd; a[1] = det3(pos[v[0]], p, pos[v[2]]) / dd; a[2] = det3(pos[v[0]], pos[v[1]], p) / dd;
    mn = a[0] < a[1] ? a[0] : a[1];
    if (a[2] < mn) mn = a[2];
    if (mn > bm) { bm = mn; best = k; for (m = 0; m < 3; m++) bg[m] = a[m]; }
  }
  for (m = 0; m < 3; m++) if (bg[m] < 0) bg[m] = 0;
  s = sqrt(bg[0] * bg[0] + bg[1] * bg[1] + bg[2] * bg[2]);
  for (m = 0; m < 3; m++) g[st.ls_triangle[best].spk_index[m]] += bg[m] / s;
}
static void unit(double *v) { double s = sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); int i; for (i = 0; i < 3; i++) v[i] /= s; }
static void gains(double az, double el, double r, double gain, double sw, double sh, int height, double *out)
{
  double g[64] = {0}, s = 0;
  int i, j;
  if (sw <= 0 && sh <= 0) { V3 p; sph(az, el, r, p); point(p, g); }
  else
  {
    V3 p0, v, u, q[19];
    double a = sw < .001 ? .001 : sw > 90 ? 90 : sw, t = tan(a * 3.14159265358979323846 / 180), n = 0;
    static const double cu[6] = {1, -1, .5, -.5, -.5, .5}, cv[6] = {0, 0, .866, .866, -.866, -.866};
    sph(az, el, 1, p0);
    sph(az, el < 0 ? el + 90 : el - 90, 1, v);
    u[0] = v[1] * p0[2] - v[2] * p0[1]; u[1] = v[2] * p0[0] - v[0] * p0[2]; u[2] = v[0] * p0[1] - v[1] * p0[0];
    if (!height) v[0] = v[1] = v[2] = 0;
    for (i = 0; i < 3; i++)
    {
      q[0][i] = p0[i];
      for (j = 0; j < 6; j++)
      {
        double e = cu[j] * u[i] + cv[j] * v[i] + (j < 2 ? 0 : .333 * p0[i]), f = j < 2 ? .75 : .5, h = j < 2 ? .375 : .25;
        q[1 + 3 * j][i] = e;
        q[2 + 3 * j][i] = f * e + (j < 2 ? .25 : .5) * p0[i];
        q[3 + 3 * j][i] = h * e + (j < 2 ? .625 : .75) * p0[i];
      }
    }
    for (j = 0; j < 19; j++)
    {
      for (i = 0; i < 3; i++) q[j][i] += p0[i] / t;
      unit(q[j]);
      point(q[j], g);
    }
    for (i = 0; i < tot; i++) n += g[i] * g[i];
    n = sqrt(n);
    a = sw / 90 - 1;
    a = a < 0 ? 0 : a > 1 ? 1 : a;
    for (i = 0; i < tot; i++) g[i] = (1 - a) * g[i] / n + a / sqrt(tot);
  }
  for (i = 0; i < nls; i++)
  {
    out[i] = 0;
    for (j = 0; j < tot; j++) out[i] += D[i][j] * g[j];
    s += out[i] * out[i];
  }
  for (i = 0; i < nls; i++) out[i] *= gain / sqrt(s);
}
#define NF 256
static float in[4][1024], out[32][1024];
static const double P[6][6] = {{20, 10, 1, .8, 0, 0}, {-75, 0, 2, .5, 0, 0}, {137, -31, 4, 1, 0, 0}, {-12, 41, 1, .9, 30, 20}, {101, -8, .5, .4, 60, 10}, {-160, 22, 1, 1, 120, 90}};
/* layout, objects, frames, spread, first position */
void h_render(void)
{
  int lay = vx_param(0), no = vx_param(1), fr = vx_param(2), p0 = vx_param(3), f, o, c, i, k;
  static double pg[3][64], ng[64];
  setup(lay);
  mesh(lay);
  vx_assert(st.height_spks_present == (lay == 13 || lay == 19 || lay == 16 || lay == 14 || lay <= 0 && lay != -2), "height speakers");
  st.str_obj_md_dec_state.p_obj_md_cfg = &oc;
  st.str_obj_md_dec_state.num_objects = no;
  oc.frame_length = NF;
  for (f = 0; f < fr; f++)
  {
    int nch = st.num_cicp_speakers;
    st.str_obj_md_dec_state.sub_frame_number = 1 + f % 2;
    for (o = 0; o < no; o++)
    {
      const double *p = P[(p0 + o + 2 * f) % 6];
      int x = (f % 2) * no + o;
      st.str_obj_md_dec_state.azimuth_descaled[x] = (float)p[0];
      st.str_obj_md_dec_state.elevation_descaled[x] = (float)p[1];
      st.str_obj_md_dec_state.radius_descaled[x] = (float)p[2];
      st.str_obj_md_dec_state.gain_descaled[x] = (float)p[3];
      st.str_obj_md_dec_state.spread_width_descaled[x] = (float)p[4];
      st.str_obj_md_dec_state.spread_height_descaled[x] = (float)p[5];
      vx_sym_f32(in[o], NF, 10 * f + o, -1, 1);
    }
    for (c = 0; c < nch; c++) for (i = 0; i < NF; i++) out[c][i] = 0;
    vx_assert(impeghd_obj_renderer_dec(&st, in[0], out[0], 1024) == 0, "rendered");
    for (o = 0; o < no; o++)
    {
      const double *p = P[(p0 + o + 2 * f) % 6];
      gains(p[0], p[1], p[2], p[3], p[4], p[5], st.height_spks_present, ng);
      if (f == 0) for (k = 0; k < nls; k++) pg[o][k] = ng[k];
      for (c = k = 0; c < nch; c++)
      {
        if (lay > 0 && ia_cicp_ls_geo_tbls[ia_cicp_idx_ls_set_map_tbl[lay][c]].lfe_flag) continue;
        for (i = 0; i < NF; i++) out[c][i] -= in[o][i] * (float)(pg[o][k] + (ng[k] - pg[o][k]) * (i + 1) / NF);
        k++;
      }
      for (k = 0; k < nls; k++) pg[o][k] = ng[k];
    }
    for (c = 0; c < nch; c++) vx_out_f32(out[c], NF, 100 * f + c + 1000);
  }
}
