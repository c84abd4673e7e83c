/* Spectral lines: arithmetic code, contexts, dequantisation, noise filling, scale factors, frequency-domain prediction. */
#include "vp.h"
#include "vp_all.h"
static int room(void);
static void vp_on_longjmp(int code) { vp_assert(!room(), "data that fits is not refused"); }
#include "vp_bits.h"
#include "ia_core_coder_rom.h"
#include "ia_core_coder_arith_dec.h"
#if defined(INC) || defined(STEP) || defined(DQ)
static int room(void) { return 1; }
#endif
#if defined(INC) || defined(DQ)
#include "ia_core_coder_arith_dec.c"
#endif
#ifdef INC
/* the context decides the table: an exact entry's, or that of the interval */
void h_pk(void)
{
  unsigned c = vp_u32(); int i, r = -1, k;
  vp_assume(c < (1u << 20));
  k = ia_core_coder_arith_get_pk(c);
  for (i = 0; i < 742; i++) {
    vp_assert(i == 0 || ia_core_coder_ari_hash_m[i - 1] < ia_core_coder_ari_hash_m[i], "sorted");
    if (r < 0 && (i == 741 || c < ia_core_coder_ari_hash_m[i])) r = ia_core_coder_ari_lookup_m[i];
    else if (r < 0 && c == ia_core_coder_ari_hash_m[i]) r = ia_core_coder_ari_hash_m_1[i];
  }
  vp_assert(k == r && k >= 0 && k < 64, "the table of a context");
  vp_witness("end");
}
#ifdef MS
/* prediction of lines from the two previous frames */
#ifndef BW
#define BW 16
#endif
static ia_usac_data_struct U;
static ia_sfb_info_struct I;
static FLOAT32 co[1024];
static WORD16 fa[16];
void h_fdp(void)
{
  static const WORD16 tb[5] = {4, 8, 16, 24, 32};
  static int q[1024], old1[40], old2[40];
  int i, b, ms = MS, sp = SP, hs, nb, hi = -128, nexti = 1, act, s1 = 0, s2 = 0, top = 0, pos = 0;
  WORD16 *p2 = U.fdp_quant_spec_prev[1], *p1 = p2 + 172;
  U.pstr_sfb_info[1] = &I; I.islong = !SHORT; I.ptr_sfb_tbl = tb; U.factors[1] = fa; U.coef[1] = co;
  for (i = 0; i < 4; i++) { fa[i] = (WORD16)vp_range(0, 255); }
  for (i = 0; i < 34; i++) { q[i] = vp_range(-300, 300); int s = i >= SYM && i < SYM + 2; p1[i] = old1[i] = s ? vp_s16() : (i * 7919 + 13) % 20011 - 10000; p2[i] = old2[i] = s ? vp_s16() : (i * 6007 + 5) % 20011 - 10000; }
  p1[171] = p2[171] = 7;
  hs = 0;
  nb = I.islong ? ms : 0;
  if (I.islong && ms > 0 && BW < tb[ms - 1]) { for (nb = 1; tb[nb - 1] < BW; nb++) ; if (sp >= 0) hs = ia_core_coder_harmonic_spacing[sp]; }
  ia_core_coder_fd_chn_fdp_decode(&U, q, sp, BW, ms, 1);
  vp_assert(sp < 0 || ia_core_coder_harmonic_spacing[sp] > 0, "a coded spacing is positive");
  for (i = 0, b = 0; i < 172; i++) {
    int est = 0, x, sf, a, dist;
    if (nb && i >= tb[nb - 1]) top = 1;
    if (nb == 0) top = 1;
    if (top && i >= (nb ? tb[nb - 1] : 0)) { vp_assert(i < (nb && tb[nb - 1] < BW ? tb[nb - 1] : (nb ? BW : 0)) || (p1[i] == 0 && p2[i] == 0), "lines not coded are forgotten"); if (i > 34) { if (i == 171) break; i = 170; } continue; }
    while (i >= tb[b]) b++;
    if (hs) {
      dist = i * 256 - hi; if (dist < 0) dist = -dist;
      if (dist < 384) {
        int v = s1 * old1[i] + s2 * old2[i];
        unsigned w = v < 0 ? 0u - (unsigned)v : (unsigned)v;
        est = (int)((w + 16384) >> 15); if (v < 0) est = -est;
      }
      if (i == nexti) { /* the next harmonic */
        int f, n;
        hi += hs; f = hi & 255; if (f > 128) f = 256 - f;
        s2 = ia_core_coder_fdp_s2[f]; s1 = ia_core_coder_fdp_s1[f]; n = hi >> 8; if (!(n & 1)) s1 = -s1;
        nexti = 1 + ((hi + 128) >> 8);
      }
    }
    vp_assert(co[i] == 512.0f * est, "the estimate is added to the line");
    sf = fa[b] - 121; sf = sf < 0 ? 0 : sf > 62 ? 65536 : ia_core_coder_fdp_scf[sf];
    a = q[i] < 0 ? -q[i] : q[i]; a = ia_core_coder_fdp_exp[a > 181 ? 181 : a];
    x = (int)((512u + (unsigned)a * (unsigned)sf) >> 10); if (q[i] < 0) x = -x;
    x += est; if (x > 31775) x = 31775; if (x < -31775) x = -31775;
    if (i < BW) vp_assert(p1[i] == x && p2[i] == old1[i], "the line enters the history");
    else vp_assert(p1[i] == 0 && p2[i] == 0, "lines past the prediction bandwidth are forgotten");
  }
  vp_witness("end");
}
#endif
#elif defined(STEP)
/* one symbol */
void h_step(void)
{
  static ia_state_arith s;
  int low = LOW, high = HIGH, val = vp_range(0, 65535), l, h, v, m = -1, n = vp_range(0, 3), bc = vp_range(0, 100000), r, k, i, bits = VP_N - 8, range, nb = 0;
  const UWORD16 *t;
  vp_bits_init(bits); bits *= 8;
  vp_assume(low <= val && val <= high && (low < 16384 || high >= 49152));
#ifdef ENDS
  bits = n; vp_bb.cnt_bits = vp_bb.size = n;
#endif
#if STEP == 4
  k = vp_range(0, 2); t = ia_core_coder_ari_cf_r[k];
#else
  k = vp_range(KLO, KLO + KN - 1); t = ia_core_coder_ari_cf_m[k];
#endif
  for (i = 1; i < STEP; i++) vp_assert(t[i - 1] > t[i] || (t[i - 1] == t[i] && i > 0), "tables fall");
  vp_assert(t[STEP - 1] == 0 && t[0] <= 16384, "tables end with zero");
  s.low = low; s.high = high; s.value = val;
  r = ia_core_coder_arith_decode(&vp_bb, bc, &m, &s, t, STEP);
  if (r < 0) { vp_assert(vp_used() == 0 && bits == 0 && val == low, "refused only at the end of the data"); return; }
  vp_assert(!(bits == 0 && val == low), "refused at the end of the data");
  vp_assert(m >= 0 && m < STEP, "symbol");
  range = high - low + 1;
  l = low + ((range * t[m]) >> 14); h = m ? low + ((range * t[m - 1]) >> 14) - 1 : high;
  vp_assert(l <= val && val <= h, "the value lies in the symbol's interval");
  /* leading bits the interval's ends share are dropped, straddling quarters expanded */
  v = val;
  for (i = 0; i < 16; i++) {
    int off;
    if (h < 32768) off = 0; else if (l >= 32768) off = 32768; else if (l >= 16384 && h < 49152) off = 16384; else break;
    l = 2 * (l - off); h = 2 * (h - off) + 1; v = 2 * (v - off);
    if (nb < bits) v |= vp_rd(1);
    nb++;
  }
  vp_assert(s.low == l && s.high == h && s.value == v && r == bc + nb, "state after the symbol");
  vp_assert(vp_used() == (nb < bits ? nb : bits), "bits taken");
  vp_assert(l <= v && v <= h && h >= 32768 && l < 32768 && (l < 16384 || h >= 49152), "the next symbol starts from a valid state");
  vp_witness("end");
}
#elif defined(DQ)
/* quantised lines become spectral lines: 4/3 power law, noise in empty lines, scale factors */
static double pe[24]; static int np, nst;
double pow(double a, double b)
{
  double r;
  if (a == 2.0) { vp_assume(np < 24); pe[np] = b; r = 0.25 * (double)(1 << (np % 5)); np++; return r; }
  vp_assert(b == 4. / 3. && a >= 1024 && a <= 8191, "power law of large values");
  return 2 * a;
}
VOID ia_core_coder_igf_stereofilling(FLOAT32 *coef, FLOAT32 *dmx_prev, ia_sfb_info_struct *info, WORD32 noise_filling, WORD32 z, WORD32 sf, WORD32 wt, WORD32 sfb, WORD32 off, WORD32 grp, WORD32 mx) { nst++; }
static ia_usac_data_struct U;
static ia_sfb_info_struct I;
static WORD16 fa[64];
static FLOAT32 co[2048];
static float dq(int q)
{
  int a = q < 0 ? -q : q; float v;
  if (a > 8191) a = 8191;
  v = a < 1024 ? ia_core_coder_pow_table[a] : 2.0f * a;
  return q < 0 ? -v : v;
}
void h_table(void)
{
  int q;
  for (q = 0; q < 1024; q++) {
    double t = ia_core_coder_pow_table[q], e = (double)q * q * q * q, d = t * t * t - e;
    vp_assert((d < 0 ? -d : d) <= 1.2e-6 * e, "table of the power law");
  }
  for (q = 1; q < 8; q++) {
    double t = ia_core_coder_pow_14_3[q], d = t * t * t * 16384.0 / (1 << q) ; /* 2^((q-14)/3) */
    vp_assert(d > 1 - 1e-6 && d < 1 + 1e-6, "noise levels");
  }
  vp_assert(ia_core_coder_pow_14_3[0] == 0, "no noise");
  vp_witness("end");
}
void h_dq(void)
{
  static const WORD16 tb[4] = TB;
  static int q[2048]; static float ref[2048], ig[2][TBN];
  static ia_usac_igf_config_struct g;
  int i, b, w, grp, win = 0, nl = NLEV << 5 | vp_range(0, 31), mx = MAXSFB, nmx = NMX, nf = NF, allz = vp_bool(), off = OFF, call = 0, t;
  unsigned seed = vp_u32(), s;
  static const UWORD8 gl[3] = {2, 1, 1};
  U.ccfl = CCFL; U.factors[1] = fa; U.coef[1] = co; U.pstr_sfb_info[1] = &I; U.seed_value[1] = s = seed;
  I.islong = LONG; I.num_groups = LONG ? 1 : 2; I.sfb_per_sbk = 4; I.bins_per_sbk = TBN; I.ptr_sfb_tbl = tb;
  for (i = 0; i < 3; i++) I.group_len[i] = LONG ? 1 : gl[i];
  g.igf_active = IGF; g.use_inf = vp_bool(); g.igf_stereo_filling = vp_bool();
  for (i = 0; i < 16; i++) fa[i] = (WORD16)vp_range(0, 255);
  for (i = 0; i < TBN * (LONG ? 1 : 3); i++) q[i] = i % TBN >= LO && i % TBN < LO + SYM ? (WIDE ? vp_range(-20000, 20000) : vp_range(-3, 3)) : 0;
  for (i = 0; i < 12; i++) U.scale_factors[1][i] = 7;
  ia_core_coder_apply_scfs_and_nf(nf, &U, q, nl, (UWORD8)mx, nmx, &g, IGF ? 2 : 0, allz, 1, 0);
  for (grp = 0; grp < (LONG ? 1 : 2); grp++) {
    int len = LONG ? 1 : gl[grp];
    for (b = 0; b < mx; b++) {
      int st = b ? tb[b - 1] : 0, zero = 1, e; float f, lev = nf ? ia_core_coder_pow_14_3[nl >> 5] : 0; int noisy = nf && st >= off && b < nmx;
      for (w = 0; w < len; w++) for (i = st; i < tb[b]; i++) if (q[(win + w) * TBN + i]) zero = 0;
      e = fa[win * 4 + b] - 100 + (nf && zero ? (nl & 31) - 16 : 0);
      vp_assert(call < np && pe[call] == 0.25 * e, "scale factor of the band");
      f = 0.25f * (1 << (call % 5)); call++;
      vp_assert(U.scale_factors[1][win * 4 + b] == (st >= off && zero && !g.igf_stereo_filling ? f : 0.0f), "gain kept for empty bands");
      for (w = 0; w < len; w++) {
        int o = (win + w) * TBN;
        for (i = st; i < tb[b]; i++) {
          float v = dq(q[o + i]);
          if (noisy && q[o + i] == 0) { s = s * 69069u + 5; v = s & 0x10000 ? -lev : lev; }
          ref[o + i] = v;
          vp_assert(co[o + i] == v * f, "line");
        }
#if IGF
        for (i = st; i < tb[b]; i++) for (t = 0; t < 2; t++) {
          float v = ref[o + i];
          if (g.use_inf && noisy && q[o + i] == 0 && !allz) { s = s * 69069u + 5; v = s & 0x10000 ? -lev : lev; }
          vp_assert(U.igf_dec_data[1].igf_input_spec[t * MAX_IGF_LEN + o + i] == v * f, "line offered to gap filling");
        }
#endif
      }
    }
    for (; b < 4; b++) vp_assert(U.scale_factors[1][win * 4 + b] == 0, "bands above the coded ones carry no gain");
    win += len;
  }
  vp_assert(np == call && U.seed_value[1] == s, "noise generator state");
  vp_witness("end");
}
#else
/* a row of pairs */
#ifndef N
#define N 12
#endif
#ifndef PREV
#define PREV N
#endif
#ifndef MAXLEV
#define MAXLEV 1
#endif
#define NP (N / 2)
#define CALLS (NP * (2 * MAXLEV + 1) + 1)
static struct { int m, d, cfl; unsigned c; const UWORD16 *t; } L[CALLS + 1];
static int nl, firsts, fails, run;
static unsigned ctx; /* the table of a context is left to context_table; here: which context it is asked for */
static ia_state_arith *st;
static int room(void) { int i, t = 2 + N; for (i = 0; i < nl; i++) t += L[i].d; return t <= (VP_N - 8) * 8; }
WORD32 ia_core_coder_arith_first_symbol(ia_bit_buf_struct *b, ia_state_arith *s) { firsts++; st = s; return 16; }
WORD32 ia_core_coder_arith_decode(ia_bit_buf_struct *b, WORD32 bc, WORD32 *m, ia_state_arith *s, UWORD16 const *t, WORD32 cfl)
{
  int v = vp_range(0, cfl - 1), d = vp_range(0, 2);
  vp_assert(s == st, "one state per row");
  vp_assume(nl < CALLS);
  if (cfl == 17) { if (v == 16) { vp_assume(run < MAXLEV); run++; } else run = 0; }
  if (fails && vp_bool()) { fails = 2; return INVALID_BIT_COUNT; }
  L[nl].m = v; L[nl].d = d; L[nl].t = t; L[nl].cfl = cfl; L[nl].c = ctx; nl++;
  *m = v;
  return bc + d;
}
UWORD32 ia_core_coder_arith_get_pk(UWORD32 c)
{ ctx = c; return 0; }
static ia_usac_data_struct *Up;
#define U (*Up)
static ia_td_frame_data_struct T;
static ia_arith_dec_scratch scr;
static WORD8 oc[520], op[520];
void h_row(void)
{
  static int x[N + 4], ref[2 * NP + 2], a[NP + 2], cur[NP + 2];
  int i, j, r, ch = 1, first = vp_bool(), reset = vp_bool(), used = 2, k = 0, stop = 0;
  vp_bits_init(VP_N - 8);
  fails = vp_bool();
#ifdef VP_REPLAY
  Up = calloc(1, sizeof(*Up));
#else
  Up = malloc(sizeof(*Up));
#endif
  U.present_chan = ch; U.ptr_fft_scratch = (FLOAT32 *)&scr; T.arith_reset_flag = reset; T.tcx_lg[2] = N;
  U.arith_prev_n[ch] = PREV;
  for (i = 0; i < PREV / 2 + 4; i++) { oc[i] = U.c[ch][i] = i < 2 ? 0 : (WORD8)vp_range(0, 15); op[i] = U.c_prev[ch][i] = i < 2 ? 0 : (WORD8)vp_range(0, 15); }
  for (i = 0; i < N; i++) x[i] = vp_range(-3, 3);
  r = ia_core_coder_arith_data(&T, x, &U, &vp_bb, first, 2);
  reset &= first;
  vp_assert(U.arith_prev_n[ch] == N && firsts == 1, "one row");
  if (fails == 2) { vp_assert(r, "a failing symbol fails the row"); return; }
  for (i = 0; i <= NP; i++) a[i] = reset ? 0 : i < NP ? oc[2 + i * PREV / N] : op[2 + PREV / 2];
  for (i = 0; i < NP; i++) { cur[i] = 1; ref[2 * i] = ref[2 * i + 1] = 0; }
  for (i = 0; i < NP && !stop; i++) {
    int c = a[i + 1] << 12 | a[i] << 8 | (i ? a[i - 1] : 0) << 4 | (i ? cur[i - 1] : 0), lev = 0, y, z, m;
    if (i > 3 && cur[i - 1] + cur[i - 2] + cur[i - 3] < 5) c += 0x10000;
    for (j = 0; j <= MAXLEV; j++) {
      vp_assert(k < nl && L[k].cfl == 17 && L[k].t == ia_core_coder_ari_cf_m[0] && L[k].c == c + ((unsigned)(lev > 7 ? 7 : lev) << 17), "table of the pair's neighbourhood");
      used += L[k].d; m = L[k++].m;
      if (m != 16) break;
      lev++;
    }
    if (m == 0 && lev > 0) { stop = 1; break; }
    y = m & 3; z = m >> 2;
    if (m) for (j = 0; j < lev; j++) {
      vp_assert(k < nl && L[k].cfl == 4 && L[k].t == ia_core_coder_ari_cf_r[y == 0 ? 1 : z == 0 ? 0 : 2], "table of the low bits");
      used += L[k].d; m = L[k++].m;
      y = 2 * y + (m & 1); z = 2 * z + (m >> 1);
    }
    ref[2 * i] = y; ref[2 * i + 1] = z; cur[i] = y + z + 1 > 15 ? 15 : y + z + 1;
  }
  vp_assert(k == nl, "no further symbols");
  vp_pos = used;
  if (used > (VP_N - 8) * 8) { vp_assert(r, "a row longer than the data"); return; }
  vp_assert(r == 0, "accepted");
  for (i = 0; i < N; i++) { if (ref[i] && vp_rd(1) == 0) ref[i] = -ref[i]; vp_assert(x[i] == ref[i], "line"); }
  vp_assert(vp_used() == vp_pos, "cursor");
  for (i = 0; i < NP; i++) { vp_assert(U.c[ch][2 + i] == cur[i], "context kept for the next row"); vp_assert(U.c_prev[ch][2 + i] == a[i], "previous row kept"); }
  vp_witness("end");
}
#endif
