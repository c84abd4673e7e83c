/* MHAS packet framing: header codes, packet lengths and where parsing resumes. */
#include "vp.h"
#include "vp_all.h"
static int expect_short;
static void vp_on_longjmp(int code) { vp_assert(expect_short, "a packet that fits is not refused"); }
#ifndef VP_N
#define VP_N 20
#endif
#include "vp_bits.h"
static ia_mae_audio_scene_info A;
static ia_mhas_pac_info info;
static int cons[4], ncons, fail[4]; /* what the embedded parsers consume / whether they reject */
static int calls[5];
static int eat(int k) { int i = ncons++; calls[k]++; ia_core_coder_skip_bits_buf(&vp_bb, cons[i]); return fail[i]; }
IA_ERRORCODE impeghd_mae_asi_parse(ia_mae_audio_scene_info *p, ia_bit_buf_struct *b) { return eat(0) ? IA_MPEGH_DEC_INIT_FATAL_ASI_PARSE_FAIL : 0; }
IA_ERRORCODE impeghd_econ_config_info(ia_earcon_info *p, ia_bit_buf_struct *b) { return eat(1) ? IA_MPEGH_DEC_INIT_FATAL_ASI_PARSE_FAIL : 0; }
IA_ERRORCODE impeghd_pcm_data_config(ia_pcm_data_config *p, ia_bit_buf_struct *b) { eat(2); return 0; }
IA_ERRORCODE impeghd_pcm_data_payload(ia_pcm_data_config *p, ia_bit_buf_struct *b) { eat(3); return 0; }
IA_ERRORCODE impd_drc_mpegh3da_parse_loudness_info_set(ia_drc_loudness_info_set_struct *p, ia_bit_buf_struct *b) { return eat(4) ? IA_MPEGH_DEC_INIT_FATAL_ASI_PARSE_FAIL : 0; }
static uint32_t code(int a, int b, int c)
{
  uint32_t v = vp_rd(a), w;
  if (v == (1u << a) - 1) {
    w = vp_rd(b); v += w;
    if (w == (1u << b) - 1) v += vp_rd(c);
  }
  return v;
}
#define LIMIT (VP_N * 8)
void h_frame(void)
{
  int n, r, type = 0, done = 0, bad = 0, nc = 0, want[5] = {0, 0, 0, 0, 0}, ei = 0, i;
  uint32_t lbl = 0; int64_t len = 0;
  vp_bits_init(VP_N);
#ifdef FIRST
  vp_buf[0] = FIRST << 5 | (vp_buf[0] & 31);
#endif
  for (i = 0; i < NP; i++) { cons[i] = vp_range(0, 20); fail[i] = vp_bool(); }
  memset(&A, 0, sizeof A);
  for (n = 0; n < NP && !done && !bad && !expect_short; n++) {
    int k = -1, start;
    type = code(3, 8, 8); 
    if (vp_pos <= LIMIT) lbl = code(2, 8, 32);
    if (vp_pos <= LIMIT) len = code(11, 24, 24);
    if (vp_pos > LIMIT) { expect_short = 1; break; }
    start = vp_pos;
    switch (type) {
    case 1: case 2: done = 1; break;           /* configuration, frame: the caller goes on from here */
    case 6:                                    /* sync */
      if (vp_pos + 8 > LIMIT) { expect_short = 1; break; }
      if (vp_rd(8) != 0xA5 || len != 1) bad = 1;
      break;
    case 3: k = 0; break;
    case 19: k = 1; break;
    case 20: k = 2; done = 1; break;
    case 21: k = 3; done = 1; break;
    case 22: k = 4; break;
    case 12: ei = 1; /* fall through */
    default: if (vp_pos + 8 * len > LIMIT) expect_short = 1; else vp_pos += 8 * len; break;
    }
    if (k >= 0) {
      if (vp_pos + cons[nc] > LIMIT) expect_short = 1;
      else {
        want[k]++;
        if (fail[nc] && k != 2 && k != 3) bad = 1;
        else if (8 * len > cons[nc]) { if (start + 8 * len > LIMIT) expect_short = 1; else vp_pos = start + 8 * len; }
        else vp_pos = start + cons[nc];
      }
      nc++;
    }
  }
  vp_assume(done || bad || expect_short); /* at most NP packets */
  r = impeghd_mhas_parse(&info, &A, &vp_bb);
  vp_assert(!expect_short, "a truncated packet does not return");
  vp_assert((r != 0) == bad, "malformed packets are rejected, well-formed ones accepted");
  for (i = 0; i < 5; i++) vp_assert(calls[i] == want[i], "embedded packet goes to its own parser");
  if (!bad) {
    vp_assert(info.packet_type == type, "packet type");
    vp_assert((uint32_t)info.packet_lbl == lbl, "packet label");
    vp_assert(info.packet_length == len, "packet length");
    vp_assert(vp_used() == vp_pos, "reading resumes at the end of the packet");
    vp_assert(A.ei_present == ei, "user interaction seen");
    vp_assert(A.earcon_info.earcon_present == (want[1] > 0), "earcon seen");
    vp_assert(A.asi_present == (want[0] > 0), "scene info seen");
    vp_assert(A.pcm_data_config.pcm_packet_type_present == (want[2] + want[3] > 0), "pcm packet seen");
    vp_assert(A.pcm_data_config.pcm_packet_data_present == (want[3] > 0), "pcm data seen");
    vp_witness("end");
  }
}
