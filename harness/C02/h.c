/* Bit writer and escape codes: written fields read back, nothing else in the buffer changes. */
#include "vp.h"
#ifndef B1
#define B1 1
#define B2 1
#define B3 1
#endif
#include <impeghd_type_def.h>
#include "ia_core_coder_bitbuffer.h"
VOID ia_core_coder_read_escape_value(ia_bit_buf_struct *, UWORD32 *, UWORD32, UWORD32, UWORD32);
static void vp_on_longjmp(int code) { vp_assert(0, "reading back what was written is never refused"); }
#ifndef N
#define N 12
#endif
static uint8_t buf[N], old[N];
static ia_write_bit_buf_struct wb;
static ia_bit_buf_struct bb;
static jmp_buf jb;
static int bit(const uint8_t *p, int i) { return (p[i >> 3] >> (7 - (i & 7))) & 1; }
static int start(void)
{
  int i, pos = vp_range(0, N * 8), c = vp_range(0, 100000);
  vp_bytes(buf, N);
  for (i = 0; i < N; i++) old[i] = buf[i];
  impeghd_create_write_bit_buffer(&wb, buf, N, 1);
  vp_assert(wb.cnt_bits == 0 && wb.ptr_write_next == buf && wb.write_position == 7 && wb.size == N * 8, "fresh writer");
  wb.ptr_write_next = buf + (pos >> 3);
  wb.write_position = 7 - (pos & 7);
  wb.cnt_bits = c;
  return pos;
}
static void rewind_reader(int pos)
{
  bb.ptr_bit_buf_base = buf; bb.ptr_bit_buf_end = buf + N - 1;
  bb.ptr_read_next = buf + (pos >> 3); bb.bit_pos = 7 - (pos & 7);
  bb.size = bb.max_size = N * 8; bb.cnt_bits = N * 8 - pos; bb.xmpeghd_jmp_buf = &jb;
}
void h_write(void)
{
  int pos = start(), n = vp_range(0, 32), i, j, c = wb.cnt_bits, r;
  uint32_t v = vp_u32();
  vp_assume(pos + n <= N * 8 && pos < N * 8);
  if (n < 32) vp_assume(v < (1u << n)); /* a value of n bits */
  r = impeghd_write_bits_buf(&wb, v, n);
  vp_assert(r == n && wb.cnt_bits == c + n, "bits counted");
  for (i = 0; i < N * 8; i++) {
    int want = bit(old, i);
    if (i >= pos && i < pos + n) want = (v >> (n - 1 - (i - pos))) & 1;
    vp_assert(bit(buf, i) == want, "buffer content");
  }
  if (pos + n < N * 8)
    vp_assert(wb.ptr_write_next == buf + ((pos + n) >> 3) && wb.write_position == 7 - ((pos + n) & 7), "writer position");
  vp_assert(impeghd_write_bits_buf(0, v, n) == n, "dry run counts only");
  if (n == 32) vp_witness("end");
}
void h_escape(void)
{
  int pos = start(), i, used, want, c = wb.cnt_bits;
  uint32_t v = vp_u32(), got = 0, m1 = (1u << B1) - 1, m2 = (1u << B2) - 1, m3 = B3 ? (1u << B3) - 1 : 0;
  vp_assume(v <= m1 + m2 + m3);
  vp_assume(pos + B1 + B2 + B3 <= N * 8 - 1);
  used = impeghd_write_escape_value(&wb, v, B1, B2, B3);
  want = v < m1 ? B1 : v < m1 + m2 ? B1 + B2 : B1 + B2 + B3;
  vp_assert(used == want && wb.cnt_bits == c + want, "length of the code");
  vp_assert(wb.ptr_write_next == buf + ((pos + want) >> 3) && wb.write_position == 7 - ((pos + want) & 7), "writer position");
  for (i = 0; i < N * 8; i++)
    if (i < pos || i >= pos + want) vp_assert(bit(buf, i) == bit(old, i), "other bits unchanged");
  rewind_reader(pos);
  ia_core_coder_read_escape_value(&bb, &got, B1, B2, B3);
  vp_assert(got == v, "value reads back");
  vp_assert(bb.cnt_bits == N * 8 - pos - want, "reader stops at the end of the code");
  if (v == m1 + m2) vp_witness("end");
}
/* decoding alone, against the definition of the code */
void h_decode(void)
{
  int pos, i, p;
  uint32_t got = 0, v = 0, w = 0;
  pos = start();
  vp_assume(pos + B1 + B2 + B3 <= N * 8 - 1);
  rewind_reader(pos);
  ia_core_coder_read_escape_value(&bb, &got, B1, B2, B3);
  p = pos;
  for (i = 0; i < B1; i++) v = v * 2 + bit(buf, p++);
  if (v == (1u << B1) - 1) {
    for (i = 0; i < B2; i++) w = w * 2 + bit(buf, p++);
    v += w;
    if (w == (1u << B2) - 1) {
      for (w = 0, i = 0; i < B3; i++) w = w * 2 + bit(buf, p++);
      v += w;
    }
  }
  vp_assert(got == v, "value");
  vp_assert(bb.cnt_bits == N * 8 - p, "length");
  for (i = 0; i < N; i++) vp_assert(buf[i] == old[i], "reading changes nothing");
  vp_witness("end");
}
