/* Bit reader and writer against big-endian bit semantics. */
#include "vp.h"
#include <impeghd_type_def.h>
#include "ia_core_coder_bitbuffer.h"
#ifndef N
#define N 8
#endif
static uint8_t buf[N];
static ia_bit_buf_struct bb;
static jmp_buf jb;
static int jumped_ok;
static void vp_on_longjmp(int code) { vp_assert(jumped_ok, "a request within the available bits is not refused"); }

static uint32_t ref_bits(const uint8_t *p, int pos, int n)
{
  uint32_t v = 0;
  int i;
  for (i = 0; i < n; i++)
    v = (v << 1) | ((p[(pos + i) >> 3] >> (7 - ((pos + i) & 7))) & 1);
  return v;
}
static int start(int *size)
{
  int sz = vp_range(0, N), off;
  vp_bytes(buf, N);
  /* the bytes the reader must not touch lie outside the object it is given */
  bb.ptr_bit_buf_base = buf + (N - sz);
  bb.ptr_bit_buf_end = buf + N;
  bb.ptr_read_next = bb.ptr_bit_buf_base;
  bb.bit_pos = 7;
  bb.cnt_bits = sz * 8;
  bb.size = sz * 8;
  bb.xmpeghd_jmp_buf = &jb;
  *size = sz * 8;
  off = vp_range(0, N * 8);
  vp_assume(off <= sz * 8);
  /* arbitrary valid state: off bits already consumed */
  bb.ptr_read_next = bb.ptr_bit_buf_base + (off >> 3);
  bb.bit_pos = 7 - (off & 7);
  bb.cnt_bits = sz * 8 - off;
  return off;
}
static void state_is(int size, int off)
{
  vp_assert(bb.cnt_bits == size - off, "remaining bits");
  vp_assert(bb.ptr_read_next == bb.ptr_bit_buf_base + (off >> 3), "byte position");
  vp_assert(bb.bit_pos == 7 - (off & 7), "bit position");
}

void h_read(void)
{
  int size, off = start(&size), n = vp_range(1, MAXN);
  uint32_t got;
  jumped_ok = n > size - off;
  got = (uint32_t)ia_core_coder_read_bits_buf(&bb, n);
  vp_assert(!jumped_ok, "a request beyond the available bits is refused");
  vp_assert(got == ref_bits(bb.ptr_bit_buf_base, off, n), "value read");
  state_is(size, off + n);
  if (n == MAXN) vp_witness("read");
}
void h_show(void)
{
  int size, off = start(&size), n = vp_range(1, MAXN);
  uint32_t got;
  jumped_ok = n > size - off;
  got = (uint32_t)ia_core_coder_show_bits_buf(&bb, n);
  vp_assert(!jumped_ok, "a request beyond the available bits is refused");
  vp_assert(got == ref_bits(bb.ptr_bit_buf_base, off, n), "value shown");
  state_is(size, off);
  if (n == MAXN) vp_witness("show");
}
void h_read32(void)
{
  int size, off = start(&size);
  uint32_t got;
  jumped_ok = 32 > size - off;
  got = ia_core_coder_read_bits_buf_32(&bb);
  vp_assert(!jumped_ok, "a request beyond the available bits is refused");
#ifdef WHOLE32
  vp_assert(got == ref_bits(bb.ptr_bit_buf_base, off, 32), "value read");
#else
  if ((off & 7) == 0) vp_assert(got == ref_bits(bb.ptr_bit_buf_base, off, 32), "value read");
#endif
  state_is(size, off + 32);
  if (off > 7) vp_witness("read32");
}
void h_skip(void)
{
  int size, off = start(&size), n = vp_range(0, 1 << 20);
  jumped_ok = n > size - off;
  ia_core_coder_skip_bits_buf(&bb, n);
  vp_assert(!jumped_ok, "a request beyond the available bits is refused");
  state_is(size, off + n);
  if (n > 9) vp_witness("skip");
}
void h_create(void)
{
  int n = vp_range(1, N);
  jumped_ok = 0;
  vp_bytes(buf, N);
  bb.xmpeghd_jmp_buf = &jb;
  ia_core_coder_create_init_bit_buf(&bb, buf, n);
  vp_assert(bb.ptr_bit_buf_base == buf && bb.size == n * 8, "window");
  state_is(n * 8, 0);
  vp_assert((uint32_t)ia_core_coder_read_bits_buf(&bb, 8) == buf[0], "first byte");
  vp_witness("create");
}
