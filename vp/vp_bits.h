/* A symbolic bitstream window read by the real bit reader, and an independent reference cursor over it. */
#ifndef VP_BITS_H
#define VP_BITS_H
#ifndef VP_N
#define VP_N 32
#endif
#ifdef VP_BITS_ND
/* Every read returns an arbitrary value of its width: any bitstream, of any length. */
static ia_bit_buf_struct vp_bb;
static jmp_buf vp_jb;
static uint8_t vp_buf[1];
#ifndef VP_BITS_CNT
#define VP_BITS_CNT (1 << 30)
#endif
static void vp_bits_init(int nbytes)
{
  memset(&vp_bb, 0, sizeof vp_bb);
  vp_bb.ptr_bit_buf_base = vp_bb.ptr_bit_buf_end = vp_bb.ptr_read_next = vp_buf;
  vp_bb.bit_pos = 7;
  vp_bb.cnt_bits = vp_bb.size = vp_bb.max_size = VP_BITS_CNT;
  vp_bb.xmpeghd_jmp_buf = &vp_jb;
}
#ifdef VP_BITS_COUNT
#define VP_CNT(b, n) ((b)->cnt_bits -= (n))
#else
#define VP_CNT(b, n) ((void)0)
#endif
#ifndef VP_REPLAY
#pragma CPROVER check push
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer"
#endif
WORD32 ia_core_coder_read_bits_buf(ia_bit_buf_struct *b, WORD n)
{
  VP_CNT(b, n);
#ifdef VP_ND_FIRST /* the first read is fixed (a count) */
  static int vp_first_done;
  if (!vp_first_done) { vp_first_done = 1; return VP_ND_FIRST; }
#endif
#ifdef VP_ND_HOOK /* the harness fixes some reads (counts) */
  { int v = vp_nd_hook(n); if (v >= 0) return v; }
#endif
  return (WORD32)(vp_u32() & (n >= 32 ? 0xffffffffu : ((1u << n) - 1)));
}
UWORD32 ia_core_coder_read_bits_buf_32(ia_bit_buf_struct *b) { VP_CNT(b, 32); return vp_u32(); }
WORD32 ia_core_coder_show_bits_buf(ia_bit_buf_struct *b, WORD n) { return (WORD32)(vp_u32() & (n >= 32 ? 0xffffffffu : ((1u << n) - 1))); }
WORD32 ia_core_coder_skip_bits_buf(ia_bit_buf_struct *b, WORD n) { VP_CNT(b, n); return n; }
#ifndef VP_REPLAY
#pragma CPROVER check pop
#endif
#else
static uint8_t vp_buf[VP_N + 8]; /* the last 8 bytes stay zero and lie outside the window */
static ia_bit_buf_struct vp_bb;
static jmp_buf vp_jb;
static int vp_pos; /* reference cursor, in bits */
#ifdef VP_PRE
static const uint8_t vp_prebuf[VP_N + 8] = {VP_PRE};
#endif
#ifdef VP_TPL_MASK /* bits fixed by a template: mask and value */
static const uint8_t vp_tmask[VP_N + 8] = {VP_TPL_MASK}, vp_tval[VP_N + 8] = {VP_TPL_VAL};
#define VP_W(a, b) (((uint64_t)a[b] << 32) | ((uint64_t)a[(b) + 1] << 24) | ((uint64_t)a[(b) + 2] << 16) | ((uint64_t)a[(b) + 3] << 8) | a[(b) + 4])
#endif
static void vp_bits_init(int nbytes)
{
  vp_bytes(vp_buf, VP_N);
#ifdef VP_TPL_MASK
  { int i; for (i = 0; i < VP_N; i++) vp_buf[i] = (vp_buf[i] & ~vp_tmask[i]) | vp_tval[i]; }
#endif
#ifdef VP_PRE
  { int i; for (i = 0; i < VP_PRE_BITS; i++) { uint8_t m = 0x80 >> (i & 7); vp_buf[i >> 3] = (vp_buf[i >> 3] & ~m) | (vp_prebuf[i >> 3] & m); } }
#endif
  memset(&vp_bb, 0, sizeof vp_bb);
  vp_bb.ptr_bit_buf_base = vp_buf;
  vp_bb.ptr_bit_buf_end = vp_buf + nbytes - 1;
  vp_bb.ptr_read_next = vp_buf;
  vp_bb.bit_pos = 7;
  vp_bb.cnt_bits = nbytes * 8;
  vp_bb.size = nbytes * 8;
  vp_bb.max_size = nbytes * 8;
  vp_bb.xmpeghd_jmp_buf = &vp_jb;
  vp_pos = 0;
}
/* reference read of n <= 32 bits, big endian */
static uint32_t vp_rd(int n)
{
  uint64_t v = 0;
  int b = vp_pos >> 3, s = vp_pos & 7;
#if defined(VP_TPL_MASK) && !defined(VP_REPLAY)
  uint64_t ones = (n == 32) ? 0xffffffffull : ((1ull << n) - 1);
  if (((VP_W(vp_tmask, b) >> (40 - s - n)) & ones) == ones) {
    v = (VP_W(vp_tval, b) >> (40 - s - n)) & ones;
    vp_pos += n;
    return (uint32_t)v;
  }
#endif
#if defined(VP_PRE) && !defined(VP_REPLAY) /* constant bits at the start of the window fold during symbolic execution */
#define VP_B(k) ((uint64_t)(vp_pos + n <= VP_PRE_BITS ? vp_prebuf[b + (k)] : vp_buf[b + (k)]))
#else
#define VP_B(k) ((uint64_t)vp_buf[b + (k)])
#endif
#ifndef VP_REPLAY
#pragma CPROVER check push
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer"
#endif
#ifdef VP_CONST_BITS /* lets constant bytes of the window fold during symbolic execution */
  if (s + n <= 8) v = VP_B(0) << 32;
  else if (s + n <= 16) v = (VP_B(0) << 32) | (VP_B(1) << 24);
  else
#endif
  v = (VP_B(0) << 32) | (VP_B(1) << 24) | (VP_B(2) << 16) | (VP_B(3) << 8) | VP_B(4);
#ifndef VP_REPLAY
#pragma CPROVER check pop
#else
  if (b > VP_N) vp_stop("reference past the window");
#endif
  vp_pos += n;
  return (uint32_t)((v >> (40 - s - n)) & ((n == 32) ? 0xffffffffull : ((1ull << n) - 1)));
}
static uint32_t vp_peek(int pos, int n)
{
  int save = vp_pos;
  uint32_t v;
  vp_pos = pos;
  v = vp_rd(n);
  vp_pos = save;
  return v;
}
#ifndef VP_REPLAY
/* The bit reader replaced by its specification (property C01 decides that the real reader meets it). */
#ifndef VP_ONWARD
#define VP_ONWARD(n) 
#endif
static void vp_adv(ia_bit_buf_struct *b, int n)
{
  int pos;
  b->cnt_bits -= n;
  pos = b->size - b->cnt_bits;
  b->ptr_read_next = b->ptr_bit_buf_base + (pos >> 3);
  b->bit_pos = 7 - (pos & 7);
}
static void vp_need(ia_bit_buf_struct *b, int n)
{
  if (b->cnt_bits < n || b->cnt_bits < 0) {
    vp_on_longjmp(0);
    vp_end();
  }
}
WORD32 ia_core_coder_read_bits_buf(ia_bit_buf_struct *b, WORD n)
{
  uint32_t v;
  if (n == 0) return 0;
  vp_need(b, n);
  vp_assert(n > 0 && n <= 32, "bit reader asked for 1..32 bits");
  v = vp_peek(b->size - b->cnt_bits, n);
  vp_adv(b, n);
  return (WORD32)v;
}
UWORD32 ia_core_coder_read_bits_buf_32(ia_bit_buf_struct *b) { return (UWORD32)ia_core_coder_read_bits_buf(b, 32); }
WORD32 ia_core_coder_show_bits_buf(ia_bit_buf_struct *b, WORD n)
{
  if (n == 0) return 0;
  vp_need(b, n);
  return (WORD32)vp_peek(b->size - b->cnt_bits, n);
}
WORD32 ia_core_coder_skip_bits_buf(ia_bit_buf_struct *b, WORD n)
{
  vp_need(b, n);
  vp_assert(n >= 0, "bit reader never steps back");
  vp_adv(b, n);
  return n;
}
#endif
#endif /* VP_BITS_ND */
#define EQ(f, n) vp_assert((uint32_t)(f) == vp_rd(n), #f)
#define EQ8(f, n) vp_assert((uint8_t)(f) == vp_rd(n), #f)
static int vp_used(void) { return vp_bb.size - vp_bb.cnt_bits; }
#endif
