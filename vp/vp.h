/* Harness support: symbolic inputs (CBMC) / recorded inputs (native replay). */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <setjmp.h>

#ifdef VP_REPLAY
#include <stdio.h>
uint64_t vp_next(void);
void vp_fail(const char *msg, const char *file, int line);
void vp_stop(const char *why);
void vp_saw(const char *what);
static inline uint8_t vp_u8(void) { return (uint8_t)vp_next(); }
static inline int8_t vp_s8(void) { return (int8_t)vp_next(); }
static inline uint16_t vp_u16(void) { return (uint16_t)vp_next(); }
static inline int16_t vp_s16(void) { return (int16_t)vp_next(); }
static inline uint32_t vp_u32(void) { return (uint32_t)vp_next(); }
static inline int32_t vp_s32(void) { return (int32_t)vp_next(); }
static inline uint64_t vp_u64(void) { return (uint64_t)vp_next(); }
static inline int64_t vp_s64(void) { return (int64_t)vp_next(); }
static inline float vp_f32(void) { uint32_t v = (uint32_t)vp_next(); float f; memcpy(&f, &v, 4); return f; }
static inline double vp_f64(void) { uint64_t v = vp_next(); double f; memcpy(&f, &v, 8); return f; }
#define vp_assume(c) do { if (!(c)) vp_stop("assume"); } while (0)
#define vp_assert(c, msg) do { if (!(c)) vp_fail(msg, __FILE__, __LINE__); } while (0)
#define vp_witness(what) vp_saw(what)
#define vp_end() vp_stop("end")
#else
unsigned char nondet_uchar(void); signed char nondet_schar(void);
unsigned short nondet_ushort(void); short nondet_short(void);
unsigned int nondet_uint(void); int nondet_int(void);
unsigned long nondet_ulong(void); long nondet_long(void);
float nondet_float(void); double nondet_double(void);
void __CPROVER_input(const char *, ...);
static inline uint8_t vp_u8(void) { uint8_t v = nondet_uchar(); __CPROVER_input("vp", v); return v; }
static inline int8_t vp_s8(void) { int8_t v = nondet_schar(); __CPROVER_input("vp", v); return v; }
static inline uint16_t vp_u16(void) { uint16_t v = nondet_ushort(); __CPROVER_input("vp", v); return v; }
static inline int16_t vp_s16(void) { int16_t v = nondet_short(); __CPROVER_input("vp", v); return v; }
static inline uint32_t vp_u32(void) { uint32_t v = nondet_uint(); __CPROVER_input("vp", v); return v; }
static inline int32_t vp_s32(void) { int32_t v = nondet_int(); __CPROVER_input("vp", v); return v; }
static inline uint64_t vp_u64(void) { uint64_t v = nondet_ulong(); __CPROVER_input("vp", v); return v; }
static inline int64_t vp_s64(void) { int64_t v = nondet_long(); __CPROVER_input("vp", v); return v; }
static inline float vp_f32(void) { float v = nondet_float(); __CPROVER_input("vp", v); return v; }
static inline double vp_f64(void) { double v = nondet_double(); __CPROVER_input("vp", v); return v; }
#define vp_assume(c) __CPROVER_assume(c)
#define vp_assert(c, msg) __CPROVER_assert((c), msg)
#define vp_witness(what) __CPROVER_assert(0, "VP_WITNESS " what)
#define vp_end() __CPROVER_assume(0)
#endif

/* common bounded inputs */
static inline int32_t vp_range(int32_t lo, int32_t hi) { int32_t v = vp_s32(); vp_assume(v >= lo && v <= hi); return v; }
static inline float vp_f32_in(float lo, float hi) { float v = vp_f32(); vp_assume(v >= lo && v <= hi); return v; }
static inline int vp_bool(void) { return vp_u8() & 1; }
static inline void vp_bytes(uint8_t *p, int n) { int vp_i; for (vp_i = 0; vp_i < n; vp_i++) p[vp_i] = vp_u8(); }

/* the decoder leaves bitstream parsing by longjmp; the harness says what that means for it */
#ifdef VP_JMP
static void vp_on_longjmp(int code);
#ifdef VP_REPLAY
void __wrap_longjmp(jmp_buf env, int val) { (void)env; vp_on_longjmp(val); vp_stop("longjmp"); for (;;) ; }
#else
int _setjmp(struct __jmp_buf_tag *env) { (void)env; return 0; }
void longjmp(struct __jmp_buf_tag *env, int val) { (void)env; vp_on_longjmp(val); __CPROVER_assume(0); }
#endif
#endif

#ifndef VP_MAIN
#define VP_MAIN void vp_main(void)
#endif
#endif
