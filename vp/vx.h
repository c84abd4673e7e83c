/* Harness interface of the real-valued symbolic engine (vp/irx.py); natively vx_main.c implements it. */
#ifndef VX_H
#define VX_H
void vx_sym_f32(float *p, int n, int id, double lo, double hi);   /* n unknown floats in [lo,hi], input array `id` */
void vx_sym_f64(double *p, int n, int id, double lo, double hi);
void vx_out_f32(const float *p, int n, int id);                   /* results, output array `id` */
void vx_out_f64(const double *p, int n, int id);
void vx_out_i32(int v, int id);
int vx_param(int i);                                              /* concrete parameters of the query */
double vx_paramf(int i);
void vx_junk_f32(float *p, int n);                                 /* what earlier frames left in a scratch buffer */
void vx_assert(int c, const char *what);
void vx_assume(int c);
#endif
