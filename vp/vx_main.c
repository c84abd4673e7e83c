/* native side of vx.h: inputs from a file, outputs to stdout.  usage: exe <file>; file: lines "p <value>" and "i <id> <value>" */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vx.h"
static double par[65536];
static int npar;
static double *in[64];
static int nin[64], at[64];
static double next(int id) { return at[id] < nin[id] ? in[id][at[id]++] : 0; }
void vx_sym_f32(float *p, int n, int id, double lo, double hi) { for (int i = 0; i < n; i++) p[i] = (float)next(id); }
void vx_sym_f64(double *p, int n, int id, double lo, double hi) { for (int i = 0; i < n; i++) p[i] = next(id); }
void vx_out_f32(const float *p, int n, int id) { for (int i = 0; i < n; i++) printf("o %d %.9g\n", id, p[i]); }
void vx_out_f64(const double *p, int n, int id) { for (int i = 0; i < n; i++) printf("o %d %.17g\n", id, p[i]); }
void vx_out_i32(int v, int id) { printf("o %d %d\n", id, v); }
int vx_param(int i) { return (int)par[i]; }
double vx_paramf(int i) { return par[i]; }
void vx_junk_f32(float *p, int n) { for (int i = 0; i < n; i++) p[i] = ((i * 7919) % 1009 - 504) / 64.0f; }
void vx_assert(int c, const char *w) { if (!c) printf("f %s\n", w); }
void vx_assume(int c) { if (!c) { printf("assume\n"); fflush(stdout); exit(3); } }
void VX_ENTRY(void);
int main(int c, char **v)
{
  FILE *f = fopen(v[1], "r");
  char k[8];
  while (f && fscanf(f, "%7s", k) == 1) {
    if (k[0] == 'p') { if (fscanf(f, "%lf", &par[npar++]) != 1) return 4; }
    else { int id; double x; if (fscanf(f, "%d %lf", &id, &x) != 2) return 4; in[id] = realloc(in[id], (nin[id] + 1) * sizeof(double)); in[id][nin[id]++] = x; }
  }
  VX_ENTRY();
  printf("end\n");
  return 0;
}
