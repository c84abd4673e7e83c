#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
static FILE *vp_f;
void VP_ENTRY(void);
uint64_t vp_next(void)
{
  unsigned long long v;
  if (vp_f && fscanf(vp_f, "%llx", &v) == 1) return v;
  return 0;
}
void vp_fail(const char *msg, const char *file, int line)
{
  printf("VP_ASSERT_FAIL %s (%s:%d)\n", msg, file, line);
  fflush(stdout);
  exit(99);
}
void vp_stop(const char *why) { printf("VP_STOP %s\n", why); fflush(stdout); exit(why[0] == 'a' ? 77 : 0); }
void vp_saw(const char *w) { printf("VP_WITNESS %s\n", w); fflush(stdout); }
int main(int argc, char **argv)
{
  vp_f = argc > 1 ? fopen(argv[1], "r") : 0;
  VP_ENTRY();
  printf("VP_DONE\n");
  return 0;
}
