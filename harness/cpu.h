/* Included before every stub: lets the monitor hide processor features from
   the library's own run-time detection (environment variable VERIF_CPU_OFF). */
#if defined(__x86_64__) || defined(__i386__)
#include <cpuid.h>
#include <stdlib.h>
#include <string.h>
extern long mon_cpuid_calls;
static inline int mon_get_cpuid(unsigned l, unsigned *a, unsigned *b, unsigned *c, unsigned *d)
{
  int r = __get_cpuid(l, a, b, c, d);
  const char *off = getenv("VERIF_CPU_OFF");
  mon_cpuid_calls++;
  if (r && l == 1 && off) {
    if (strstr(off, "aes")) *c &= ~(1u << 25);
    if (strstr(off, "pclmul")) *c &= ~(1u << 1);
  }
  return r;
}
static inline int mon_hidden(const char *f)
{
  const char *off = getenv("VERIF_CPU_OFF");
  mon_cpuid_calls++;
  return off && (!strcmp(f, "aes") || !strcmp(f, "pclmul")) && strstr(off, f);
}
#define __get_cpuid mon_get_cpuid
#define __builtin_cpu_supports(f) (!mon_hidden(f) && __builtin_cpu_supports(f))
#endif
