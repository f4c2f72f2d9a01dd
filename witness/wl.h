/* Small library of the replay drivers: deterministic random choices and reporting. */
#ifndef WL_H
#define WL_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
static unsigned long long wl_state = 88172645463325252ULL;
static int wl_thorough;
static unsigned wl_rnd(void)
{
  wl_state ^= wl_state << 13; wl_state ^= wl_state >> 7; wl_state ^= wl_state << 17;
  return (unsigned)(wl_state >> 11);
}
static unsigned wl_below(unsigned n) { return n ? wl_rnd() % n : 0; }
static int wl_chance(unsigned n) { return wl_below(n) == 0; }
static void wl_init(int argc, char **argv)
{
  unsigned s = argc > 1 ? (unsigned)atoi(argv[1]) : 1;
  wl_state ^= (unsigned long long)s * 0x9E3779B97F4A7C15ULL;
  wl_thorough = argc > 2 && !strcmp(argv[2], "thorough");
  wl_rnd(); wl_rnd();
}
static void wl_witness(const char *fmt, ...)
{
  va_list ap;
  printf("WITNESS ");
  va_start(ap, fmt); vprintf(fmt, ap); va_end(ap);
  printf("\n");
  fflush(stdout);
  _exit(1);
}
static const char *wl_quote(const char *s)
{
  static char b[8][600]; static int k; char *o = b[k = (k + 1) & 7], *e = o + 580;
  if (!s) return "NULL";
  *o++ = '"';
  for (; *s && o < e; s++) {
    unsigned char c = (unsigned char)*s;
    if (c < 32 || c > 126 || c == '"' || c == '\\') o += sprintf(o, "\\x%02x", c); else *o++ = (char)c;
  }
  *o++ = '"'; *o = 0;
  return b[k];
}
#define WL_DONE(n) do { printf("no failing input among %ld cases\n", (long)(n)); return 0; } while (0)
#endif
