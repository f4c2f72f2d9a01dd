/* Specification functions: casemapping and string comparison (pure C, shared by the
 * contracts and by the native replay drivers). */
#ifndef SPEC_STR_H
#define SPEC_STR_H
#include <stddef.h>
/* the network's casemapping: A-Z [ \ ] ^ fold to a-z { | } ~, and the upper-case letters of
 * ISO 8859-1 (C0-DE without D7) fold to E0-FE */
static unsigned char spec_fold(unsigned char c)
{
  return (c >= 'A' && c <= '^') ? (unsigned char)(c + 32)
       : (c >= 0xC0 && c <= 0xDE && c != 0xD7) ? (unsigned char)(c + 32) : c;
}
static unsigned char spec_unfold(unsigned char c)
{
  return (c >= 'a' && c <= '~') ? (unsigned char)(c - 32)
       : (c >= 0xE0 && c <= 0xFE && c != 0xF7) ? (unsigned char)(c - 32) : c;
}
/* same name under the casemapping */
static int rec_same(const char *a, const char *b)
{
  if (spec_fold((unsigned char)*a) != spec_fold((unsigned char)*b)) return 0;
  if (!*a) return 1;
  return rec_same(a + 1, b + 1);
}
/* sign of the first difference, as a lexicographic order on folded (signed char) bytes */
static int rec_order(const char *a, const char *b)
{
  if (spec_fold((unsigned char)*a) != spec_fold((unsigned char)*b))
    return (signed char)spec_fold((unsigned char)*a) < (signed char)spec_fold((unsigned char)*b) ? -1 : 1;
  if (!*a) return 0;
  return rec_order(a + 1, b + 1);
}
static int rec_norder(const char *a, const char *b, int n)
{
  if (n == 0) return 0;
  if (spec_fold((unsigned char)*a) != spec_fold((unsigned char)*b))
    return (signed char)spec_fold((unsigned char)*a) < (signed char)spec_fold((unsigned char)*b) ? -1 : 1;
  if (!*a) return 0;
  return rec_norder(a + 1, b + 1, n - 1);
}
static int spec_sign(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
#endif
