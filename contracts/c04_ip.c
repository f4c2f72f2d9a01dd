/* C04: addresses as they travel between servers (numnicks.c) */
#include "config.h"
#include "res.h"
struct irc_in_addr;
int ghost_zs, ghost_zl; const char *ghost_in; struct irc_in_addr *ghost_addr;
void verif_inv_ip_lead(const char *output, const char *buf, const struct irc_in_addr *addr, unsigned ii);
void verif_inv_ip_run(const struct irc_in_addr *addr, unsigned ii, unsigned zero, unsigned max_start, unsigned max_zeros, unsigned curr_zeros);
void verif_inv_ip_rest(const char *output, const char *buf, const struct irc_in_addr *addr, unsigned ii, unsigned zero, unsigned max_start, unsigned max_zeros);
void verif_inv_ip_read(const char *input, const struct irc_in_addr *addr, unsigned pos);
void verif_inv_ip_zeros(const struct irc_in_addr *addr, unsigned pos, unsigned left);
void verif_at_ip_run(unsigned max_start, unsigned max_zeros)
  __CPROVER_ensures(ghost_zs == (max_zeros ? (int)max_start : 8) && ghost_zl == (int)max_zeros)
  __CPROVER_assigns(ghost_zs, ghost_zl);
#define EXACT_LENGTH
#include "c03_numnick.c"
/* the word at a place of the address, in the order of the host */
static unsigned spec_word(const struct irc_in_addr *a, int i) { return ((a->in6_16[i] & 255u) << 8) | (a->in6_16[i] >> 8); }
/* where the word stands in the text when the words from zs on, zl of them, are one underscore */
static int spec_at(int i, int zs, int zl) { return i < zs ? 3 * i : 3 * (i - zl) + 1; }
static int spec_is3(const char *p, unsigned v) { return p[0] == spec_digit(v >> 12) && p[1] == spec_digit(v >> 6) && p[2] == spec_digit(v); }
static int spec_written1(const char *b, const struct irc_in_addr *a, int i, int n, int zs, int zl)
{
  return i >= n || (i >= zs && i < zs + zl) || spec_is3(b + spec_at(i, zs, zl), spec_word(a, i));
}
/* the first n words are written */
static int spec_written(const char *b, const struct irc_in_addr *a, int n, int zs, int zl)
{
  int i;
  for (i = 0; i < 8; i++) if (i < n && !(i >= zs && i < zs + zl) && !spec_is3(b + spec_at(i, zs, zl), spec_word(a, i))) return 0;
  return 1;
}
static int spec_zeros(const struct irc_in_addr *a, int from, int to)
{
  int i;
  for (i = 0; i < 8; i++) if (i >= from && i < to && a->in6_16[i]) return 0;
  return 1;
}
static int spec_runs(int zs, int zl) { return zl == 0 ? zs == 8 : zs >= 0 && zs < 8 && zl > 0 && zl <= 8 && zs + zl <= 8; }
/* the text of an address: eight words of three digits, or fewer with one run of zero words as an underscore */
static int spec_text(const char *b, const struct irc_in_addr *a, int zs, int zl)
{
  return spec_runs(zs, zl) && spec_zeros(a, zs, zs + zl) && spec_written(b, a, 8, zs, zl) && (zl == 0 || b[3 * zs] == '_') && b[zl ? 3 * (8 - zl) + 1 : 24] == 0;
}
static int spec_v4(const struct irc_in_addr *a)
{
  return !a->in6_16[0] && !a->in6_16[1] && !a->in6_16[2] && !a->in6_16[3] && !a->in6_16[4] && ((!a->in6_16[5] && a->in6_16[6]) || a->in6_16[5] == 65535);
}
static int spec_text4(const char *b, unsigned v)
{
  return b[0] == spec_digit(v >> 30) && b[1] == spec_digit(v >> 24) && b[2] == spec_digit(v >> 18) && b[3] == spec_digit(v >> 12) && b[4] == spec_digit(v >> 6) && b[5] == spec_digit(v) && !b[6];
}
static unsigned spec_addr4(const struct irc_in_addr *a)
{
  return spec_v4(a) ? (spec_word(a, 6) << 16) | spec_word(a, 7) : spec_word(a, 0) == 0x2002 ? (spec_word(a, 1) << 16) | spec_word(a, 2) : 0;
}
const char *iptobase64(char *buf, const struct irc_in_addr *addr, unsigned int count, int v6_ok)
  __CPROVER_requires(count >= 25)
  __CPROVER_ensures(__CPROVER_return_value == buf)
  __CPROVER_ensures(v6_ok && !spec_v4(addr) ? spec_text(buf, addr, ghost_zs, ghost_zl) : spec_text4(buf, spec_addr4(addr)))
  __CPROVER_assigns(verif_text_upto(buf, 25), ghost_zs, ghost_zl);
void verif_inv_ip_lead(const char *output, const char *buf, const struct irc_in_addr *addr, unsigned ii)
  __CPROVER_ensures(ii <= 8 && output == buf + 3 * ii && spec_written(buf, addr, (int)ii, 8, 0));
void verif_inv_ip_run(const struct irc_in_addr *addr, unsigned ii, unsigned zero, unsigned max_start, unsigned max_zeros, unsigned curr_zeros)
  __CPROVER_ensures(zero <= ii && ii <= 8 && curr_zeros <= ii - zero && spec_zeros(addr, (int)(ii - curr_zeros), (int)ii))
  __CPROVER_ensures(max_zeros <= 8 && max_start >= zero && max_start <= 8 && (max_zeros == 0 || max_start + max_zeros <= ii) && spec_zeros(addr, (int)max_start, (int)(max_start + max_zeros)))
  __CPROVER_ensures(zero == 8 || !addr->in6_16[zero]);
#define ZS (max_zeros ? (int)max_start : 8)
void verif_inv_ip_rest(const char *output, const char *buf, const struct irc_in_addr *addr, unsigned ii, unsigned zero, unsigned max_start, unsigned max_zeros)
  __CPROVER_ensures(ii >= zero && ii <= 8 && zero <= ZS)
  __CPROVER_ensures(spec_written1(buf, addr, 0, (int)ii, ZS, (int)max_zeros))
  __CPROVER_ensures(spec_written1(buf, addr, 1, (int)ii, ZS, (int)max_zeros))
  __CPROVER_ensures(spec_written1(buf, addr, 2, (int)ii, ZS, (int)max_zeros))
  __CPROVER_ensures(spec_written1(buf, addr, 3, (int)ii, ZS, (int)max_zeros))
  __CPROVER_ensures(spec_written1(buf, addr, 4, (int)ii, ZS, (int)max_zeros))
  __CPROVER_ensures(spec_written1(buf, addr, 5, (int)ii, ZS, (int)max_zeros))
  __CPROVER_ensures(spec_written1(buf, addr, 6, (int)ii, ZS, (int)max_zeros))
  __CPROVER_ensures(spec_written1(buf, addr, 7, (int)ii, ZS, (int)max_zeros))
  __CPROVER_ensures(output == buf + ((int)ii <= ZS ? 3 * (int)ii : spec_at((int)ii, ZS, (int)max_zeros)) && ((int)ii <= ZS || ii >= max_start + max_zeros) && ((int)ii <= ZS || max_zeros == 0 || buf[3 * ZS] == '_'));
static int spec_sameaddr(const struct irc_in_addr *a, const struct irc_in_addr *b, int n)
{
  int i;
  for (i = 0; i < 8; i++) if (i < n && a->in6_16[i] != b->in6_16[i]) return 0;
  return 1;
}
static int spec_mapped(const struct irc_in_addr *a, unsigned v)
{
  return !a->in6_16[0] && !a->in6_16[1] && !a->in6_16[2] && !a->in6_16[3] && !a->in6_16[4] && a->in6_16[5] == (v ? 65535 : 0) && ((spec_word(a, 6) << 16) | spec_word(a, 7)) == v;
}
int ghost_six; unsigned ghost_v4;
void base64toip(const char *input, struct irc_in_addr *addr)
  __CPROVER_requires(input == ghost_in && (ghost_six ? spec_text4(input, ghost_v4) : spec_text(input, ghost_addr, ghost_zs, ghost_zl)))
  __CPROVER_requires((char *)addr + 16 <= (char *)ghost_addr || (char *)ghost_addr + 16 <= (char *)addr)
  __CPROVER_ensures(ghost_six ? spec_mapped(addr, ghost_v4) : spec_sameaddr(addr, ghost_addr, 8))
  __CPROVER_assigns(__CPROVER_object_upto(addr->in6_16, 16));
void verif_inv_ip_read(const char *input, const struct irc_in_addr *addr, unsigned pos)
  __CPROVER_ensures(!ghost_six && pos < 8 && ((int)pos <= ghost_zs || (int)pos >= ghost_zs + ghost_zl))
  __CPROVER_ensures(input == ghost_in + ((int)pos <= ghost_zs ? 3 * (int)pos : spec_at((int)pos, ghost_zs, ghost_zl)))
  __CPROVER_ensures(spec_sameaddr(addr, ghost_addr, (int)pos));
void verif_inv_ip_zeros(const struct irc_in_addr *addr, unsigned pos, unsigned left)
  __CPROVER_ensures(!ghost_six && ghost_zl > 0 && (int)pos >= ghost_zs && pos <= 8)
  __CPROVER_ensures(spec_sameaddr(addr, ghost_addr, (int)pos))
  __CPROVER_ensures(ghost_zs != 0 || (left <= 8 && (int)(pos + left) == ghost_zs + ghost_zl))
  __CPROVER_ensures(ghost_zs != 1 || (left <= 8 && (int)(pos + left) == ghost_zs + ghost_zl))
  __CPROVER_ensures(ghost_zs != 2 || (left <= 8 && (int)(pos + left) == ghost_zs + ghost_zl))
  __CPROVER_ensures(ghost_zs != 3 || (left <= 8 && (int)(pos + left) == ghost_zs + ghost_zl))
  __CPROVER_ensures(ghost_zs != 4 || (left <= 8 && (int)(pos + left) == ghost_zs + ghost_zl))
  __CPROVER_ensures(ghost_zs != 5 || (left <= 8 && (int)(pos + left) == ghost_zs + ghost_zl))
  __CPROVER_ensures(ghost_zs != 6 || (left <= 8 && (int)(pos + left) == ghost_zs + ghost_zl))
  __CPROVER_ensures(ghost_zs != 7 || (left <= 8 && (int)(pos + left) == ghost_zs + ghost_zl));
/* what was sent is what arrives; IPv4 addresses arrive in their mapped form */
int lemma_ip(char *buf, struct irc_in_addr *a, struct irc_in_addr *b)
  __CPROVER_requires(ghost_addr == a && ghost_in == buf && ghost_six == spec_v4(a) && ghost_v4 == spec_addr4(a) && ((char *)a + 16 <= (char *)b || (char *)b + 16 <= (char *)a))
  __CPROVER_ensures(spec_v4(a) ? spec_mapped(b, (spec_word(a, 6) << 16) | spec_word(a, 7)) : spec_sameaddr(a, b, 8))
  __CPROVER_assigns(verif_text_upto(buf, 25), ghost_zs, ghost_zl, __CPROVER_object_upto(b->in6_16, 16));
int lemma_ip(char *buf, struct irc_in_addr *a, struct irc_in_addr *b)
{
  iptobase64(buf, a, 25, 1);
  base64toip(buf, b);
  return 1;
}
