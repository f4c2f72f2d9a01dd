/* C04: the text of an address (ircd_string.c) */
#include "config.h"
#include "res.h"
struct irc_in_addr;
#include "verif.h"
int ghost_zs, ghost_zl;
void verif_inv_ntoa_run(const struct irc_in_addr *in, unsigned ii, unsigned max_start, unsigned max_zeros, unsigned curr_zeros);
void verif_inv_ntoa_text(const char *buf, const struct irc_in_addr *in, unsigned pos, unsigned ii, unsigned max_start, unsigned max_zeros);
void verif_at_ntoa_run(unsigned max_start, unsigned max_zeros)
  __CPROVER_ensures(ghost_zs == (max_zeros ? (int)max_start : 8) && ghost_zl == (int)max_zeros)
  __CPROVER_assigns(ghost_zs, ghost_zl);
/* one arbitrary word: where it stands, and where the text goes on behind it */
int ghost_k, ghost_pk, ghost_pn, ghost_end;
#define NEXT (ghost_k == ghost_zs ? ghost_zs + ghost_zl : ghost_k + 1)
void verif_at_ntoa_word(unsigned pos, unsigned ii)
  __CPROVER_ensures(ghost_pk == ((int)ii == ghost_k ? (int)pos : __CPROVER_old(ghost_pk)))
  __CPROVER_ensures(ghost_pn == ((int)ii == NEXT ? (int)pos : __CPROVER_old(ghost_pn)))
  __CPROVER_ensures(ghost_end == (ii == 8 ? (int)pos : __CPROVER_old(ghost_end)))
  __CPROVER_assigns(ghost_pk, ghost_pn, ghost_end);
#include "ircd/ircd_string.c"
static unsigned spec_word(const struct irc_in_addr *a, int i) { return ((a->in6_16[i] & 255u) << 8) | (a->in6_16[i] >> 8); }
/* a word takes one to four digits, and all but the last a colon */
static int spec_len(unsigned v) { return v >= 0x1000 ? 4 : v >= 0x100 ? 3 : v >= 0x10 ? 2 : 1; }
static char spec_hex(unsigned d) { return (char)(d < 10 ? '0' + d : 'a' + (d - 10)); }
/* digit i, from the right */
static int spec_digit(const char *p, unsigned v, int i) { return i >= spec_len(v) || p[spec_len(v) - 1 - i] == spec_hex((v >> (4 * i)) & 15); }
static int spec_in(int k) { return k >= ghost_zs && k < ghost_zs + ghost_zl; }
/* how much of the text is for word k (the first of the words left out has one colon), and what */
static int spec_size(const struct irc_in_addr *a, int k) { return spec_in(k) ? 1 : spec_len(spec_word(a, k)) + (k < 7); }
static int spec_is(const char *p, const struct irc_in_addr *a, int k, int i) { return spec_in(k) || spec_digit(p, spec_word(a, k), i); }
static int spec_colon(const char *p, const struct irc_in_addr *a, int k) { return spec_in(k) ? *p == ':' : k == 7 || p[spec_len(spec_word(a, k))] == ':'; }
static int spec_shown(int k) { return !spec_in(k) || k == ghost_zs; }
static int spec_zeros(const struct irc_in_addr *a, int from, int to)
{
  int i;
  for (i = 0; i < 8; i++) if (i >= from && i < to && a->in6_16[i]) return 0;
  return 1;
}
static int spec_runs(int zs, int zl) { return zl == 0 ? zs == 8 : zs >= 1 && zs < 8 && zl > 0 && zl <= 7 && zs + zl <= 8; }
const char *ircd_ntoa_r(char *buf, const struct irc_in_addr *in)
  __CPROVER_requires(!irc_in_addr_is_ipv4(in) && ghost_k >= 0 && ghost_k < 8)
  __CPROVER_ensures(__CPROVER_return_value == buf)
  __CPROVER_ensures(spec_runs(ghost_zs, ghost_zl) && spec_zeros(in, ghost_zs, ghost_zs + ghost_zl))
  __CPROVER_ensures(spec_shown(ghost_k) ==> spec_is(buf + ghost_pk, in, ghost_k, 0) && spec_is(buf + ghost_pk, in, ghost_k, 1) && spec_is(buf + ghost_pk, in, ghost_k, 2) && spec_is(buf + ghost_pk, in, ghost_k, 3) && spec_colon(buf + ghost_pk, in, ghost_k) && ghost_pn == ghost_pk + spec_size(in, ghost_k))
  __CPROVER_ensures((ghost_k != 0 || ghost_pk == 0) && ghost_end >= 0 && ghost_end < 40 && !buf[ghost_end])
  __CPROVER_ensures(NEXT != 8 || ghost_pn == ghost_end)
  __CPROVER_assigns(verif_text_upto(buf, 40), ghost_zs, ghost_zl, ghost_pk, ghost_pn, ghost_end);
void verif_inv_ntoa_run(const struct irc_in_addr *in, unsigned ii, unsigned max_start, unsigned max_zeros, unsigned curr_zeros)
  __CPROVER_ensures(ii >= 1 && ii <= 8 && curr_zeros <= ii - 1 && spec_zeros(in, (int)(ii - curr_zeros), (int)ii))
  __CPROVER_ensures(max_zeros <= 7 && max_start >= 1 && max_start <= 8 && (max_zeros == 0 || max_start + max_zeros <= ii) && spec_zeros(in, (int)max_start, (int)(max_start + max_zeros)));
#define AFTER ((int)ii > ghost_k && spec_shown(ghost_k))
void verif_inv_ntoa_text(const char *buf, const struct irc_in_addr *in, unsigned pos, unsigned ii, unsigned max_start, unsigned max_zeros)
  __CPROVER_ensures(ii <= 8 && pos <= 5 * ii - (ii == 8) && ghost_zl == (int)max_zeros && ghost_zs == (max_zeros ? (int)max_start : 8) && spec_runs(ghost_zs, ghost_zl) && ((int)ii <= ghost_zs || (int)ii >= ghost_zs + ghost_zl))
  __CPROVER_ensures((int)ii <= ghost_k || ghost_k != 0 || ghost_pk == 0)
  __CPROVER_ensures(!AFTER || (ghost_pk >= 0 && ghost_pk + spec_size(in, ghost_k) <= (int)pos))
  __CPROVER_ensures(!AFTER || ((int)ii == NEXT ? (int)pos : ghost_pn) == ghost_pk + spec_size(in, ghost_k))
  __CPROVER_ensures(!AFTER || spec_is(buf + ghost_pk, in, ghost_k, 0))
  __CPROVER_ensures(!AFTER || spec_is(buf + ghost_pk, in, ghost_k, 1))
  __CPROVER_ensures(!AFTER || spec_is(buf + ghost_pk, in, ghost_k, 2))
  __CPROVER_ensures(!AFTER || spec_is(buf + ghost_pk, in, ghost_k, 3))
  __CPROVER_ensures(!AFTER || spec_colon(buf + ghost_pk, in, ghost_k));
