/* C18, C30: NICK (m_nick.c).  With VALID, what may become a nick; with COLLIDE, what happens to two users who want the same. */
#include "config.h"
#include "verif.h"
#include "IPcheck.h"
#include "client.h"
#include "hash.h"
#include "ircd.h"
#include "ircd_features.h"
#include "ircd_string.h"
#include "numnicks.h"
#include "s_misc.h"
#include "s_user.h"
#include "send.h"
#include "struct.h"
#include "spec_client.h"
#include <string.h>
#include <stdlib.h>
#include "ircd/chattr.tab.c"
/* a letter, a digit, or one of - _ ` { | } [ \ ] ^, and (from servers only) ~ */
static int spec_nickchar(char c)
{
  return (c >= 'A' && c <= '~') || (c >= '0' && c <= '9') || c == '-';
}
static int spec_badstart(char c) { return c == '-' || (c >= '0' && c <= '9'); }
static int spec_len(const char *s)
{
  int i;
  for (i = 0; i < 16; i++) if (!s[i]) return i;
  return 16;
}
static int spec_prefix(const char *s)
{
  int i;
  if (spec_badstart(*s)) return 0;
  for (i = 0; i < 15; i++) if (!spec_nickchar(s[i])) return i;
  return 15;
}
static int spec_nick(const char *s) { return spec_prefix(s) > 0 && s[spec_prefix(s)] == 0; }
static int spec_eq(const char *a, const char *b)
{
  int i;
  for (i = 0; i < 16; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; }
  return 0;
}
static int spec_copied(const char *d, const char *s)
{
  int i;
  for (i = 0; i < 15; i++) { if (d[i] != s[i]) return 0; if (!s[i]) return 1; }
  return 1;
}
int uf_feature(int f);
int feature_int(enum Feature feat)
  __CPROVER_ensures(__CPROVER_return_value == uf_feature(feat) && __CPROVER_return_value > 0)
  __CPROVER_assigns();
unsigned long strlen(const char *s)
  __CPROVER_ensures(spec_len(s) < 16 ? __CPROVER_return_value == (unsigned long)spec_len(s) : __CPROVER_return_value >= 16)
  __CPROVER_assigns();
char *strcpy(char *d, const char *s)
  __CPROVER_requires(spec_len(s) < 16)
  __CPROVER_ensures(spec_eq(d, s) && __CPROVER_return_value == d)
  __CPROVER_assigns(verif_text_upto(d, 16));
char *ircd_strncpy(char *d, const char *s, size_t n)
  __CPROVER_requires(n == 15)
  __CPROVER_ensures(spec_copied(d, s))
  __CPROVER_assigns(verif_text_upto(d, 16));
int strcmp(const char *a, const char *b)
  __CPROVER_ensures((__CPROVER_return_value == 0) == (spec_eq(a, b) != 0))
  __CPROVER_assigns();
static int spec_find(const char *s, char c)
{
  int i;
  for (i = 0; i < 16; i++) { if (s[i] == c) return i; if (!s[i]) return -1; }
  return -1;
}
char *strchr(const char *s, int c)
  __CPROVER_requires(spec_len(s) < 16 && c != 0)
  __CPROVER_ensures(__CPROVER_return_value == (spec_find(s, (char)c) < 0 ? (char *)0 : (char *)s + spec_find(s, (char)c)))
  __CPROVER_assigns();
int uf_same(const char *a, const char *b);
int ircd_strcmp(const char *a, const char *b)
  __CPROVER_ensures((__CPROVER_return_value == 0) == (uf_same(a, b) != 0))
  __CPROVER_assigns();
int uf_atoi(const char *s);
int atoi(const char *s)
  __CPROVER_ensures(__CPROVER_return_value == uf_atoi(s))
  __CPROVER_assigns();
unsigned short uf_ip(const char *s, int k);
#define IPW(a, s, k) (a)->in6_16[k] == uf_ip(s, k)
#define IPALL(a, s) (IPW(a, s, 0) && IPW(a, s, 1) && IPW(a, s, 2) && IPW(a, s, 3) && IPW(a, s, 4) && IPW(a, s, 5) && IPW(a, s, 6) && IPW(a, s, 7))
#define EQW(a, b, k) (a)->in6_16[k] == (b)->in6_16[k]
#define EQALL(a, b) (EQW(a, b, 0) && EQW(a, b, 1) && EQW(a, b, 2) && EQW(a, b, 3) && EQW(a, b, 4) && EQW(a, b, 5) && EQW(a, b, 6) && EQW(a, b, 7))
void base64toip(const char *s, struct irc_in_addr *addr)
  __CPROVER_ensures(IPALL(addr, s))
  __CPROVER_assigns(addr->in6_16[0], addr->in6_16[1], addr->in6_16[2], addr->in6_16[3], addr->in6_16[4], addr->in6_16[5], addr->in6_16[6], addr->in6_16[7]);
int memcmp(const void *a, const void *b, size_t n)
  __CPROVER_requires(n == 16)
  __CPROVER_ensures((__CPROVER_return_value == 0) == EQALL((const struct irc_in_addr *)a, (const struct irc_in_addr *)b))
  __CPROVER_assigns();
struct Client *ghost_holder, *ghost_sptr, *ghost_cptr;   /* who has the nick; who wants it; over which link */
const char *ghost_name, *ghost_yxx;
int ghost_looked, ghost_set_n, ghost_exit_old, ghost_exit_new, ghost_exit_other;
int ghost_kill_old, ghost_kill_new, ghost_kill_intro, ghost_juped, ghost_jupe_asked;
#define RECORD ghost_looked, ghost_name, ghost_set_n, ghost_exit_old, ghost_exit_new, ghost_exit_other, ghost_kill_old, ghost_kill_new, ghost_kill_intro, ghost_jupe_asked
#define NONE_YET (!ghost_looked && !ghost_set_n && !ghost_exit_old && !ghost_exit_new && !ghost_exit_other && !ghost_kill_old && !ghost_kill_new && !ghost_kill_intro && !ghost_jupe_asked)
int isNickJuped(const char *nick)
  __CPROVER_requires(spec_nick(nick))
  __CPROVER_ensures((__CPROVER_return_value != 0) == (ghost_juped != 0) && ghost_jupe_asked == 1)
  __CPROVER_assigns(ghost_jupe_asked);
struct Client *hSeekClient(const char *name, int TMask)
  __CPROVER_requires(TMask == ~0 && *name != 0)
  __CPROVER_ensures(__CPROVER_return_value == ghost_holder && ghost_looked == 1 && ghost_name == name)
  __CPROVER_assigns(ghost_looked, ghost_name);
static int spec_override(struct Client *h) { return h && (h->cli_status & 0x338) && spec_local(h); }
#define EXITED(who) \
  __CPROVER_ensures(ghost_exit_old == __CPROVER_old(ghost_exit_old) + ((who) == ghost_holder)) \
  __CPROVER_ensures(ghost_exit_new == __CPROVER_old(ghost_exit_new) + ((who) == ghost_sptr)) \
  __CPROVER_ensures(ghost_exit_other == __CPROVER_old(ghost_exit_other) + ((who) != ghost_sptr && (who) != ghost_holder)) \
  __CPROVER_assigns(ghost_exit_old, ghost_exit_new, ghost_exit_other)
int exit_client(struct Client *cptr, struct Client *bcptr, struct Client *sptr, const char *comment)
  __CPROVER_requires(cptr == ghost_cptr)
  EXITED(bcptr);
int exit_client_msg(struct Client *cptr, struct Client *bcptr, struct Client *sptr, const char *pattern, ...)
  __CPROVER_requires(cptr == ghost_cptr && SPEC_FLAG(bcptr, FLAG_KILLED))
  EXITED(bcptr);
void sendcmdto_serv_butone(struct Client *from, const char *cmd, const char *tok, struct Client *one, const char *pattern, ...)
  __CPROVER_ensures(ghost_kill_old == __CPROVER_old(ghost_kill_old) + (tok[0] == 'D' && tok[1] == 0 && from == &me && !one && verif_va_ptr(0) == ghost_holder))
  __CPROVER_ensures(ghost_kill_new == __CPROVER_old(ghost_kill_new) + (tok[0] == 'D' && tok[1] == 0 && from == &me && !one && verif_va_ptr(0) == ghost_sptr))
  __CPROVER_assigns(ghost_kill_old, ghost_kill_new);
void sendcmdto_one(struct Client *from, const char *cmd, const char *tok, struct Client *to, const char *pattern, ...)
  __CPROVER_ensures(ghost_kill_intro == __CPROVER_old(ghost_kill_intro) + (tok[0] == 'D' && tok[1] == 0 && to == ghost_cptr && verif_va_ptr(0) == ghost_yxx))
  __CPROVER_assigns(ghost_kill_intro);
/* a nick is set only if it is valid and nobody else has it (any more) */
int set_nick_name(struct Client *cptr, struct Client *sptr, const char *nick, int parc, char *parv[])
#ifdef VALID
  __CPROVER_requires(spec_nick(nick))
  __CPROVER_requires(!spec_local(sptr) || spec_is_server(sptr) || (spec_find(nick, '~') < 0 && spec_len(nick) <= uf_feature(FEAT_NICKLEN)))
#else
  __CPROVER_requires(ghost_looked && nick == ghost_name && (!ghost_holder || ghost_holder == sptr || ghost_exit_old == 1))
#endif
  __CPROVER_requires(cptr == ghost_cptr && sptr == ghost_sptr)
  __CPROVER_ensures(ghost_set_n == __CPROVER_old(ghost_set_n) + 1)
  __CPROVER_assigns(ghost_set_n);

#define KEPT(i) (__CPROVER_return_value <= i || nick[i] == (char)verif_old_int(nick[i]))
static int do_nick_name(char *nick)
  __CPROVER_ensures(__CPROVER_return_value == verif_old_int(spec_prefix(nick)))
  __CPROVER_ensures(!__CPROVER_return_value || (spec_nick(nick) && spec_prefix(nick) == __CPROVER_return_value))
  __CPROVER_ensures(verif_old_int(spec_find(nick, '~')) >= 0 || spec_find(nick, '~') < 0)
  __CPROVER_ensures(KEPT(0))
  __CPROVER_ensures(KEPT(1))
  __CPROVER_ensures(KEPT(2))
  __CPROVER_ensures(KEPT(3))
  __CPROVER_ensures(KEPT(4))
  __CPROVER_ensures(KEPT(5))
  __CPROVER_ensures(KEPT(6))
  __CPROVER_ensures(KEPT(7))
  __CPROVER_ensures(KEPT(8))
  __CPROVER_ensures(KEPT(9))
  __CPROVER_ensures(KEPT(10))
  __CPROVER_ensures(KEPT(11))
  __CPROVER_ensures(KEPT(12))
  __CPROVER_ensures(KEPT(13))
  __CPROVER_ensures(KEPT(14))
  __CPROVER_assigns(verif_text_upto(nick, 16));

#define HOLDER_OTHER (ghost_holder && ghost_holder != sptr)
#define SAME_USER(k) (EQALL(&ghost_holder->cli_ip, &sptr->cli_ip))
int m_nick(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(parv[1] != 0 && NONE_YET && cptr == sptr && spec_local(sptr) && cptr == ghost_cptr && sptr == ghost_sptr && (spec_is_user(sptr) || (sptr->cli_status & 0x338)))
#ifdef VALID
  /* set only after the list of reserved nicks was asked; an unused one that is not reserved is granted */
  __CPROVER_ensures(ghost_set_n == 0 || (ghost_jupe_asked && !ghost_juped && ghost_set_n == 1))
  __CPROVER_ensures(ghost_looked || ghost_juped || !verif_old_int(parc >= 2 && spec_is_user(sptr) && spec_nick(parv[1]) && spec_find(parv[1], '~') < 0 && spec_len(parv[1]) <= uf_feature(FEAT_NICKLEN)))
#else
  __CPROVER_ensures(ghost_set_n == (ghost_looked && (!ghost_holder || (ghost_holder != sptr && verif_old_int(spec_override(ghost_holder)) && !verif_old_int(spec_is_server(ghost_holder))) || (ghost_holder == sptr && ghost_set_n))))
  __CPROVER_ensures(!ghost_looked || ghost_exit_old == (HOLDER_OTHER && verif_old_int(spec_override(ghost_holder))))
  __CPROVER_ensures(!ghost_looked || (ghost_exit_new == 0 && ghost_exit_other == 0))
#endif
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(RECORD);

static int spec_differ(struct Client *s, struct Client *h, int parc, char *parv[])
{
  if (spec_is_server(s)) return !(IPALL(&h->cli_ip, parv[parc - 3])) || !uf_same(h->cli_user->username, parv[4]);
  return !(EQALL(&h->cli_ip, &s->cli_ip)) || !uf_same(h->cli_user->username, s->cli_user->username);
}
/* the one who came with the collision loses / the one we had loses */
static int spec_new_loses(struct Client *s, struct Client *h, int parc, char *parv[])
{
  long n = spec_is_server(s) ? uf_atoi(parv[3]) : uf_atoi(parv[2]);
  return spec_differ(s, h, parc, parv) ? n >= h->cli_lastnick : n <= h->cli_lastnick;
}
#define ISSERVER verif_old_int(spec_is_server(sptr))
#define NEW_LOSES verif_old_int(spec_new_loses(sptr, ghost_holder, parc, parv))
#define TIE verif_old_int((spec_is_server(sptr) ? uf_atoi(parv[3]) : uf_atoi(parv[2])) == ghost_holder->cli_lastnick)
#define COLLIDED (ghost_looked && HOLDER_OTHER && !verif_old_int(spec_override(ghost_holder)))
int ms_nick(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(NONE_YET && parv[1] != 0 && spec_is_server(cptr) && spec_local(cptr) && cptr == ghost_cptr && sptr == ghost_sptr && (spec_is_server(sptr) || (spec_is_user(sptr) && !spec_local(sptr))))
  __CPROVER_requires(ghost_yxx == parv[parc - 2] && ghost_yxx != (const char *)sptr && ghost_yxx != (const char *)ghost_holder)
#ifdef VALID
  __CPROVER_ensures(ghost_set_n == 0 || (ghost_set_n == 1 && verif_old_int(spec_nick(parv[1]))))
  __CPROVER_ensures(ghost_looked || !verif_old_int(parc >= (spec_is_server(sptr) ? 8 : 3) && spec_nick(parv[1])))
#else
  __CPROVER_ensures(!ghost_looked || ghost_exit_other == 0)
  __CPROVER_ensures(!(ghost_looked && !ghost_holder) || (ghost_set_n == 1 && !ghost_exit_new))
  __CPROVER_ensures(!(ghost_looked && HOLDER_OTHER && verif_old_int(spec_override(ghost_holder))) || (ghost_set_n == 1 && ghost_exit_old == 1 && !ghost_exit_new))
  __CPROVER_ensures(!COLLIDED || (ghost_set_n == !NEW_LOSES))
  __CPROVER_ensures(!COLLIDED || (ghost_exit_old == (!NEW_LOSES || TIE) && ghost_kill_old == ghost_exit_old))
  __CPROVER_ensures(!COLLIDED || ISSERVER || (ghost_exit_new == NEW_LOSES && ghost_kill_new == NEW_LOSES && !ghost_kill_intro))
  __CPROVER_ensures(!COLLIDED || !ISSERVER || (ghost_exit_new == 0 && ghost_kill_new == 0 && ghost_kill_intro == NEW_LOSES))
#endif
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(RECORD);
#include "ircd/m_nick.c"
