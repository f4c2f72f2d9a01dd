/* C26: GLINE from another server: what is read from the message is what is done */
#include "c26_env.h"
#include "numnicks.h"
#include "hash.h"
#define NOW (CurrentTime + TSoffset)
int uf_atoi(const char *s);
unsigned long uf_number(const char *s);
char *uf_rest(const char *s);
struct Client *uf_nserver(const char *n);
struct Gline *uf_gline(const char *mask, unsigned int flags);
int atoi(const char *s) __CPROVER_ensures(__CPROVER_return_value == uf_atoi(s)) __CPROVER_assigns();
unsigned long strtoul(const char *s, char **end, int base)
  __CPROVER_requires(base == 10 && end)
  __CPROVER_ensures(__CPROVER_return_value == uf_number(s) && *end == uf_rest(s) && *end)
  __CPROVER_assigns(*end);
struct Client *FindNServer(const char *n) __CPROVER_ensures(__CPROVER_return_value == uf_nserver(n)) __CPROVER_assigns();
struct Gline *gline_find(char *userhost, unsigned int flags) __CPROVER_ensures(__CPROVER_return_value == uf_gline(userhost, flags)) __CPROVER_assigns();
/* what was done: 1 added, 2 changed, 3 destroyed, 4 handed to the server it is for, 5 handed on to everyone */
int ghost_gl, ghost_action; unsigned ghost_flags; struct Gline *ghost_ptr; const char *ghost_mask, *ghost_reason; long ghost_expire, ghost_lastmod, ghost_life; struct Client *ghost_c, *ghost_s, *ghost_to; int ghost_sign, ghost_bang;
#define REC ghost_gl, ghost_action, ghost_flags, ghost_ptr, ghost_mask, ghost_reason, ghost_expire, ghost_lastmod, ghost_life, ghost_c, ghost_s
int gline_add(struct Client *cptr, struct Client *sptr, char *userhost, char *reason, time_t expire, time_t lastmod, time_t lifetime, unsigned int flags)
  __CPROVER_requires(ghost_gl == 0)
  __CPROVER_ensures(ghost_gl == 1 && ghost_c == cptr && ghost_s == sptr && ghost_flags == flags && ghost_mask == userhost && ghost_reason == reason && ghost_expire == expire && ghost_lastmod == lastmod && ghost_life == lifetime)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(REC);
int gline_modify(struct Client *cptr, struct Client *sptr, struct Gline *gline, enum GlineAction action, char *reason, time_t expire, time_t lastmod, time_t lifetime, unsigned int flags)
  __CPROVER_requires(ghost_gl == 0)
  __CPROVER_ensures(ghost_gl == 2 && ghost_c == cptr && ghost_s == sptr && ghost_flags == flags && ghost_ptr == gline && ghost_action == action && ghost_reason == reason && ghost_expire == expire && ghost_lastmod == lastmod && ghost_life == lifetime)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(REC);
int gline_destroy(struct Client *cptr, struct Client *sptr, struct Gline *gline)
  __CPROVER_requires(ghost_gl == 0)
  __CPROVER_ensures(ghost_gl == 3 && ghost_c == cptr && ghost_s == sptr && ghost_ptr == gline)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(REC);
void sendcmdto_one(struct Client *from, const char *cmd, const char *tok, struct Client *to, const char *pattern, ...)
  __CPROVER_requires(ghost_gl == 0 && tok[0] == 'G' && tok[1] == 'L' && !tok[2])
  __CPROVER_ensures(ghost_gl == 4 && ghost_s == from && ghost_to == to && verif_va_ptr(0) == (void *)to && ghost_bang == (*(char *)verif_va_ptr(1) == '!') && ghost_sign == verif_va_int(2) && ghost_mask == verif_va_ptr(3))
  __CPROVER_ensures(verif_va_count() <= 4 || (ghost_expire == verif_va_int(4) && ghost_lastmod == verif_va_int(5) && ghost_reason == verif_va_ptr(6)))
  __CPROVER_assigns(REC, ghost_to, ghost_bang, ghost_sign);
void sendcmdto_serv_butone(struct Client *from, const char *cmd, const char *tok, struct Client *one, const char *pattern, ...)
  __CPROVER_requires(ghost_gl == 0 && tok[0] == 'G' && tok[1] == 'L' && !tok[2])
  __CPROVER_ensures(ghost_gl == 5 && ghost_s == from && ghost_c == one && ghost_sign == verif_va_int(0) && ghost_mask == verif_va_ptr(1) && ghost_lastmod == verif_va_int(2))
  __CPROVER_assigns(REC, ghost_to, ghost_bang, ghost_sign);
#include "ircd/m_gline.c"
/* what the message says */
static int spec_bang(char *p) { return p[0] == '!'; }
static char spec_sign(char *p) { char c = p[0] == '!' ? p[1] : p[0]; return c == '+' || c == '-' || c == '<' || c == '>' ? c : 0; }
static char *spec_mask(char *p) { char *q = p[0] == '!' ? p + 1 : p; return *q == '+' || *q == '-' || *q == '<' || *q == '>' ? q + 1 : q; }
static int spec_everywhere(char *t) { return t[0] == '*' && t[1] == 0; }
static long spec_until(const char *p) { long e = uf_atoi(p); return e >= NOW - PASTWATCH ? e : e + NOW; }
#define SIGN verif_old_int(spec_sign(parv[2]))
#define LOCALLY (SIGN == '<' || SIGN == '>')
#define WHERE verif_old_ptr(uf_nserver(parv[1]))
#define HERE verif_old_int(uf_nserver(parv[1]) && uf_nserver(parv[1])->cli_status == 0x004)
#define KIND (verif_old_int((SPEC_SRV(sptr) ? GLINE_FORCE : 0) | (spec_bang(parv[2]) ? GLINE_OPERFORCE : 0) | (spec_sign(parv[2]) == '<' || spec_sign(parv[2]) == '>' || spec_everywhere(parv[1]) ? GLINE_GLOBAL : GLINE_LOCAL)))
#define SPEC_SRV(s) ((s)->cli_status == 0x040)
#define KNOWN(k) (verif_old_ptr(uf_gline(spec_mask(parv[2]), (SPEC_SRV(sptr) ? GLINE_FORCE : 0) | (spec_bang(parv[2]) ? GLINE_OPERFORCE : 0) | (k) | GLINE_ANY | GLINE_EXACT)))
static struct Gline *spec_known(struct Client *sptr, char **parv) { return uf_gline(spec_mask(parv[2]), (SPEC_SRV(sptr) ? GLINE_FORCE : 0) | (spec_bang(parv[2]) ? GLINE_OPERFORCE : 0) | GLINE_GLOBAL | GLINE_ANY | GLINE_EXACT); }
#define KNOWN_ANY KNOWN(GLINE_GLOBAL)
#define KNOWN_OWN KNOWN(GLINE_LOCAL)
#define OK verif_old_int(parc >= 3 && *spec_mask(parv[2]))
#define ANY (verif_old_int(spec_everywhere(parv[1])) && !LOCALLY)
#define OWN (!verif_old_int(spec_everywhere(parv[1])) && !LOCALLY)
#define P3 verif_old_int(uf_atoi(parv[3]))
#define P4 verif_old_int(uf_atoi(parv[4]))
#define UNTIL ((long)verif_old_ulong(spec_until(parv[3])))
#define STAMP (parc > 4 ? P4 : parc == 4 && (SIGN || !KNOWN_ANY) ? P3 : 0)
#define AS_SENT (ghost_c == cptr && ghost_s == sptr)
#define LASTARG verif_old_ptr(parv[parc - 1])
int ms_gline(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(ghost_gl == 0 && ghost_bang == 0 && CurrentTime > 0 && CurrentTime < 4000000000 && TSoffset > -1000000 && TSoffset < 1000000 && me.cli_status == 0x004 && parc < 15 && parv[1] && parv[2])
  /* nothing without a mask, a server it is for, or a time stamp */
  __CPROVER_ensures(OK || ghost_gl == 0)
  __CPROVER_ensures(ANY || WHERE || ghost_gl == 0)
  /* for one server only: there, and handed on unchanged elsewhere */
  __CPROVER_ensures(!(OK && LOCALLY && WHERE && !HERE) || (ghost_gl == 4 && ghost_s == sptr && ghost_to == WHERE && ghost_bang == verif_old_int(spec_bang(parv[2])) && ghost_sign == SIGN && ghost_mask == verif_old_ptr(spec_mask(parv[2]))))
  __CPROVER_ensures(!(OK && OWN && WHERE && !HERE) || ghost_gl == (parc < 5 && SIGN != '-' ? 0 : 4))
  __CPROVER_ensures(!(OK && OWN && WHERE && !HERE) || ghost_gl == 0 || (ghost_s == sptr && ghost_to == WHERE && ghost_bang == verif_old_int(spec_bang(parv[2])) && ghost_sign == (SIGN == '-' ? '-' : '+') && ghost_mask == verif_old_ptr(spec_mask(parv[2]))))
  __CPROVER_ensures(!(OK && OWN && WHERE && !HERE) || ghost_gl == 0 || SIGN == '-' || ((int)ghost_expire == (int)(UNTIL - verif_old_ulong(NOW)) && ghost_reason == LASTARG))
  __CPROVER_ensures(!(OK && OWN && HERE) || SIGN == '-' || ghost_gl == (parc < 5 || KNOWN_OWN ? 0 : 1))
  __CPROVER_ensures(!(OK && OWN && HERE) || SIGN != '-' || (ghost_gl == (KNOWN_OWN ? 3 : 0) && (!ghost_gl || (AS_SENT && ghost_ptr == KNOWN_OWN))))
  __CPROVER_ensures(!(OK && OWN && HERE) || ghost_gl != 1 || (AS_SENT && ghost_flags == (KIND | GLINE_ACTIVE) && ghost_expire == UNTIL && ghost_mask == verif_old_ptr(spec_mask(parv[2])) && ghost_reason == LASTARG))
  /* a network-wide one put in or out of force on this server only */
  __CPROVER_ensures(!(OK && LOCALLY && HERE) || ghost_gl == (KNOWN_ANY && verif_old_ulong(spec_known(sptr, parv)->gl_lastmod) ? 2 : 0))
  __CPROVER_ensures(!(OK && LOCALLY && HERE) || !ghost_gl || (AS_SENT && ghost_ptr == KNOWN_ANY && ghost_action == (SIGN == '<' ? GLINE_LOCAL_DEACTIVATE : GLINE_LOCAL_ACTIVATE) && ghost_flags == KIND && ghost_expire == 0))
  /* a network-wide one changed */
  __CPROVER_ensures(!(OK && ANY) || ghost_gl == (!STAMP || (SIGN && parc < 4) ? 0 : KNOWN_ANY ? 2 : parc > 4 && UNTIL ? 1 : 5))
  __CPROVER_ensures(!(OK && ANY) || !ghost_gl || (AS_SENT && ghost_lastmod == STAMP))
  __CPROVER_ensures(!(OK && ANY) || ghost_gl != 2 || (ghost_ptr == KNOWN_ANY && ghost_action == (SIGN == '+' ? GLINE_ACTIVATE : SIGN == '-' ? GLINE_DEACTIVATE : GLINE_MODIFY) && ghost_expire == (parc > 4 ? UNTIL : 0)))
  __CPROVER_ensures(!(OK && ANY) || ghost_gl != 1 || (ghost_mask == verif_old_ptr(spec_mask(parv[2])) && ghost_expire == UNTIL && !(ghost_flags & GLINE_ACTIVE) == (SIGN == '-')))
  __CPROVER_ensures(!(OK && ANY) || ghost_gl != 5 || (ghost_sign == (SIGN == '-' ? '-' : '+') && ghost_mask == verif_old_ptr(spec_mask(parv[2]))))
  __CPROVER_ensures(!(OK && ANY) || (ghost_gl != 1 && ghost_gl != 2) || ((ghost_flags & ~(GLINE_EXPIRE | GLINE_LIFETIME | GLINE_REASON | GLINE_ACTIVE)) == KIND && !(ghost_flags & GLINE_EXPIRE) == (parc <= 4)))
  __CPROVER_ensures(!(OK && ANY) || (ghost_gl != 1 && ghost_gl != 2) || parc <= 6 || ((ghost_flags & GLINE_LIFETIME) && (ghost_flags & GLINE_REASON) && ghost_life == verif_old_int(uf_atoi(parv[5])) && ghost_reason == LASTARG))
  __CPROVER_ensures(!(OK && ANY) || ghost_gl != 1 || parc != 6 || ((ghost_flags & GLINE_REASON) && ghost_life == 0 && ghost_reason == LASTARG))
  __CPROVER_ensures(!(OK && ANY) || ghost_gl != 2 || parc != 6 || (!(ghost_flags & GLINE_REASON) == verif_old_int(!*uf_rest(parv[5])) && (!(ghost_flags & GLINE_REASON) ? ghost_life == (long)verif_old_ulong(uf_number(parv[5])) : ghost_reason == LASTARG)))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(REC, ghost_to, ghost_bang, ghost_sign);
