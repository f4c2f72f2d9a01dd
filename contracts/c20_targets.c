/* C20: the target change limit (s_user.c) */
#include "config.h"
#include "verif.h"
#include "channel.h"
#include "client.h"
#include "ircd.h"
#include "ircd_reply.h"
#include "s_user.h"
#include "struct.h"
#include "spec_client.h"
/* the last twenty targets are remembered by eight bits of their address */
static unsigned char spec_hash(void *p) { return (unsigned char)(((unsigned long)p >> 16) ^ ((unsigned long)p >> 8)); }
static int spec_pos(struct Connection *con, unsigned char h)
{
  int i;
  for (i = 0; i < 20; i++) if (con->con_targets[i] == h) return i;
  return 20;
}
int uf_invited(struct Client *c, struct Channel *ch);
int IsInvited(struct Client *cptr, const void *chptr)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (uf_invited(cptr, (struct Channel *)chptr) != 0))
  __CPROVER_assigns();
int ghost_i;            /* any one of the places */
struct Connection *ghost_con; unsigned char ghost_h;
static unsigned char hash_target(void *target)
  __CPROVER_ensures(__CPROVER_return_value == spec_hash(target))
  __CPROVER_assigns();
/* out of allowance */
static int spec_spent(struct Connection *con) { return CurrentTime < con->con_nexttarget; }
#define FREE(chptr) (chptr && uf_invited(sptr, chptr))
/* the time from which another new target is allowed */
static time_t spec_next(struct Connection *con)
{
  time_t n = con->con_nexttarget + 128;
  return n < CurrentTime - 128 * 19 ? CurrentTime - 128 * 19 : n;
}
int check_target_limit(struct Client *sptr, struct Client *acptr, struct Channel *chptr)
  __CPROVER_requires(ghost_con == sptr->cli_connect && 0 <= ghost_i && ghost_i < 20 && (acptr || chptr))
  __CPROVER_requires(ghost_h == spec_hash(acptr ? (void *)acptr : (void *)chptr))
  __CPROVER_requires(-(1l << 40) < CurrentTime && CurrentTime < 1l << 40 && -(1l << 40) < ghost_con->con_nexttarget && ghost_con->con_nexttarget < 1l << 40)
  __CPROVER_ensures((__CPROVER_return_value != 0) == verif_old_int(spec_pos(ghost_con, ghost_h) == 20 && spec_spent(ghost_con) && !FREE(chptr)))
  __CPROVER_ensures(ghost_con->con_nexttarget == (long)verif_old_ulong(spec_pos(ghost_con, ghost_h) < 20 || (spec_spent(ghost_con) && FREE(chptr)) ? ghost_con->con_nexttarget
                     : !spec_spent(ghost_con) ? spec_next(ghost_con) : ghost_con->con_nexttarget - CurrentTime < 136 ? ghost_con->con_nexttarget + 2 : ghost_con->con_nexttarget))
  __CPROVER_ensures(ghost_con->con_targets[ghost_i] == (unsigned char)verif_old_int(spec_pos(ghost_con, ghost_h) == 20 && spec_spent(ghost_con) ? ghost_con->con_targets[ghost_i]
                     : ghost_i == 0 ? ghost_h : ghost_i <= spec_pos(ghost_con, ghost_h) ? ghost_con->con_targets[ghost_i - 1] : ghost_con->con_targets[ghost_i]))
  __CPROVER_assigns(ghost_con->con_nexttarget, __CPROVER_object_upto(ghost_con->con_targets, 20));
/* who writes to a user can be answered freely */
void add_target(struct Client *sptr, void *target)
  __CPROVER_requires(ghost_con == sptr->cli_connect && 0 <= ghost_i && ghost_i < 20 && ghost_h == spec_hash(target))
  __CPROVER_ensures(spec_pos(ghost_con, ghost_h) < 20)
  __CPROVER_ensures(ghost_con->con_targets[ghost_i] == (unsigned char)verif_old_int(spec_pos(ghost_con, ghost_h) < 20 || ghost_i < 12 ? ghost_con->con_targets[ghost_i] : ghost_i == 12 ? ghost_h : ghost_con->con_targets[ghost_i - 1]))
  __CPROVER_assigns(__CPROVER_object_upto(ghost_con->con_targets, 20));
/* so at most twenty new targets at once, and after that one for every 128 seconds */
int lemma_rate(struct Connection *con, time_t later)
  __CPROVER_requires(-(1l << 40) < CurrentTime && CurrentTime < 1l << 40 && -(1l << 40) < con->con_nexttarget && con->con_nexttarget <= CurrentTime && CurrentTime <= later && later < 1l << 40)
  __CPROVER_ensures(__CPROVER_return_value == 1)
  __CPROVER_assigns();
#include "ircd/s_user.c"
/* the targets allowed until `later' after this one: one less than before */
static long spec_allowed(time_t next, time_t until) { return until < next ? 0 : (until - next) / 128 + 1; }
int lemma_rate(struct Connection *con, time_t later)
{
  time_t n = spec_next(con);
  return spec_allowed(n, CurrentTime) <= 19 + 1 && spec_allowed(n, later) <= 20 + (later - CurrentTime) / 128
    && (con->con_nexttarget < CurrentTime - 128 * 20 || spec_allowed(n, later) == spec_allowed(con->con_nexttarget, later) - 1);
}
