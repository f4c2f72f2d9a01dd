/* C13: DIE, RESTART */
#include "c13_env.h"
int ghost_die_n, ghost_restart_n;
void server_die(const char *message)
  __CPROVER_ensures(ghost_die_n == __CPROVER_old(ghost_die_n) + 1)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_die_n);
void server_restart(const char *message)
  __CPROVER_ensures(ghost_restart_n == __CPROVER_old(ghost_restart_n) + 1)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_restart_n);
int mo_die(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(OPER_HANDLER_REQ(cptr, sptr) && ghost_die_n == 0 && ghost_one_n == 0)
  __CPROVER_ensures(ghost_die_n == verif_old_int(SPEC_PRIV(sptr, PRIV_DIE) != 0) && (ghost_die_n || ghost_one_n == 0))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_die_n, REC_ONE);
int mo_restart(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(OPER_HANDLER_REQ(cptr, sptr) && ghost_restart_n == 0)
  __CPROVER_ensures(ghost_restart_n == verif_old_int(SPEC_PRIV(sptr, PRIV_RESTART) != 0))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_restart_n);
#include "ircd/m_die.c"
#include "ircd/m_restart.c"
