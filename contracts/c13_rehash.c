/* C13: REHASH */
#include "c13_env.h"
#include "motd.h"
#include "ircd_log.h"
#include "ircd_tls.h"
#include "s_conf.h"
int ghost_reload[4];   /* motd, logs, TLS files, configuration */
int ghost_resolver;
void motd_recache(void)
  __CPROVER_ensures(ghost_reload[0] == verif_old_int(ghost_reload[0]) + 1 && ghost_reload[1] == verif_old_int(ghost_reload[1]) && ghost_reload[2] == verif_old_int(ghost_reload[2]) && ghost_reload[3] == verif_old_int(ghost_reload[3]))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_reload);
void log_reopen(void)
  __CPROVER_ensures(ghost_reload[1] == verif_old_int(ghost_reload[1]) + 1 && ghost_reload[0] == verif_old_int(ghost_reload[0]) && ghost_reload[2] == verif_old_int(ghost_reload[2]) && ghost_reload[3] == verif_old_int(ghost_reload[3]))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_reload);
int ircd_tls_rehash(void)
  __CPROVER_ensures(ghost_reload[2] == verif_old_int(ghost_reload[2]) + 1 && ghost_reload[0] == verif_old_int(ghost_reload[0]) && ghost_reload[1] == verif_old_int(ghost_reload[1]) && ghost_reload[3] == verif_old_int(ghost_reload[3]))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_reload);
int rehash(struct Client *cptr, int sig)
  __CPROVER_ensures(ghost_reload[3] == verif_old_int(ghost_reload[3]) + 1 && ghost_reload[0] == verif_old_int(ghost_reload[0]) && ghost_reload[1] == verif_old_int(ghost_reload[1]) && ghost_reload[2] == verif_old_int(ghost_reload[2]))
  __CPROVER_ensures(ghost_resolver == (sig != 2))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_reload, ghost_resolver);
static char spec_word(int parc, char *parv[]) { return parc > 1 ? *parv[1] : 0; }
static int spec_what(char c) { return c == 'm' ? 0 : c == 'l' ? 1 : c == 's' ? 2 : 3; }
int mo_rehash(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(OPER_HANDLER_REQ(cptr, sptr) && ghost_reload[0] == 0 && ghost_reload[1] == 0 && ghost_reload[2] == 0 && ghost_reload[3] == 0)
  __CPROVER_ensures(ghost_reload[0] == verif_old_int(SPEC_PRIV(sptr, PRIV_REHASH) && spec_what(spec_word(parc, parv)) == 0))
  __CPROVER_ensures(ghost_reload[1] == verif_old_int(SPEC_PRIV(sptr, PRIV_REHASH) && spec_what(spec_word(parc, parv)) == 1))
  __CPROVER_ensures(ghost_reload[2] == verif_old_int(SPEC_PRIV(sptr, PRIV_REHASH) && spec_what(spec_word(parc, parv)) == 2))
  __CPROVER_ensures(ghost_reload[3] == verif_old_int(SPEC_PRIV(sptr, PRIV_REHASH) && spec_what(spec_word(parc, parv)) == 3))
  __CPROVER_ensures(!ghost_reload[3] || ghost_resolver == verif_old_int(spec_word(parc, parv) != 'q'))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_reload, ghost_resolver);
#include "ircd/m_rehash.c"
