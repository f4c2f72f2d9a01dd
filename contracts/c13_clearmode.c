/* C13: CLEARMODE */
#define CLEAR
#include "c13_opmode.c"
const char *ghost_letters;
static int do_clearmode(struct Client *cptr, struct Client *sptr, struct Channel *chptr, char *control)
  __CPROVER_ensures(ghost_forced == __CPROVER_old(ghost_forced) + 1 && ghost_forced_on == chptr && ghost_letters == control)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_forced, ghost_forced_on, ghost_letters);
int mo_clearmode(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(OPER_HANDLER_REQ(cptr, sptr) && ghost_forced == 0 && (parc < 2 || (parv[1] && parv[1] + 1)))
  __CPROVER_ensures(ghost_forced == verif_old_int(parc >= 2 && spec_may_force(sptr, parv[1])))
  __CPROVER_ensures(!ghost_forced || ghost_forced_on == verif_old_ptr(spec_target(parv[1])))
  __CPROVER_ensures(!ghost_forced || parc <= 2 || ghost_letters == verif_old_ptr(parv[2]))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_forced, ghost_forced_on, ghost_letters);
/* from the network: only for servers and operators, never for a local channel */
int ms_clearmode(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(ghost_forced == 0 && (parc < 2 || parv[1]))
  __CPROVER_ensures(ghost_forced == verif_old_int(parc >= 3 && (spec_anyop(sptr) || spec_is_server(sptr)) && *parv[1] == '#' && uf_channel(parv[1]) != 0))
  __CPROVER_ensures(!ghost_forced || (ghost_forced_on == verif_old_ptr(uf_channel(parv[1])) && ghost_letters == verif_old_ptr(parv[2])))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_forced, ghost_forced_on, ghost_letters);
#include "ircd/m_clearmode.c"
