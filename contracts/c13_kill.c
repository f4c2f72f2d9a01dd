/* C13: KILL */
#include "c13_env.h"
#include "whowas.h"
#include "s_misc.h"
int ghost_exit_n;
struct Client *ghost_exit_who, *ghost_exit_link;
struct Client *get_history(const char *nick)
  __CPROVER_ensures(__CPROVER_return_value == uf_history(nick))
  __CPROVER_ensures(!__CPROVER_return_value || spec_is_user(__CPROVER_return_value))
  __CPROVER_assigns();
int exit_client_msg(struct Client *cptr, struct Client *bcptr, struct Client *sptr, const char *pattern, ...)
  __CPROVER_ensures(ghost_exit_n == __CPROVER_old(ghost_exit_n) + 1 && ghost_exit_who == bcptr && ghost_exit_link == cptr)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_exit_n, ghost_exit_who, ghost_exit_link);
char *uf_strchr(const char *s, int c);
char *strchr(const char *s, int c)
  __CPROVER_ensures(__CPROVER_return_value == uf_strchr(s, c))
  __CPROVER_ensures(!__CPROVER_return_value || *__CPROVER_return_value == (char)c)
  __CPROVER_assigns();
static struct Client *spec_victim(const char *name)
{
  struct Client *v = name && *name ? uf_client(name, ~0) : (struct Client *)0;
  return v ? v : uf_history(name);
}
static int spec_may_kill(struct Client *s, int parc, char *parv[])
{
  struct Client *v;
  if (parc < 3 || !parv[parc - 1] || !*parv[parc - 1]) return 0;
  v = spec_victim(parv[1]);
  if (!v || spec_is_server(v) || spec_is_me(v) || spec_service(v)) return 0;
  return SPEC_PRIV(s, spec_local(v) ? PRIV_LOCAL_KILL : PRIV_KILL) != 0;
}
int mo_kill(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(OPER_HANDLER_REQ(cptr, sptr) && ghost_exit_n == 0 && ghost_serv_n == 0)
  __CPROVER_ensures(ghost_exit_n == verif_old_int(spec_may_kill(sptr, parc, parv)))
  __CPROVER_ensures(!ghost_exit_n || (ghost_exit_who == verif_old_ptr(spec_victim(parv[1])) && ghost_exit_link == cptr))
  __CPROVER_ensures(ghost_serv_n == verif_old_int(spec_may_kill(sptr, parc, parv) && !spec_local(spec_victim(parv[1]))))
  __CPROVER_ensures(!ghost_serv_n || (ghost_serv_from == sptr && ghost_serv_tok0 == 'D' && ghost_serv_va0 == ghost_exit_who))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_exit_n, ghost_exit_who, ghost_exit_link, REC_SERV, REC_ONE);
/* from the network: carried out and passed on to all other links */
int ms_kill(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(spec_is_server(cptr) && spec_local(cptr) && ghost_exit_n == 0 && ghost_serv_n == 0 && ghost_one_n == 0)
  __CPROVER_ensures(ghost_exit_n == verif_old_int(parc >= 3 && uf_numuser(parv[1]) != 0) && ghost_serv_n == ghost_exit_n)
  __CPROVER_ensures(!ghost_exit_n || (ghost_exit_who == verif_old_ptr(uf_numuser(parv[1])) && ghost_exit_link == cptr))
  __CPROVER_ensures(!ghost_serv_n || (ghost_serv_from == sptr && ghost_serv_but == cptr && ghost_serv_tok0 == 'D' && ghost_serv_va0 == ghost_exit_who))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_exit_n, ghost_exit_who, ghost_exit_link, REC_SERV, REC_ONE);
#include "ircd/m_kill.c"
