/* C17: NAMES (m_names.c): which lists are asked for, and who is listed as being nowhere */
#include "c17_env.h"
char *strcpy(char *d, const char *s)
  __CPROVER_requires(s[0] == '*' || s != ghost_ac->cli_name || ghost_ac == ghost_to || !SPEC_FLAG(ghost_ac, FLAG_INVISIBLE))
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_text_upto(d, 512));
int send_reply(struct Client *to, int reply, ...)
  __CPROVER_requires(to == ghost_to)
  __CPROVER_ensures(1)
  __CPROVER_assigns();
int hunt_server_cmd(struct Client *from, const char *cmd, const char *tok, struct Client *one, int MustBeOper, const char *pattern, int server, int parc, char *parv[])
  __CPROVER_ensures(1)
  __CPROVER_assigns();
void do_names(struct Client *sptr, struct Channel *chptr, int filter)
  __CPROVER_requires(sptr == ghost_to && chptr && ((filter & NAMES_ALL) != 0) != ((filter & NAMES_VIS) != 0))
  __CPROVER_requires(!(filter & NAMES_ALL) || spec_link(chptr, sptr) || uf_member(chptr, sptr))
  __CPROVER_ensures(1)
  __CPROVER_assigns();
int m_names(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(sptr == ghost_to)
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_everything());
#include "ircd/m_names.c"
