/* C17: LIST (m_list.c) */
#include "c17_env.h"
#include <stdlib.h>
#include "ircd_features.h"
unsigned ghost_flags;                /* the flags of the listing before */
static int spec_lister(struct Client *c) { return c && spec_anyop(c) && SPEC_PRIV(c, PRIV_LIST_CHAN); }
#define PRIVILEGED (LISTARG_SHOWSECRET | LISTARG_SHOWMODES)
long strtol(const char *s, char **end, int base)
  __CPROVER_ensures(1)
  __CPROVER_assigns(*end);
char *ircd_strncpy(char *d, const char *s, size_t n)
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_text_upto(d, 200));
int send_reply(struct Client *to, int reply, ...)
  __CPROVER_requires(to == ghost_to)
  __CPROVER_requires((reply & ~SND_EXPLICIT) != RPL_LIST || !ghost_ch || verif_va_ptr(0) != ghost_ch->chname || spec_sees(to, ghost_ch) || spec_lister(to))
  __CPROVER_ensures(1)
  __CPROVER_assigns();
void list_next_channels(struct Client *cptr)
  __CPROVER_requires(cptr == ghost_to && (!(cptr->cli_connect->con_listing->flags & PRIVILEGED) || spec_lister(cptr)))
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_everything());
void verif_inv_param_parse(struct Client *sptr, struct ListingArgs *args)
  __CPROVER_ensures(!(args->flags & ~ghost_flags & PRIVILEGED) || spec_lister(sptr));
void verif_inv_m_list(struct Client *sptr, struct ListingArgs *args)
  __CPROVER_ensures(!(args->flags & PRIVILEGED) || spec_lister(sptr));
#include "ircd/m_list.c"
static int show_usage(struct Client *sptr)
  __CPROVER_ensures(__CPROVER_return_value == LPARAM_ERROR)
  __CPROVER_assigns();
static int param_parse(struct Client *sptr, const char *param, struct ListingArgs *args, int permit_chan)
#ifndef CALLERS
  __CPROVER_requires(ghost_flags == args->flags)
#endif
  __CPROVER_ensures(!(args->flags & ~__CPROVER_old(args->flags) & PRIVILEGED) || spec_lister(sptr))
  __CPROVER_assigns(args->max_time, args->min_time, args->max_users, args->min_users, args->flags, args->max_topic_time, args->min_topic_time, verif_text_upto(args->wildcard, CHANNELLEN), verif_text_upto(param, 600));
int m_list(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(sptr && sptr == ghost_to && !(la_default.flags & PRIVILEGED) && !(la_init.flags & PRIVILEGED))
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_everything());
void list_set_default(void)
  __CPROVER_requires(!(la_init.flags & PRIVILEGED))
  __CPROVER_ensures(!(la_default.flags & PRIVILEGED))
  __CPROVER_assigns(la_default);
