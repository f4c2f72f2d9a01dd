/* C17: NAMES (m_names.c) */
#include "c17_env.h"
static int spec_chan_ok(const char *s) { return !ghost_ch || s != ghost_ch->chname || spec_sees(ghost_to, ghost_ch); }
char *strcpy(char *d, const char *s)
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_text_upto(d, 512));
int send_reply(struct Client *to, int reply, ...)
  __CPROVER_requires(to == ghost_to)
  __CPROVER_requires((reply != RPL_NAMREPLY && reply != RPL_DELNAMREPLY) || !ghost_ch || spec_sees(ghost_to, ghost_ch))
  __CPROVER_ensures(1)
  __CPROVER_assigns();
void verif_at_do_names(struct Membership *m, struct Client *sptr, int filter)
  __CPROVER_requires(sptr == ghost_to && (m->user == sptr || !(m->status & 0x10)))
  __CPROVER_requires(m->user == sptr || (filter & NAMES_DEL) != 0 || !(m->status & 0x40000))
  __CPROVER_requires(!(filter & NAMES_VIS) || !SPEC_FLAG(m->user, FLAG_INVISIBLE))
  __CPROVER_ensures(1)
  __CPROVER_assigns();
void do_names(struct Client *sptr, struct Channel *chptr, int filter)
  __CPROVER_requires(sptr == ghost_to && chptr == ghost_ch && ((filter & NAMES_ALL) != 0) != ((filter & NAMES_VIS) != 0))
  __CPROVER_requires(!(filter & NAMES_ALL) || spec_link(chptr, sptr))
  __CPROVER_ensures(1)
  __CPROVER_assigns();
#include "ircd/m_names.c"
