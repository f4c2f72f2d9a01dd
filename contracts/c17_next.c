/* C17: LIST, bucket by bucket (list_next_channels in hash.c) */
#include "c17_env.h"
struct ListingArgs *ghost_args;
int send_reply(struct Client *to, int reply, ...)
  __CPROVER_requires(to == ghost_to)
  __CPROVER_requires((reply & ~SND_EXPLICIT) != RPL_LIST || !ghost_ch || verif_va_ptr(reply & SND_EXPLICIT ? 1 : 0) != ghost_ch->chname || spec_sees(to, ghost_ch) || (ghost_args->flags & LISTARG_SHOWSECRET))
  __CPROVER_requires((reply & ~SND_EXPLICIT) != RPL_LIST || !(reply & SND_EXPLICIT) || (ghost_args->flags & LISTARG_SHOWMODES))
  __CPROVER_ensures(1)
  __CPROVER_assigns();
void channel_modes(struct Client *cptr, char *mbuf, char *pbuf, int buflen, struct Channel *chptr, struct Membership *member)
  __CPROVER_requires(cptr && cptr == ghost_to && (!member || member == uf_member(chptr, cptr)))
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_text_upto(mbuf, 100), verif_text_upto(pbuf, 300));
void list_next_channels(struct Client *cptr)
  __CPROVER_requires(cptr && cptr == ghost_to && ghost_args == cptr->cli_connect->con_listing)
  __CPROVER_ensures(1)
  __CPROVER_assigns(ghost_args->bucket, cptr->cli_connect->con_listing);
#include "ircd/hash.c"
