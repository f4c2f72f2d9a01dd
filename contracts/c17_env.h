/* C17: what may be shown to whom.  Every function below that copies or sends text requires that the text is not a
 * secret of the channel ghost_ch (any channel) or the user ghost_ac (any user) that ghost_to, who asks, may not see. */
#include "chan_api.h"
#include "ircd_reply.h"
#include "numeric.h"
#include "s_bsd.h"
#ifndef FIND_MEMBER
#define FIND_MEMBER
struct Membership *uf_member(struct Channel *ch, const struct Client *c);
struct Membership *find_channel_member(struct Client *cptr, struct Channel *chptr)
  __CPROVER_ensures(__CPROVER_return_value == uf_member(chptr, cptr))
  __CPROVER_ensures(!__CPROVER_return_value || (__CPROVER_return_value->channel == chptr && __CPROVER_return_value->user == cptr && !(__CPROVER_return_value->status & 0x10)))
  __CPROVER_assigns();
#endif
struct Client *ghost_to;
struct Channel *ghost_ch;
struct Client *ghost_ac;
struct Membership *ghost_mb;
int ghost_secret_ok;                 /* may see secret channels by privilege */
static int spec_hidden(struct Channel *ch) { return (ch->mode.mode & (MODE_SECRET | MODE_PRIVATE)) != 0; }
static int spec_sees(struct Client *to, struct Channel *ch) { return !spec_hidden(ch) || uf_member(ch, to) != 0; }
