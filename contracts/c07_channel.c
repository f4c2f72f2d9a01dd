/* C07: who may speak on a channel (channel.c) */
#include "config.h"
#include "verif.h"
#include "channel.h"
#include "client.h"
#include "ircd_defs.h"
#include "list.h"
#include "res.h"
#include "struct.h"
#include "spec_chan.h"

struct Membership *find_member_link(struct Channel *chptr, const struct Client *cptr)
  __CPROVER_ensures(__CPROVER_return_value == spec_link(chptr, cptr))
  __CPROVER_assigns();
void verif_inv_find_member_link_service(struct Membership *m, struct Channel *chptr, const struct Client *cptr)
  __CPROVER_ensures(rec_by_user(m, cptr) == rec_by_user(chptr->members, cptr));
void verif_inv_find_member_link_user(struct Membership *m, struct Channel *chptr, const struct Client *cptr)
  __CPROVER_ensures(rec_by_chan(m, chptr) == rec_by_chan(cptr->cli_user->channel, chptr));
struct Ban *find_ban(struct Client *cptr, struct Ban *banlist)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (uf_banned(cptr, banlist) != 0))
  __CPROVER_assigns();
#define JOIN_SHOWN __CPROVER_assigns(verif_any_bits(ghost_member->status, 0x40000)) __CPROVER_assigns(verif_any_bits(ghost_channel->mode.mode, 0x400000))
struct Membership *ghost_member; struct Channel *ghost_channel;
/* showing a hidden member touches the "hidden" marks and nothing else */
void RevealDelayedJoin(struct Membership *member)
  __CPROVER_ensures(member->status == (__CPROVER_old(member->status) & ~0x40000u))
  JOIN_SHOWN;
void RevealDelayedJoinIfNeeded(struct Client *sptr, struct Channel *chptr)
  __CPROVER_requires(sptr->cli_status != 4)
  __CPROVER_ensures(1)
  JOIN_SHOWN;
void CheckDelayedJoins(struct Channel *chan)
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_any_bits(ghost_channel->mode.mode, 0x400000));
int member_can_send_to_channel(struct Membership *member, int reveal)
  __CPROVER_ensures((__CPROVER_return_value != 0) == verif_old_int(spec_member_speaks(member)))
  __CPROVER_assigns(verif_any_bits(ghost_member->status, 0x1800))
  __CPROVER_assigns(reveal: verif_any_bits(ghost_member->status, 0x40000), verif_any_bits(ghost_channel->mode.mode, 0x400000));
int client_can_send_to_channel(struct Client *cptr, struct Channel *chptr, int reveal)
  __CPROVER_requires(cptr->cli_status != 4)
  __CPROVER_ensures((__CPROVER_return_value != 0) == verif_old_int(spec_speaks(chptr, cptr)))
  __CPROVER_assigns(verif_any_bits(ghost_member->status, 0x1800))
  __CPROVER_assigns(reveal: verif_any_bits(ghost_member->status, 0x40000), verif_any_bits(ghost_channel->mode.mode, 0x400000));

struct Membership *find_channel_member(struct Client *cptr, struct Channel *chptr)
  __CPROVER_ensures(__CPROVER_return_value == spec_member(chptr, cptr))
  __CPROVER_assigns();
static int spec_opped(struct Membership *m) { return m && !(m->status & 0x10) && (m->status & 0x1); }
int is_chan_op(struct Client *cptr, struct Channel *chptr)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (spec_opped(spec_link(chptr, cptr)) != 0))
  __CPROVER_assigns();
static int rec_invited(struct SLink *lp, const void *ch)
{
  if (!lp) return 0;
  if (lp->value.chptr == ch) return 1;
  return rec_invited(lp->next, ch);
}
int IsInvited(struct Client *cptr, const void *chptr)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (rec_invited(cptr->cli_user->invited, chptr) != 0))
  __CPROVER_assigns();
void verif_inv_is_invited(struct SLink *lp, struct Client *cptr, const void *chptr)
  __CPROVER_ensures(rec_invited(lp, chptr) == rec_invited(cptr->cli_user->invited, chptr));
#include "ircd/channel.c"
