/* C09: what joining a channel does (channel.c) */
#include "config.h"
#include "verif.h"
#include "channel.h"
#include "client.h"
#include "ircd.h"
#include "ircd_defs.h"
#include "list.h"
#include "res.h"
#include "send.h"
#include "struct.h"
#include "spec_chan.h"
struct Client *ghost_c; struct Channel *ghost_ch; struct Membership *ghost_m;
/* the JOIN, CREATE and channel announcements made */
int ghost_add_n, ghost_add_level, ghost_tell_n, ghost_serv_n;
struct Client *ghost_add_who, *ghost_tell_who, *ghost_serv_from, *ghost_serv_but;
struct Channel *ghost_add_ch, *ghost_tell_ch;
unsigned int ghost_add_flags; int ghost_flushed;
char ghost_serv_tok0;
const void *ghost_serv_va0;
void sendcmdto_serv_butone(struct Client *from, const char *cmd, const char *tok, struct Client *one, const char *pattern, ...)
  __CPROVER_ensures(ghost_serv_n == __CPROVER_old(ghost_serv_n) + 1 && ghost_serv_from == from && ghost_serv_but == one)
  __CPROVER_ensures(ghost_serv_tok0 == tok[0] && ghost_serv_va0 == verif_va_ptr(0))
  __CPROVER_assigns(ghost_serv_n, ghost_serv_from, ghost_serv_but, ghost_serv_tok0, ghost_serv_va0);
void sendjointo_channel_butserv(struct Client *from, struct Channel *chptr, struct Client *one, unsigned int skip)
  __CPROVER_ensures(ghost_tell_n == __CPROVER_old(ghost_tell_n) + 1 && ghost_tell_who == from && ghost_tell_ch == chptr)
  __CPROVER_assigns(ghost_tell_n, ghost_tell_who, ghost_tell_ch);
static void remove_destruct_event(struct Channel *chptr)
  __CPROVER_ensures(chptr->destruct_event == 0)
  __CPROVER_assigns(chptr->destruct_event);
static void CheckChannelTLS(struct Channel *chan)
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_any_bits(chan->mode.mode, 0x6000000));
#ifdef ADD
static struct Membership *membershipFreeList;
void add_user_to_channel(struct Channel *chptr, struct Client *who, unsigned int flags, int oplevel)
  /* what is on the free list is in no other list */
  __CPROVER_requires(chptr && who && who->cli_user && (!membershipFreeList || (membershipFreeList != chptr->members && membershipFreeList != who->cli_user->channel)))
  __CPROVER_ensures(chptr->members && chptr->members->user == who && chptr->members->channel == chptr)
  __CPROVER_ensures(chptr->members->status == flags && chptr->members->oplevel == (unsigned short)oplevel)
  __CPROVER_ensures(chptr->members->next_member == __CPROVER_old(chptr->members) && !chptr->members->prev_member)
  __CPROVER_ensures(!chptr->members->next_member || chptr->members->next_member->prev_member == chptr->members)
  __CPROVER_ensures(who->cli_user->channel == chptr->members && chptr->members->next_channel == __CPROVER_old(who->cli_user->channel) && !chptr->members->prev_channel)
  __CPROVER_ensures(!chptr->members->next_channel || chptr->members->next_channel->prev_channel == chptr->members)
  __CPROVER_ensures(chptr->users == __CPROVER_old(chptr->users) + 1 && who->cli_user->joined == __CPROVER_old(who->cli_user->joined) + 1 && !chptr->destruct_event)
  __CPROVER_assigns(verif_everything());
#else
int joinbuf_flush(struct JoinBuf *jbuf)
  __CPROVER_ensures(1)
  __CPROVER_assigns(jbuf->jb_count, jbuf->jb_strlen, ghost_flushed);
void add_user_to_channel(struct Channel *chptr, struct Client *who, unsigned int flags, int oplevel)
  __CPROVER_ensures(ghost_add_n == __CPROVER_old(ghost_add_n) + 1 && ghost_add_who == who && ghost_add_ch == chptr && ghost_add_flags == flags && ghost_add_level == oplevel)
  __CPROVER_assigns(ghost_add_n, ghost_add_who, ghost_add_ch, ghost_add_flags, ghost_add_level)
  __CPROVER_assigns(verif_any_bits(ghost_ch->mode.mode, 0x6000000));
/* +D: who gets neither ops nor voice joins unseen */
static int spec_unseen(struct Channel *ch, unsigned flags) { return (ch->mode.mode & 0x1000) && !(flags & 3); }
void joinbuf_join(struct JoinBuf *jbuf, struct Channel *chan, unsigned int flags)
  __CPROVER_requires(jbuf->jb_type <= 1 && ghost_add_n == 0 && ghost_tell_n == 0 && ghost_serv_n == 0 && spec_is_user(jbuf->jb_source))
  __CPROVER_ensures(!chan || (ghost_add_n == 1 && ghost_add_who == verif_old_ptr(jbuf->jb_source) && ghost_add_ch == chan))
  __CPROVER_ensures(!chan || ghost_add_flags == (unsigned)verif_old_int(flags | (spec_unseen(chan, flags) ? 0x40000 : 0)))
  __CPROVER_ensures(!chan || ghost_add_level == verif_old_int(!chan->mode.apass[0] ? 999 : (flags & 0x10000) ? 0 : 1))
  __CPROVER_ensures(!chan || ghost_tell_n == verif_old_int(!spec_unseen(chan, flags)))
  __CPROVER_ensures(!ghost_tell_n || (ghost_tell_who == verif_old_ptr(jbuf->jb_source) && ghost_tell_ch == chan))
  __CPROVER_ensures(!chan || verif_old_int(jbuf->jb_type != 0) || ghost_serv_n == verif_old_int(chan->chname[0] != '&'))
  __CPROVER_ensures(!chan || !ghost_serv_n || verif_old_int(jbuf->jb_type != 0) || (ghost_serv_from == verif_old_ptr(jbuf->jb_source) && ghost_serv_but == verif_old_ptr(jbuf->jb_connect) && ghost_serv_tok0 == 'J' && ghost_serv_va0 == chan))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_add_n, ghost_add_who, ghost_add_ch, ghost_add_flags, ghost_add_level, ghost_tell_n, ghost_tell_who, ghost_tell_ch, ghost_serv_n, ghost_serv_from, ghost_serv_but, ghost_serv_tok0, ghost_serv_va0, ghost_flushed);
#endif
#include "ircd/channel.c"
