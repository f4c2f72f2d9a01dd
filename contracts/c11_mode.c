/* C11: who gets to change a channel's modes (m_mode, ms_mode in m_mode.c) */
#include "config.h"
#include "verif.h"
#include "capab.h"
#include "channel.h"
#include "client.h"
#include "hash.h"
#include "ircd.h"
#include "list.h"
#include "s_user.h"
#include "send.h"
#include "struct.h"
#include "spec_chan.h"
#define SPEC_PRIV(c, p) (((c)->cli_connect->con_privs.bits[(p) / 64] >> ((p) % 64)) & 1ul)
struct Client *ghost_src; struct Channel *ghost_ch; struct Client *ghost_user;
int ghost_parsed, ghost_flushed, ghost_user_done, ghost_can, ghost_member_kind;
struct Membership *ghost_link;
struct Channel *hSeekChannel(const char *name)
  __CPROVER_ensures(__CPROVER_return_value == ghost_ch)
  __CPROVER_assigns();
struct Client *hSeekClient(const char *name, int mask)
  __CPROVER_ensures(__CPROVER_return_value == ghost_user)
  __CPROVER_assigns();
struct Membership *find_member_link(struct Channel *chptr, const struct Client *cptr)
  __CPROVER_ensures(__CPROVER_return_value == spec_link(chptr, cptr))
  __CPROVER_assigns();
/* an opped member */
static int spec_opped(struct Channel *ch, struct Client *c) { struct Membership *m = spec_link(ch, c); return m && (m->status & 1); }
/* a user with the privilege to change the modes of any channel of this server's own */
static int spec_lchan(struct Channel *ch, struct Client *c) { return ch->chname[0] == '&' && spec_my_user(c) && SPEC_PRIV(c, PRIV_MODE_LCHAN); }
static int spec_entitled(struct Channel *ch, struct Client *c)
{
  return spec_is_server(c) || spec_opped(ch, c) || spec_lchan(ch, c);
}
int mode_parse(struct ModeBuf *mbuf, struct Client *cptr, struct Client *sptr, struct Channel *chptr, int parc, char *parv[], unsigned int flags, struct Membership *member)
  __CPROVER_requires(chptr == ghost_ch && sptr == ghost_src && parc >= 1)
  __CPROVER_requires(member == (ghost_can == 2 ? (struct Membership *)0 : ghost_link))
  __CPROVER_requires((flags & 1) ? ghost_can != 0 : ghost_can == 0)                       /* takes effect only, and always, for those entitled */
  __CPROVER_requires((flags & 1) || (flags & 8) || ((flags & 0x30) && !mbuf))            /* else it is refused, or bounced */
  __CPROVER_requires(!(flags & 1) || (mbuf && !(flags & 0x38)))
  __CPROVER_requires(!(flags & 4) || ghost_can != 1)                                       /* nobody here overrides the checks in his own right */
  __CPROVER_ensures(ghost_parsed == __CPROVER_old(ghost_parsed) + 1)
  __CPROVER_assigns(verif_everything());
void channel_modes(struct Client *cptr, char *mbuf, char *pbuf, int buflen, struct Channel *chptr, struct Membership *member)
  __CPROVER_requires(cptr == ghost_src && chptr == ghost_ch && (!member || member == spec_link(chptr, cptr)))
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_text_upto(mbuf, 100), verif_text_upto(pbuf, 300));
int modebuf_flush(struct ModeBuf *mbuf)
  __CPROVER_ensures(ghost_flushed == __CPROVER_old(ghost_flushed) + 1)
  __CPROVER_assigns(verif_everything());
int set_user_mode(struct Client *cptr, struct Client *sptr, int parc, char *parv[], int allow)
  __CPROVER_requires(sptr == ghost_src && ghost_user == sptr)                             /* one's own modes, nobody else's */
  __CPROVER_ensures(ghost_user_done == 1)
  __CPROVER_assigns(verif_everything());
#define START(local) (ghost_src == sptr && ghost_parsed == 0 && ghost_flushed == 0 && ghost_user_done == 0 && (!ghost_ch || (ghost_link == spec_link(ghost_ch, sptr) && ghost_can == spec_standing(ghost_ch, sptr))))
/* 0: none, 1: op of this server, 2: server, 3: by privilege, 4: op elsewhere */
static int spec_standing(struct Channel *ch, struct Client *c)
{
  return spec_is_server(c) ? 2 : spec_opped(ch, c) ? (spec_my_user(c) ? 1 : 4) : spec_lchan(ch, c) ? 3 : 0;
}
int m_mode(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(START(1) && spec_my_user(sptr) && parc >= 1)
  __CPROVER_ensures(ghost_parsed == verif_old_int(parc >= 3 && ghost_ch && parv[1] && (parv[1][0] == '#' || parv[1][0] == '&')))
  __CPROVER_ensures(!ghost_parsed || ghost_can || !ghost_flushed)
  __CPROVER_ensures(!ghost_can || ghost_flushed == ghost_parsed)
  __CPROVER_assigns(verif_everything());
int ms_mode(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(START(0) && !spec_my_user(sptr) && parc >= 1)
  __CPROVER_ensures(ghost_parsed == verif_old_int(parc >= 3 && ghost_ch && parv[1] && parv[1][0] && parv[1][0] != '&'))
  __CPROVER_ensures(ghost_flushed == ghost_parsed)
  __CPROVER_assigns(verif_everything());
#include "ircd/m_mode.c"
