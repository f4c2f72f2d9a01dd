/* C31: who gets what is sent to a channel, to common channels, to servers (send.c).
 * One connection, ghost_c, is watched; it stands for every connection there is. */
#include "config.h"
#include "verif.h"
#include "channel.h"
#include "client.h"
#include "ircd.h"
#include "ircd_features.h"
#include "ircd_snprintf.h"
#include "list.h"
#include "match.h"
#include "msgq.h"
#include "msg.h"
#include "s_bsd.h"
#include "s_user.h"
#include "send.h"
#include "struct.h"
#include "spec_client.h"
static int sentalong_marker;
int uf_feature(int f);
int feature_bool(enum Feature feat)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (uf_feature(feat) != 0))
  __CPROVER_assigns();
struct Connection *ghost_c;
int ghost_fd, ghost_sent;
struct MsgBuf *ghost_user_mb, *ghost_serv_mb;
struct Client *ghost_from;
const char *ghost_cmd, *ghost_tok, *ghost_pattern;
int ghost_servlist, ghost_notice, ghost_wall;
#define FRESH (ghost_sent == 0 && ghost_user_mb != ghost_serv_mb && from == ghost_from && pattern == ghost_pattern)
#define FD(c) ((c)->con_socket.s_fd)
#define USERFORM(p) ((p)[0] == '%' && (p)[1] == ':' && (p)[2] == '#' && (p)[3] == 'C' && (p)[4] == ' ')
#define SPECIAL(p) ((p)[0] == '%' && (p)[1] == ':' && (p)[2] == '#' && (p)[3] == 'C' && (p)[4] == ' ' && (p)[5] == '%' && (p)[6] == 's' && (p)[7] == ' ' && (p)[8] == '@' && (p)[9] == '%' && (p)[10] == 'v' && !(p)[11])
#define NOTICE_(p) ((p)[0] == 'N' && (p)[1] == 'O' && (p)[2] == 'T' && (p)[3] == 'I' && (p)[4] == 'C' && (p)[5] == 'E' && !(p)[6])
#define THEWORDS(k) (((struct VarData *)verif_va_ptr(k))->vd_format == ghost_pattern)
/* what is sent names the source, the command and the given words */
struct MsgBuf *msgq_make(struct Client *dest, const char *format, ...)
  __CPROVER_requires((dest == 0 || dest == &me) && verif_va_ptr(0) == (void *)ghost_from)
  __CPROVER_requires(ghost_wall || THEWORDS(2))
  __CPROVER_requires(!ghost_wall || THEWORDS(dest ? 2 : 2))
  __CPROVER_requires(dest == 0 || verif_va_ptr(1) == (void *)ghost_tok || ghost_wall)
  __CPROVER_requires(dest != 0 || USERFORM(format))
  __CPROVER_requires(dest != 0 || ghost_wall || (ghost_notice ? SPECIAL(format) && NOTICE_((const char *)verif_va_ptr(1)) : verif_va_ptr(1) == (void *)ghost_cmd && format[8] != '@'))
  __CPROVER_ensures(__CPROVER_return_value == (dest ? ghost_serv_mb : ghost_user_mb))
  __CPROVER_assigns();
void send_buffer(struct Client *to, struct Client *from, struct MsgBuf *buf, int prio, const struct MsgTagCtx *ctx, struct TagSendCache *cache)
  __CPROVER_requires(buf == ghost_user_mb ? spec_local(to) && from == ghost_from : buf == ghost_serv_mb && (ghost_servlist || !spec_local(to)) && !from)
  __CPROVER_ensures(ghost_sent == __CPROVER_old(ghost_sent) + (to->cli_connect == ghost_c))
  __CPROVER_assigns(ghost_sent);

#define MARKED (ghost_c->con_sentalong == sentalong_marker)
#define NOT_AHEAD ((unsigned)ghost_c->con_sentalong <= (unsigned)sentalong_marker)
#define LISTED (0 <= ghost_fd && ghost_fd <= HighestFd && HighestFd < MAXCONNECTIONS && LocalClientArray[ghost_fd] != 0 && LocalClientArray[ghost_fd]->cli_connect == ghost_c && ghost_c->con_client == LocalClientArray[ghost_fd])
void verif_inv_bump(int ii, struct Client *one)
  __CPROVER_ensures(ii >= 0 && (ii > ghost_fd ? ghost_c->con_sentalong == 0 : 1) && sentalong_marker == 0);
static void bump_sentalong(struct Client *one)
  __CPROVER_requires(LISTED && NOT_AHEAD)
  __CPROVER_ensures(MARKED == (one && one->cli_connect == ghost_c) && NOT_AHEAD && sentalong_marker != 0)
  __CPROVER_assigns(sentalong_marker, verif_any_field(ghost_c->con_sentalong));

static int spec_takes(struct Membership *m, struct Connection *c, unsigned skip)
{
  if (m->status & 0x0010) return 0;                                                /* kicked */
  if ((skip & 1) && SPEC_FLAG(m->user, FLAG_DEAF)) return 0;
  if ((skip & 4) && !(m->status & 0x0001)) return 0;
  if ((skip & 8) && !(m->status & 0x0003)) return 0;
  if ((skip & 2) && (SPEC_FLAG(m->user->cli_connect->con_client, FLAG_BURST) || SPEC_FLAG(m->user->cli_connect->con_client, FLAG_BURST_ACK))) return 0;
  return m->user->cli_connect == c && FD(c) >= 0;
}
static int rec_takes(struct Membership *m, struct Connection *c, unsigned skip)
{
  if (!m) return 0;
  if (spec_takes(m, c, skip)) return 1;
  return rec_takes(m->next_member, c, skip);
}
#define CON(x) ((x) ? (x)->cli_connect : (struct Connection *)0)
#define PROGRESS(out, all, rest) ((out) ? ghost_sent == 0 && MARKED : (ghost_sent == 0 || ghost_sent == 1) && MARKED == ghost_sent && ((all) != 0) == (ghost_sent || (rest)))
void verif_inv_butone(struct Membership *member, struct Channel *to, struct Client *one, unsigned skip)
  __CPROVER_ensures(NOT_AHEAD && PROGRESS(CON(one) == ghost_c, rec_takes(to->members, ghost_c, skip), rec_takes(member, ghost_c, skip)));
void sendcmdto_channel_butone(struct Client *from, const char *cmd, const char *tok, struct Channel *to, struct Client *one, unsigned int skip, const char *pattern, ...)
  __CPROVER_requires(ghost_c && LISTED && NOT_AHEAD && FRESH && cmd == ghost_cmd && tok == ghost_tok && !ghost_servlist && !ghost_wall && ghost_notice == ((skip & 12) != 0))
  __CPROVER_ensures(ghost_sent == verif_old_int(CON(one) != ghost_c && rec_takes(to->members, ghost_c, skip)))
  __CPROVER_ensures(NOT_AHEAD)
  __CPROVER_assigns(ghost_sent, sentalong_marker, verif_any_field(ghost_c->con_sentalong));

/* the servers behind which someone on the channel is */
static int rec_behind(struct Membership *m, struct Connection *c, unsigned skip)
{
  if (!m) return 0;
  if (!spec_local(m->user) && spec_takes(m, c, skip & ~3u)) return 1;
  return rec_behind(m->next_member, c, skip);
}
void verif_inv_servers(struct Membership *member, struct Channel *to, struct Client *from, struct Client *one, unsigned skip)
  __CPROVER_ensures(NOT_AHEAD && PROGRESS(CON(one) == ghost_c || CON(from) == ghost_c, rec_behind(to->members, ghost_c, skip), rec_behind(member, ghost_c, skip)));
void sendcmdto_channel_servers_butone(struct Client *from, const char *cmd, const char *tok, struct Channel *to, struct Client *one, unsigned int skip, const char *pattern, ...)
  __CPROVER_requires(ghost_c && LISTED && NOT_AHEAD && FRESH && tok == ghost_tok && !ghost_servlist && !ghost_wall && from)
  __CPROVER_ensures(ghost_sent == verif_old_int(CON(one) != ghost_c && CON(from) != ghost_c && rec_behind(to->members, ghost_c, skip)))
  __CPROVER_ensures(NOT_AHEAD)
  __CPROVER_assigns(ghost_sent, sentalong_marker, verif_any_field(ghost_c->con_sentalong));

/* the local members */
static int spec_caps(const struct Connection *c, unsigned short require, unsigned short forbid)
{
  return (!require || (c->con_active & require)) && !(c->con_active & forbid);
}
static int rec_locals(struct Membership *m, struct Connection *c, struct Client *one, unsigned skip, unsigned short require, unsigned short forbid)
{
  int me_ = m && spec_local(m->user) && m->user->cli_connect == c && m->user != one && !(m->status & 0x0010)
    && !((skip & 1) && SPEC_FLAG(m->user, FLAG_DEAF)) && !((skip & 4) && !(m->status & 0x0001)) && !((skip & 8) && !(m->status & 0x0003)) && spec_caps(c, require, forbid);
  if (!m) return 0;
  return me_ + rec_locals(m->next_member, c, one, skip, require, forbid);
}
void verif_inv_locals(struct Membership *member, struct Channel *to, struct Client *one, unsigned skip, unsigned short require, unsigned short forbid)
  __CPROVER_ensures(rec_locals(to->members, ghost_c, one, skip, require, forbid) == ghost_sent + rec_locals(member, ghost_c, one, skip, require, forbid));
void sendcmdto_channel_butserv_butone(struct Client *from, const char *cmd, const char *tok, struct Channel *to, struct Client *one, unsigned int skip, const char *pattern, ...)
  __CPROVER_requires(FRESH && cmd == ghost_cmd && !ghost_servlist && !ghost_wall && !ghost_notice)
  __CPROVER_ensures(ghost_sent == verif_old_int(rec_locals(to->members, ghost_c, one, skip, 0, 0)))
  __CPROVER_assigns(ghost_sent);
void sendcmdto_capflag_channel_butserv_butone(struct Client *from, const char *cmd, const char *tok, struct Channel *to, struct Client *one, unsigned int skip, capset_t require, capset_t forbid, const char *pattern, ...)
  __CPROVER_requires(FRESH && cmd == ghost_cmd && !ghost_servlist && !ghost_wall && !ghost_notice)
  __CPROVER_ensures(ghost_sent == verif_old_int(rec_locals(to->members, ghost_c, one, skip, require, forbid)))
  __CPROVER_assigns(ghost_sent);

/* those who share a channel with someone (on which he is neither kicked nor hidden) */
static int rec_sees(struct Membership *m, struct Connection *c, struct Client *one, unsigned short require, unsigned short forbid)
{
  if (!m) return 0;
  if (spec_local(m->user) && m->user->cli_connect == c && FD(c) >= 0 && m->user != one && spec_caps(c, require, forbid)) return 1;
  return rec_sees(m->next_member, c, one, require, forbid);
}
static int rec_common(struct Membership *ch, struct Connection *c, struct Client *one, unsigned short require, unsigned short forbid)
{
  if (!ch) return 0;
  if (!(ch->status & 0x0010) && !(ch->status & 0x40000) && rec_sees(ch->channel->members, c, one, require, forbid)) return 1;
  return rec_common(ch->next_channel, c, one, require, forbid);
}
void verif_inv_common(struct Membership *chan, struct Client *from, struct Client *one, unsigned short require, unsigned short forbid)
  __CPROVER_ensures(NOT_AHEAD && PROGRESS(from->cli_connect == ghost_c, rec_common(from->cli_user->channel, ghost_c, one, require, forbid), rec_common(chan, ghost_c, one, require, forbid)));
void verif_inv_sees(struct Membership *member, struct Membership *chan, struct Client *from, struct Client *one, unsigned short require, unsigned short forbid)
  __CPROVER_ensures(NOT_AHEAD && PROGRESS(from->cli_connect == ghost_c, rec_common(from->cli_user->channel, ghost_c, one, require, forbid),
    rec_sees(member, ghost_c, one, require, forbid) || rec_common(chan->next_channel, ghost_c, one, require, forbid)));
#define COMMON(req, forb) \
  __CPROVER_requires(ghost_c && LISTED && NOT_AHEAD && FRESH && cmd == ghost_cmd && !ghost_servlist && !ghost_wall && !ghost_notice && from) \
  __CPROVER_ensures(ghost_sent == verif_old_int(from->cli_connect == ghost_c ? spec_local(from) && from != one && spec_caps(ghost_c, req, forb) : rec_common(from->cli_user->channel, ghost_c, one, req, forb) != 0)) \
  __CPROVER_ensures(NOT_AHEAD) \
  __CPROVER_assigns(ghost_sent, sentalong_marker, verif_any_field(ghost_c->con_sentalong))
void sendcmdto_common_channels_butone(struct Client *from, const char *cmd, const char *tok, struct Client *one, const char *pattern, ...)
  COMMON(0, 0);
void sendcmdto_capflag_common_channels_butone(struct Client *from, const char *cmd, const char *tok, struct Client *one, capset_t require, capset_t forbid, const char *pattern, ...)
  COMMON(require, forbid);

/* the directly linked servers */
static int rec_links(struct DLink *lp, struct Connection *c, struct Client *one, int require, int forbid)
{
  int it = lp && lp->value.cptr->cli_connect == c && !(one && lp->value.cptr == one->cli_connect->con_client)
    && (require >= FLAG_LAST_FLAG || SPEC_FLAG(lp->value.cptr, require)) && (forbid >= FLAG_LAST_FLAG || !SPEC_FLAG(lp->value.cptr, forbid));
  if (!lp) return 0;
  return it + rec_links(lp->next, c, one, require, forbid);
}
#define LINKS(lp, one, r, f) (rec_links(me.cli_serv->down, ghost_c, one, r, f) == ghost_sent + rec_links(lp, ghost_c, one, r, f))
void verif_inv_links(struct DLink *lp, struct Client *one)
  __CPROVER_ensures(LINKS(lp, one, FLAG_LAST_FLAG, FLAG_LAST_FLAG));
void verif_inv_flinks(struct DLink *lp, struct Client *one, int require, int forbid)
  __CPROVER_ensures(LINKS(lp, one, require, forbid));
#define TO_SERVERS(r, f) \
  __CPROVER_requires(FRESH && tok == ghost_tok && ghost_servlist && !ghost_wall) \
  __CPROVER_ensures(ghost_sent == verif_old_int(rec_links(me.cli_serv->down, ghost_c, one, r, f))) \
  __CPROVER_assigns(ghost_sent)
void sendcmdto_serv_butone(struct Client *from, const char *cmd, const char *tok, struct Client *one, const char *pattern, ...)
  TO_SERVERS(FLAG_LAST_FLAG, FLAG_LAST_FLAG);
void sendcmdto_flag_serv_butone(struct Client *from, const char *cmd, const char *tok, struct Client *one, int require, int forbid, const char *pattern, ...)
  __CPROVER_requires(0 <= require && 0 <= forbid)
  TO_SERVERS(require, forbid);

/* every user of the network whose host or server matches */
int uf_match_it(const struct Client *one, const char *mask, int what);
static int match_it(struct Client *from, struct Client *one, const char *mask, int what)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (uf_match_it(one, mask, what) != 0))
  __CPROVER_assigns();
static int rec_matched(struct Client *u, struct Connection *c, const char *mask, int what)
{
  if (!u) return 0;
  if ((u->cli_status & 0xc0) && !spec_is_server(u) && u->cli_connect == c && FD(c) >= 0 && uf_match_it(u, mask, what)) return 1;
  return rec_matched(u->cli_next, c, mask, what);
}
void verif_inv_matched(struct Client *cptr, struct Client *from, const char *to, struct Client *one, unsigned who)
  __CPROVER_ensures(NOT_AHEAD && PROGRESS(CON(one) == ghost_c, rec_matched(GlobalClientList, ghost_c, to, who), rec_matched(cptr, ghost_c, to, who)));
void sendcmdto_match_butone(struct Client *from, const char *cmd, const char *tok, const char *to, struct Client *one, unsigned int who, const char *pattern, ...)
  __CPROVER_requires(ghost_c && LISTED && NOT_AHEAD && FRESH && cmd == ghost_cmd && tok == ghost_tok && !ghost_servlist && !ghost_wall && !ghost_notice)
  __CPROVER_ensures(ghost_sent == verif_old_int(CON(one) != ghost_c && rec_matched(GlobalClientList, ghost_c, to, who)))
  __CPROVER_ensures(NOT_AHEAD)
  __CPROVER_assigns(ghost_sent, sentalong_marker, verif_any_field(ghost_c->con_sentalong));
#include "ircd/send.c"
