/* C31: what is sent to one client, and WALLOPS, DESYNCH and WALLUSERS (send.c) */
#include "config.h"
#include "verif.h"
#include "channel.h"
#include "client.h"
#include "ircd.h"
#include "ircd_features.h"
#include "ircd_snprintf.h"
#include "list.h"
#include "msgq.h"
#include "msg.h"
#include "s_bsd.h"
#include "send.h"
#include "struct.h"
#include "spec_client.h"
int uf_feature(int f);
int feature_bool(enum Feature feat)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (uf_feature(feat) != 0))
  __CPROVER_assigns();
struct Connection *ghost_c;
int ghost_sent, ghost_made, ghost_wall, ghost_type, ghost_prio;
struct MsgBuf *ghost_user_mb, *ghost_serv_mb;
struct Client *ghost_from, *ghost_dest;
const char *ghost_cmd, *ghost_tok, *ghost_pattern;
#define SOURCED(p) ((p)[0] == '%' && (p)[1] == ':' && (p)[2] == '#' && (p)[3] == 'C' && (p)[4] == ' ')
#define WALLOPS_(p) (SOURCED(p) && (p)[5] == 'W' && (p)[6] == 'A' && (p)[7] == 'L' && (p)[8] == 'L' && (p)[9] == 'O' && (p)[10] == 'P' && (p)[11] == 'S' && (p)[12] == ' ' && (p)[13] == ':' && (p)[14] == '%' && (p)[15] == 's' && (p)[16] == '%' && (p)[17] == 'v')
#define THEWORDS(k) (((struct VarData *)verif_va_ptr(k))->vd_format == ghost_pattern)
#define TOKEN(p) ((p)[0] == 'W' && (p)[1] == (ghost_type == WALL_WALLOPS ? 'A' : ghost_type == WALL_WALLUSERS ? 'U' : 0) && ((p)[1] == 0 || (p)[2] == 0))
#define DTOKEN(p) ((p)[0] == 'D' && (p)[1] == 'S' && (p)[2] == 0)
struct MsgBuf *msgq_make(struct Client *dest, const char *format, ...)
  __CPROVER_requires(verif_va_ptr(0) == (void *)ghost_from && THEWORDS(2))
  __CPROVER_requires(ghost_wall || (dest == ghost_dest && SOURCED(format) && format[8] != '@' && verif_va_ptr(1) == (void *)(spec_is_server(dest) || spec_is_me(dest) ? ghost_tok : ghost_cmd)))
  __CPROVER_requires(!ghost_wall || dest != 0 || WALLOPS_(format))
  __CPROVER_requires(!ghost_wall || dest == 0 || dest == &me)
  __CPROVER_requires(!ghost_wall || dest == 0 || (ghost_type == WALL_DESYNCH ? DTOKEN((const char *)verif_va_ptr(1)) : TOKEN((const char *)verif_va_ptr(1))))
  __CPROVER_ensures(__CPROVER_return_value == (ghost_wall && dest ? ghost_serv_mb : ghost_user_mb))
  __CPROVER_assigns();
void send_buffer(struct Client *to, struct Client *from, struct MsgBuf *buf, int prio, const struct MsgTagCtx *ctx, struct TagSendCache *cache)
  __CPROVER_requires(ghost_wall ? (buf == ghost_user_mb ? from == ghost_from : buf == ghost_serv_mb && !from) : buf == ghost_user_mb && from == ghost_from && (prio != 0) == (ghost_prio != 0))
  __CPROVER_ensures(ghost_sent == __CPROVER_old(ghost_sent) + (to->cli_connect == ghost_c))
  __CPROVER_assigns(ghost_sent);
#define ONE(p) \
  __CPROVER_requires(!ghost_wall && ghost_prio == p && ghost_sent == 0 && from == ghost_from && pattern == ghost_pattern && cmd == ghost_cmd && tok == ghost_tok && ghost_dest == to->cli_connect->con_client && ghost_dest->cli_connect == to->cli_connect) \
  __CPROVER_ensures(ghost_sent == verif_old_int(to->cli_connect == ghost_c)) \
  __CPROVER_assigns(ghost_sent)
void sendcmdto_one(struct Client *from, const char *cmd, const char *tok, struct Client *to, const char *pattern, ...)
  ONE(0);
void sendcmdto_prio_one(struct Client *from, const char *cmd, const char *tok, struct Client *to, const char *pattern, ...)
  ONE(1);

static int rec_links(struct DLink *lp, struct Connection *c, struct Client *one)
{
  int it = lp && lp->value.cptr->cli_connect == c && !(one && lp->value.cptr == one->cli_connect->con_client);
  if (!lp) return 0;
  return it + rec_links(lp->next, c, one);
}
/* DESYNCH goes to users with +g, WALLUSERS and WALLOPS to users with +w; with HIS_WALLOPS on, WALLOPS to operators only */
static int rec_wall(int i, struct Connection *c, int type, int his)
{
  struct Client *u = i <= HighestFd ? LocalClientArray[i] : (struct Client *)0;
  int it = u && u->cli_connect == c && c->con_client->cli_connect->con_socket.s_fd >= 0
    && (type == WALL_DESYNCH ? SPEC_FLAG(u, FLAG_DEBUG) : SPEC_FLAG(u, FLAG_WALLOP) && (type == WALL_WALLUSERS || !his || SPEC_FLAG(u, FLAG_OPER) || spec_locop(u)));
  if (i > HighestFd) return 0;
  return it + rec_wall(i + 1, c, type, his);
}
#define HIS uf_feature(FEAT_HIS_WALLOPS)
void verif_inv_wall(int i, int type, int his_wallops)
  __CPROVER_ensures(0 <= i && (his_wallops != 0) == (HIS != 0) && rec_wall(0, ghost_c, type, HIS) == ghost_sent + rec_wall(i, ghost_c, type, HIS));
void verif_inv_wlinks(struct DLink *lp, struct Client *one, int type, int his_wallops)
  __CPROVER_ensures(rec_wall(0, ghost_c, type, HIS) + rec_links(me.cli_serv->down, ghost_c, one) == ghost_sent + rec_links(lp, ghost_c, one));
void sendwallto_group_butone(struct Client *from, int type, struct Client *one, const char *pattern, ...)
  __CPROVER_requires(ghost_wall && ghost_type == type && ghost_sent == 0 && from == ghost_from && pattern == ghost_pattern && ghost_user_mb != ghost_serv_mb && HighestFd < MAXCONNECTIONS && HighestFd >= 0)
  __CPROVER_requires(type == WALL_DESYNCH || type == WALL_WALLOPS || type == WALL_WALLUSERS)
  __CPROVER_ensures(ghost_sent == verif_old_int(rec_wall(0, ghost_c, type, HIS) + rec_links(me.cli_serv->down, ghost_c, one)))
  __CPROVER_assigns(ghost_sent);
#include "ircd/send.c"
