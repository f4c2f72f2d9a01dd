/* C08/C07: PRIVMSG, NOTICE and TAGMSG: every target named, once, the right way; with -DPRIVMSG, -DNOTICE or -DTAGMSG */
#include "config.h"
#include "verif.h"
#include "capab.h"
#include "channel.h"
#include "client.h"
#include "ircd.h"
#include "ircd_relay.h"
#include "handlers.h"
#include "s_user.h"
#include "struct.h"
#include "spec_client.h"
#include "ircd/chattr.tab.c"
char *uf_strchr(const char *s, int c);
char *strchr(const char *s, int c)
  __CPROVER_ensures(__CPROVER_return_value == uf_strchr(s, c))
  __CPROVER_assigns();
int feature_bool(enum Feature feat) __CPROVER_ensures(1) __CPROVER_assigns();
/* the names given: any one of them (ghost_name, the ghost_k-th) stands for all */
int ghost_k, ghost_count, ghost_n, ghost_kind; char *ghost_name; const char *ghost_server; struct Client *ghost_s; const char *ghost_text;
int unique_name_vector(char *names, char token, char **vector, int size)
  __CPROVER_requires(token == ',' && size == MAXTARGETS)
  __CPROVER_ensures(__CPROVER_return_value == ghost_count && 0 <= ghost_count && ghost_count <= size && (ghost_k >= ghost_count || vector[ghost_k] == ghost_name))
  __CPROVER_assigns(__CPROVER_object_upto(vector, sizeof(char *) * MAXTARGETS));
#define TAKE(kind, nm) __CPROVER_ensures(ghost_n == __CPROVER_old(ghost_n) + 1 && ghost_kind == (__CPROVER_old(ghost_n) == ghost_k && (nm) == ghost_name ? (kind) : __CPROVER_old(ghost_kind))) __CPROVER_assigns(ghost_n, ghost_kind)
#ifdef TAGMSG
#define T
#define ARGS(nm) __CPROVER_requires(sptr == ghost_s)
#define F(x) x##_tagmsg
#else
#define T , const char *text
#define ARGS(nm) __CPROVER_requires(sptr == ghost_s && text == ghost_text)
#ifdef NOTICE
#define F(x) x##_notice
#else
#define F(x) x##_message
#endif
#endif
#define K_CHAN 1
#define K_MASK 2
#define K_SERV 3
#define K_USER 4
#define K_REMOTE 8
void F(relay_channel)(struct Client *sptr, const char *name T) ARGS(name) TAKE(K_CHAN, name);
void F(relay_masked)(struct Client *sptr, const char *name T) ARGS(name) TAKE(K_MASK, name);
void F(relay_private)(struct Client *sptr, const char *name T) ARGS(name) TAKE(K_USER, name);
void F(relay_directed)(struct Client *sptr, char *name, char *server T) ARGS(name) __CPROVER_requires(server == uf_strchr(name, '@') && server) TAKE(K_SERV, name);
void F(server_relay_channel)(struct Client *sptr, const char *name T) ARGS(name) TAKE(K_CHAN | K_REMOTE, name);
void F(server_relay_masked)(struct Client *sptr, const char *name T) ARGS(name) TAKE(K_MASK | K_REMOTE, name);
void F(server_relay_private)(struct Client *sptr, const char *name T) ARGS(name) TAKE(K_USER | K_REMOTE, name);
static int spec_kind(const char *nm, int mask, int remote)
{
  if (*nm == '#' || *nm == '&') return K_CHAN | remote;
  if (*nm == '$' && mask) return K_MASK | remote;
  if (uf_strchr(nm, '@')) return K_SERV;
  return K_USER | remote;
}
int ghost_opers;       /* whether the handler is the one of the operators */
void verif_inv_targets(int i, int count, char **vector)
  __CPROVER_ensures(0 <= i && i <= count && count == ghost_count && ghost_n == i && (ghost_k >= count || vector[ghost_k] == ghost_name) && ghost_kind == (i > ghost_k && ghost_k < count ? spec_kind(ghost_name, ghost_opers, 0) : 0));
int ghost_wall;
int m_wallchops(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(sptr == ghost_s && (parv[1][0] == '#' || parv[1][0] == '&'))
  __CPROVER_ensures(ghost_wall == 1)
  __CPROVER_assigns(ghost_wall);
#define COMMON (ghost_n == 0 && ghost_kind == 0 && ghost_wall == 0 && ghost_s == sptr && 0 <= ghost_k && ghost_k < MAXTARGETS && ghost_name && 1 <= parc && parc < 16)
#ifdef TAGMSG
#define SAYS(p, v) ((p) >= 2 && (v)[1] && *(v)[1] && (sptr->cli_connect->con_active & CAP_MESSAGE_TAGS))
#define ME(x) x##_tagmsg
#define OWN_WALL 0
#else
#define SAYS(p, v) ((p) >= 3 && (v)[1] && *(v)[1] && (v)[(p) - 1] && *(v)[(p) - 1])
#ifdef NOTICE
#define ME(x) x##_notice
#define OWN_WALL (parv[1][0] == '@' && (parv[1][1] == '#' || parv[1][1] == '&'))
#else
#define ME(x) x##_privmsg
#define OWN_WALL 0
#endif
#endif
#define HANDLER(fn, opers) int fn(struct Client *cptr, struct Client *sptr, int parc, char *parv[]) \
  __CPROVER_requires(COMMON && ghost_opers == opers && cptr == sptr && spec_my_user(sptr) && (parc < 3 || ghost_text == parv[parc - 1])) \
  __CPROVER_ensures(ghost_n == (verif_old_int(SAYS(parc, parv)) && !verif_old_int(SAYS(parc, parv) && OWN_WALL) ? ghost_count : 0)) \
  __CPROVER_ensures(ghost_wall == verif_old_int(SAYS(parc, parv) && OWN_WALL)) \
  __CPROVER_ensures(ghost_kind == (ghost_n && ghost_k < ghost_count ? spec_kind(ghost_name, opers, 0) : 0)) \
  __CPROVER_assigns(verif_everything(), ghost_n, ghost_kind, ghost_wall)
int ME(m)(struct Client *cptr, struct Client *sptr, int parc, char *parv[]);
HANDLER(ME(m), 0);
HANDLER(ME(mo), 1);
int ME(ms)(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(COMMON && ghost_k == 0 && (parc < 3 || ghost_text == parv[parc - 1]) && (parc < 2 || (parv[1] && ghost_name == parv[1])))
#ifdef TAGMSG
  __CPROVER_ensures(ghost_n == (parc >= 2))
#else
  __CPROVER_ensures(ghost_n == (parc >= 3))
#endif
  __CPROVER_ensures(!ghost_n || ghost_kind == spec_kind(ghost_name, spec_globop(sptr), K_REMOTE))
  __CPROVER_assigns(verif_everything(), ghost_n, ghost_kind, ghost_wall);
#ifdef TAGMSG
#include "ircd/m_tagmsg.c"
#elif defined NOTICE
#include "ircd/m_notice.c"
#else
#include "ircd/m_privmsg.c"
#endif
