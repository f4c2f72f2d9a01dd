/* C10: finding whom a KICK names, and what becomes of the one kicked (channel.c) */
#include "config.h"
#include "verif.h"
#include "channel.h"
#include "client.h"
#include "hash.h"
#include "ircd.h"
#include "ircd_defs.h"
#include "res.h"
#include "struct.h"
#include "whowas.h"
#include "spec_chan.h"
struct Client *uf_client(const char *name, int mask);
struct Client *uf_history(const char *name);
struct Channel *uf_channel(const char *name);
struct Client *hSeekClient(const char *name, int TMask)
  __CPROVER_ensures(__CPROVER_return_value == uf_client(name, TMask))
  __CPROVER_assigns();
struct Channel *hSeekChannel(const char *name)
  __CPROVER_ensures(__CPROVER_return_value == uf_channel(name))
  __CPROVER_assigns();
struct Client *get_history(const char *nick)
  __CPROVER_ensures(__CPROVER_return_value == uf_history(nick))
  __CPROVER_assigns();
int ghost_gone_n;
struct Client *ghost_gone_who;
struct Channel *ghost_gone_ch;
void remove_user_from_channel(struct Client *cptr, struct Channel *chptr)
  __CPROVER_ensures(ghost_gone_n == __CPROVER_old(ghost_gone_n) + 1 && ghost_gone_who == cptr && ghost_gone_ch == chptr)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_gone_n, ghost_gone_who, ghost_gone_ch);

struct Membership *find_member_link(struct Channel *chptr, const struct Client *cptr)
  __CPROVER_ensures(__CPROVER_return_value == spec_link(chptr, cptr))
  __CPROVER_assigns();
void verif_inv_find_member_link_service(struct Membership *m, struct Channel *chptr, const struct Client *cptr)
  __CPROVER_ensures(rec_by_user(m, cptr) == rec_by_user(chptr->members, cptr));
void verif_inv_find_member_link_user(struct Membership *m, struct Channel *chptr, const struct Client *cptr)
  __CPROVER_ensures(rec_by_chan(m, chptr) == rec_by_chan(cptr->cli_user->channel, chptr));

/* a name that is not empty names a channel; an overlong name of a local user is cut at CHANNELLEN first */
struct Channel *get_channel(struct Client *cptr, char *chname, ChannelGetType flag)
  __CPROVER_requires(flag == CGT_NO_CREATE)
  __CPROVER_ensures(__CPROVER_return_value == verif_old_ptr(chname && *chname ? uf_channel(chname) : (struct Channel *)0))
  __CPROVER_assigns(chname: __CPROVER_object_upto(chname + 200, 1));
static struct Client *spec_chased(const char *name)
{
  struct Client *c = name && *name ? uf_client(name, ~0) : (struct Client *)0;
  return c ? c : uf_history(name);
}
struct Client *find_chasing(struct Client *sptr, const char *user, int *chasing)
  __CPROVER_ensures(__CPROVER_return_value == spec_chased(user))
  __CPROVER_assigns(chasing: *chasing);

static int rec_zombies(struct Membership *m)
{
  if (!m) return 1;
  if (!(m->status & 0x10)) return 0;
  return rec_zombies(m->next_member);
}
static int channel_all_zombies(struct Channel *chptr)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (rec_zombies(chptr->members) != 0))
  __CPROVER_assigns();
void verif_inv_channel_all_zombies(struct Membership *member, struct Channel *chptr)
  __CPROVER_ensures((rec_zombies(member) != 0) == (rec_zombies(chptr->members) != 0));
/* srv stands on the way from a server up to this one */
static int rec_on_path(struct Client *a, struct Client *srv)
{
  if (a == &me) return 0;
  if (a == srv) return 1;
  return rec_on_path(a->cli_serv->up, srv);
}
static struct Client *spec_server_of(struct Client *s) { return spec_is_server(s) ? s : s->cli_user->server; }
/* the victim forgets the channel at once when it is ours, or when its own server (nearer the kicker) has seen the KICK already */
static int spec_gone_at_once(struct Client *who, struct Client *c, struct Client *s)
{
  return spec_my_user(who) || (who->cli_connect->con_client == c && rec_on_path(spec_server_of(s), who->cli_user->server));
}
void make_zombie(struct Membership *member, struct Client *who, struct Client *cptr, struct Client *sptr, struct Channel *chptr)
  __CPROVER_requires(ghost_gone_n == 0 && spec_is_user(who) && (spec_is_user(sptr) || spec_is_server(sptr)))
  __CPROVER_ensures(ghost_gone_n == 1 ? ghost_gone_who == who && ghost_gone_ch == chptr : (ghost_gone_n == 0 && (member->status & 0x10)))
  __CPROVER_ensures(ghost_gone_n == 1 || !verif_old_int(spec_gone_at_once(who, cptr, sptr)))
  __CPROVER_ensures(ghost_gone_n == 1 || !rec_zombies(chptr->members))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_gone_n, ghost_gone_who, ghost_gone_ch);
void verif_inv_make_zombie(struct Client *acptr, struct Client *sptr, struct Client *who)
  __CPROVER_ensures(rec_on_path(acptr, who->cli_user->server) == rec_on_path(spec_server_of(sptr), who->cli_user->server));
#include "ircd/channel.c"
