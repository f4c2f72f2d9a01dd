/* C08: vocabulary of private messages, the functions they go through, and the record of what was sent */
#include "config.h"
#include "verif.h"
#include "capab.h"
#include "channel.h"
#include "client.h"
#include "hash.h"
#include "ircd.h"
#include "ircd_relay.h"
#include "ircd_string.h"
#include "list.h"
#include "match.h"
#include "numnicks.h"
#include "res.h"
#include "s_user.h"
#include "send.h"
#include "sline.h"
#include "struct.h"
#include "spec_chan.h"

int ghost_n;                       /* sends so far; the first two are recorded */
struct Client *ghost_from[2], *ghost_to[2];
char ghost_tok0[2], ghost_tok1[2];
const void *ghost_va0[2], *ghost_va1[2];

struct Client *uf_client(const char *name, int mask);
struct Client *uf_numuser(const char *yxx);
struct Channel *uf_channel(const char *name);
int uf_limited(const struct Client *s, const struct Client *d);
int uf_sline(const struct Client *s, const struct Client *d, const char *text, char kind0);
int uf_match(const char *mask, const char *name);
char *uf_strchr(const char *s, int c);

struct Client *hSeekClient(const char *name, int TMask)
  __CPROVER_ensures(__CPROVER_return_value == uf_client(name, TMask))
  __CPROVER_ensures(!__CPROVER_return_value || (__CPROVER_return_value->cli_status & TMask) != 0)
  __CPROVER_assigns();
struct Client *findNUser(const char *yxx)
  __CPROVER_ensures(__CPROVER_return_value == uf_numuser(yxx))
  __CPROVER_assigns();
struct Channel *hSeekChannel(const char *name)
  __CPROVER_ensures(__CPROVER_return_value == uf_channel(name))
  __CPROVER_assigns();
int check_target_limit(struct Client *sptr, struct Client *target, struct Channel *chptr)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (uf_limited(sptr, target) != 0))
  __CPROVER_assigns();
void add_target(struct Client *sptr, void *target)
  __CPROVER_ensures(1)
  __CPROVER_assigns();
int sline_check_privmsg(struct Client *sptr, struct Client *acptr, const char *text, const char *type)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (uf_sline(sptr, acptr, text, type[0]) != 0))
  __CPROVER_assigns();
int match(const char *mask, const char *name)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (uf_match(mask, name) != 0))
  __CPROVER_assigns();
char *strchr(const char *s, int c)
  __CPROVER_ensures(__CPROVER_return_value == uf_strchr(s, c))
  __CPROVER_ensures(!__CPROVER_return_value || *__CPROVER_return_value == (char)c)
  __CPROVER_assigns();
struct Ban *find_ban(struct Client *cptr, struct Ban *banlist)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (uf_banned(cptr, banlist) != 0))
  __CPROVER_assigns();
void sendcmdto_one(struct Client *from, const char *cmd, const char *tok, struct Client *to, const char *pattern, ...)
  __CPROVER_ensures(ghost_n == __CPROVER_old(ghost_n) + 1)
  __CPROVER_ensures(__CPROVER_old(ghost_n) != 0 || (ghost_from[0] == from && ghost_to[0] == to && ghost_tok0[0] == tok[0] && ghost_tok1[0] == tok[1]
                    && ghost_va0[0] == verif_va_ptr(0) && ghost_va1[0] == verif_va_ptr(1)))
  __CPROVER_ensures(__CPROVER_old(ghost_n) == 0 || (ghost_from[0] == __CPROVER_old(ghost_from[0]) && ghost_to[0] == __CPROVER_old(ghost_to[0]) && ghost_tok0[0] == __CPROVER_old(ghost_tok0[0]) && ghost_tok1[0] == __CPROVER_old(ghost_tok1[0])
                    && ghost_va0[0] == __CPROVER_old(ghost_va0[0]) && ghost_va1[0] == __CPROVER_old(ghost_va1[0])))
  __CPROVER_ensures(__CPROVER_old(ghost_n) != 1 || (ghost_from[1] == from && ghost_to[1] == to && ghost_tok0[1] == tok[0] && ghost_tok1[1] == tok[1]))
  __CPROVER_assigns(ghost_n, ghost_from, ghost_to, ghost_tok0, ghost_tok1, ghost_va0, ghost_va1);

/* two users share a visible channel: the source is neither kicked nor hidden there, the target not kicked */
static int rec_on(struct Membership *m, struct Channel *ch)
{
  if (!m) return 0;
  if (!(m->status & 0x10) && m->channel == ch) return 1;
  return rec_on(m->next_channel, ch);
}
static int rec_common(struct Membership *s, struct Membership *a)
{
  if (!s) return 0;
  if (!(s->status & 0x40010) && rec_on(a, s->channel)) return 1;
  return rec_common(s->next_channel, a);
}
/* servers, services, operators and oneself are never held back by the target's modes */
static int spec_trusted(const struct Client *s, const struct Client *d)
{
  return s == d || !spec_is_user(s) || spec_service(s) || spec_anyop(s);
}
static int spec_unauth_blocked(const struct Client *s, const struct Client *d)
{
  return SPEC_FLAG(d, FLAG_BLOCK_UNAUTH_USERS) && !spec_trusted(s, d) && !spec_account(s);
}
static int spec_no_common(const struct Client *s, const struct Client *d)
{
  return SPEC_FLAG(d, FLAG_COMMONCHANS) && !spec_trusted(s, d) && !rec_common(s->cli_user->channel, d->cli_user->channel);
}
static int spec_silenced(const struct Client *s, const struct Client *d)
{
  return !spec_is_server(s) && d->cli_user && uf_banned(s, d->cli_user->silence) != 0;
}
static int spec_user_refuses(const struct Client *s, const struct Client *d)
{
  return spec_unauth_blocked(s, d) || spec_silenced(s, d);
}
#define SEEK(name, mask) ((name) && *(name) ? uf_client(name, mask) : (struct Client *)0)
