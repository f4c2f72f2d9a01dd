/* What the channel command handlers call, and the record of what they did.
 * Lookups are uninterpreted here (C02, C03 settle them); the channel predicates are those of spec_chan.h. */
#ifndef CHAN_API_H
#define CHAN_API_H
#include "config.h"
#include "verif.h"
#include "capab.h"
#include "channel.h"
#include "client.h"
#include "hash.h"
#include "ircd.h"
#include "ircd_string.h"
#include "list.h"
#include "match.h"
#include "numnicks.h"
#include "res.h"
#include "s_user.h"
#include "send.h"
#include "struct.h"
#include "spec_chan.h"
#define SPEC_PRIV(c, p) (((c)->cli_connect->con_privs.bits[(p) / 64] >> ((p) % 64)) & 1ul)

struct Client *uf_client(const char *name, int mask);
struct Client *uf_numuser(const char *yxx);
struct Channel *uf_channel(const char *name);
struct Client *uf_chase(const char *name);

struct Client *hSeekClient(const char *name, int TMask)
  __CPROVER_ensures(__CPROVER_return_value == uf_client(name, TMask))
  __CPROVER_ensures(!__CPROVER_return_value || (__CPROVER_return_value->cli_status & TMask) != 0)
  __CPROVER_assigns();
struct Client *findNUser(const char *yxx)
  __CPROVER_ensures(__CPROVER_return_value == uf_numuser(yxx))
  __CPROVER_ensures(!__CPROVER_return_value || spec_is_user(__CPROVER_return_value))
  __CPROVER_assigns();
struct Channel *hSeekChannel(const char *name)
  __CPROVER_ensures(__CPROVER_return_value == uf_channel(name))
  __CPROVER_assigns();
struct Channel *get_channel(struct Client *cptr, char *chname, ChannelGetType flag)
  __CPROVER_requires(flag == CGT_NO_CREATE)
  __CPROVER_ensures(__CPROVER_return_value == (chname && *chname ? uf_channel(chname) : (struct Channel *)0))
  __CPROVER_assigns();
struct Client *find_chasing(struct Client *sptr, const char *user, int *chasing)
  __CPROVER_ensures(__CPROVER_return_value == uf_chase(user))
  __CPROVER_assigns(chasing: *chasing);
struct Membership *find_member_link(struct Channel *chptr, const struct Client *cptr)
  __CPROVER_ensures(__CPROVER_return_value == spec_link(chptr, cptr))
  __CPROVER_assigns();
#define SEEK(name, mask) ((name) && *(name) ? uf_client(name, mask) : (struct Client *)0)
static struct Channel *spec_chan(const char *name) { return name && *name ? uf_channel(name) : (struct Channel *)0; }
static int spec_opped(struct Membership *m) { return m && !(m->status & 0x10) && (m->status & 0x1); }

/* the last commands to the other servers and to one client */
int ghost_serv_n, ghost_one_n;
struct Client *ghost_serv_from, *ghost_serv_but, *ghost_one_from, *ghost_one_to;
char ghost_serv_tok0, ghost_serv_tok1, ghost_one_tok0, ghost_one_tok1;
const void *ghost_serv_va0, *ghost_serv_va1, *ghost_serv_va2;
const void *ghost_one_va0, *ghost_one_va1, *ghost_one_va2;
#define REC_SERV ghost_serv_n, ghost_serv_from, ghost_serv_but, ghost_serv_tok0, ghost_serv_tok1, ghost_serv_va0, ghost_serv_va1, ghost_serv_va2
#define REC_ONE ghost_one_n, ghost_one_from, ghost_one_to, ghost_one_tok0, ghost_one_tok1, ghost_one_va0, ghost_one_va1, ghost_one_va2
void sendcmdto_serv_butone(struct Client *from, const char *cmd, const char *tok, struct Client *one, const char *pattern, ...)
  __CPROVER_ensures(ghost_serv_n == __CPROVER_old(ghost_serv_n) + 1 && ghost_serv_from == from && ghost_serv_but == one)
  __CPROVER_ensures(ghost_serv_tok0 == tok[0] && ghost_serv_tok1 == (tok[0] ? tok[1] : 0))
  __CPROVER_ensures(ghost_serv_va0 == verif_va_ptr(0) && ghost_serv_va1 == verif_va_ptr(1) && ghost_serv_va2 == verif_va_ptr(2))
  __CPROVER_assigns(REC_SERV);
#endif
