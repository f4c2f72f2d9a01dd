/* C02: who leaves is taken out of the tables first (exit_one_client in s_misc.c) */
#include "config.h"
#include "verif.h"
#include "channel.h"
#include "client.h"
#include "hash.h"
#include "ircd.h"
#include "list.h"
#include "numnicks.h"
#include "s_misc.h"
#include "send.h"
#include "struct.h"
#include "spec_client.h"
struct Client *ghost_c;
int ghost_rem, ghost_num, ghost_chans, ghost_gone;
int hRemClient(struct Client *cptr)
  __CPROVER_requires(cptr == ghost_c && !ghost_gone)
  __CPROVER_ensures(ghost_rem == __CPROVER_old(ghost_rem) + 1)
  __CPROVER_assigns(ghost_rem);
void RemoveYXXClient(struct Client *server, const char *yxx)
  __CPROVER_requires(!ghost_gone && server == ghost_c->cli_user->server && yxx == ghost_c->cli_yxx)
  __CPROVER_ensures(ghost_num == __CPROVER_old(ghost_num) + 1)
  __CPROVER_assigns(ghost_num);
void remove_user_from_all_channels(struct Client *cptr)
  __CPROVER_requires(cptr == ghost_c && !ghost_gone)
  __CPROVER_ensures(ghost_chans == __CPROVER_old(ghost_chans) + 1)
  __CPROVER_assigns(ghost_chans);
void remove_client_from_list(struct Client *cptr)
  __CPROVER_requires(cptr == ghost_c && ghost_rem == 1 && !ghost_gone)
  __CPROVER_ensures(ghost_gone == 1)
  __CPROVER_assigns(ghost_gone);
int ghost_clr;
void ClearServerYXX(const struct Client *server)
  __CPROVER_requires(!ghost_gone && server == ghost_c)
  __CPROVER_ensures(ghost_clr == __CPROVER_old(ghost_clr) + 1)
  __CPROVER_assigns(ghost_clr);
static void exit_one_client(struct Client *bcptr, const char *comment)
  __CPROVER_requires(bcptr == ghost_c && !ghost_rem && !ghost_num && !ghost_chans && !ghost_gone && !ghost_clr)
  __CPROVER_requires(!spec_is_user(bcptr) || bcptr->cli_user != 0)
  __CPROVER_ensures(ghost_gone == verif_old_int(!spec_is_me(bcptr)) && ghost_rem == ghost_gone)
  __CPROVER_ensures(!verif_old_int(spec_is_user(bcptr)) || (ghost_num == 1 && ghost_chans == 1))
  __CPROVER_ensures(ghost_clr == verif_old_int(bcptr->cli_serv != 0 && bcptr->cli_serv->client_list != 0))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_clr, ghost_rem, ghost_num, ghost_chans, ghost_gone);
#include "ircd/s_misc.c"
