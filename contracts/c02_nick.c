/* C02: a name changes only while its owner is out of the table, and goes back in under the new name (set_nick_name in s_user.c) */
#include "config.h"
#include "verif.h"
#include "client.h"
#include "channel.h"
#include "hash.h"
#include "ircd.h"
#include "list.h"
#include "numnicks.h"
#include "s_auth.h"
#include "s_user.h"
#include "send.h"
#include "struct.h"
#include "whowas.h"
#include "spec_client.h"
#include <string.h>
struct Client *ghost_c, *ghost_new;         /* whose name is set; the client made for a newcomer */
const char *ghost_nick;
int ghost_in, ghost_named, ghost_refused;   /* in the table; has the new name; was refused a change */
struct Client *make_client(struct Client *from, int status)
  __CPROVER_ensures(__CPROVER_return_value == ghost_new)
  __CPROVER_assigns();
struct User *make_user(struct Client *cptr)
  __CPROVER_ensures(__CPROVER_return_value != 0)
  __CPROVER_assigns();
char *strcpy(char *d, const char *s)
  __CPROVER_requires(d == ghost_c->cli_name && s == ghost_nick && !ghost_in)
  __CPROVER_ensures(ghost_named == 1 && d[0] == s[0])
  __CPROVER_assigns(verif_text_upto(d, 16), ghost_named);
char *ircd_strncpy(char *d, const char *s, size_t n)
  __CPROVER_requires(d != ghost_c->cli_name || (s == ghost_nick && !ghost_in && n == 15))
  __CPROVER_ensures(ghost_named == (d == ghost_c->cli_name || __CPROVER_old(ghost_named)))
  __CPROVER_assigns(verif_text_upto(d, n + 1), ghost_named);
char *strncpy(char *d, const char *s, size_t n)
  __CPROVER_requires(d != ghost_c->cli_name)
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_text_upto(d, n));
int hAddClient(struct Client *cptr)
  __CPROVER_requires(cptr == ghost_c && !ghost_in && ghost_named)
  __CPROVER_ensures(ghost_in == 1)
  __CPROVER_assigns(ghost_in);
int hRemClient(struct Client *cptr)
  __CPROVER_requires(cptr == ghost_c && ghost_in && !ghost_named)
  __CPROVER_ensures(ghost_in == 0)
  __CPROVER_assigns(ghost_in);
char *find_no_nickchange_channel(struct Client *cptr)
  __CPROVER_ensures((ghost_refused != 0) == (__CPROVER_return_value != 0))
  __CPROVER_assigns(ghost_refused);
int set_user_mode(struct Client *cptr, struct Client *sptr, int parc, char *parv[], int allow_modes)
  __CPROVER_ensures(1)
  __CPROVER_assigns(sptr->cli_flags.bits[0]);
int register_user(struct Client *cptr, struct Client *sptr)
  __CPROVER_requires(sptr == ghost_c && ghost_in)
  __CPROVER_ensures(1)
  __CPROVER_assigns(sptr->cli_status);
int set_nick_name(struct Client *cptr, struct Client *sptr, const char *nick, int parc, char *parv[])
  __CPROVER_requires(nick == ghost_nick && nick[0] != 0 && ghost_new && ghost_new != sptr && ghost_new != cptr && sptr->cli_user != 0)
  __CPROVER_requires(ghost_c == (spec_is_server(sptr) ? ghost_new : sptr) && !ghost_named && !ghost_refused)
  __CPROVER_requires(ghost_in == (!spec_is_server(sptr) && sptr->cli_name[0] != 0))
  __CPROVER_ensures(ghost_named ? ghost_in == 1 : ghost_in == __CPROVER_old(ghost_in))
  __CPROVER_ensures(ghost_named || verif_old_int(spec_my_user(sptr) && sptr->cli_name[0] != 0))
  __CPROVER_ensures(ghost_named || ghost_refused || verif_old_int(CurrentTime < cptr->cli_connect->con_nextnick))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_in, ghost_named, ghost_refused);
#include "ircd/s_user.c"
