/* C08: messages to $servermask and $@hostmask */
#include "config.h"
#include "verif.h"
#include "capab.h"
#include "channel.h"
#include "client.h"
#include "hash.h"
#include "ircd.h"
#include "ircd_relay.h"
#include "msg.h"
#include "s_user.h"
#include "send.h"
#include "struct.h"
#include "spec_client.h"
char *uf_strrchr(const char *s, int c);
char *strrchr(const char *s, int c)
  __CPROVER_ensures(__CPROVER_return_value == uf_strrchr(s, c))
  __CPROVER_assigns();
int ghost_sent, ghost_echo; struct Client *ghost_s; const char *ghost_mask, *ghost_text; char ghost_tok;
/* a wildcard behind the last dot */
static int rec_wild(const char *p)
{
  if (!*p || *p == '.') return 0;
  if (*p == '*' || *p == '?') return 1;
  return rec_wild(p + 1);
}
static const char *spec_rest(const char *mask) { return mask[1] == '@' ? mask + 2 : mask + 1; }
void sendcmdto_match_butone(struct Client *from, const char *cmd, const char *tok, const char *to, struct Client *one, unsigned int who, const char *pattern, ...)
  __CPROVER_requires(ghost_sent == 0 && from == ghost_s && tok[0] == ghost_tok && (ghost_tok == 'T' ? tok[1] == 'M' : !tok[1]))
  __CPROVER_requires(to == spec_rest(ghost_mask) && who == (ghost_mask[1] == '@' ? MATCH_HOST : MATCH_SERVER))
  __CPROVER_requires(one == (spec_is_server(ghost_s->cli_connect->con_client) ? ghost_s->cli_connect->con_client : (struct Client *)0))
  __CPROVER_requires(verif_va_ptr(0) == (void *)ghost_mask && (ghost_tok == 'T' || verif_va_ptr(1) == (void *)ghost_text))
  __CPROVER_ensures(ghost_sent == 1)
  __CPROVER_assigns(ghost_sent);
void sendcmdto_one(struct Client *from, const char *cmd, const char *tok, struct Client *to, const char *pattern, ...)
  __CPROVER_requires(ghost_echo == 0 && ghost_sent == 1 && from == ghost_s && to == ghost_s->cli_connect->con_client && verif_va_ptr(0) == (void *)ghost_mask && verif_va_ptr(1) == (void *)ghost_text)
  __CPROVER_ensures(ghost_echo == 1)
  __CPROVER_assigns(ghost_echo);
void verif_inv_toplevel(const char *s, const char *mask)
  __CPROVER_ensures((rec_wild(s + 1) != 0) == (rec_wild(uf_strrchr(mask, '.') + 1) != 0));
#define FROM_ME (ghost_s == sptr && ghost_mask == mask && ghost_sent == 0 && ghost_echo == 0)
#define GOOD (uf_strrchr(mask, '.') && !rec_wild(uf_strrchr(mask, '.') + 1))
#define LOCAL(fn, tk) void fn(struct Client *sptr, const char *mask, const char *text) \
  __CPROVER_requires(FROM_ME && ghost_text == text && ghost_tok == tk) \
  __CPROVER_ensures((ghost_sent != 0) == verif_old_int(GOOD)) \
  __CPROVER_assigns(ghost_sent, ghost_echo);
LOCAL(relay_masked_message, 'P')
LOCAL(relay_masked_notice, 'O')
void relay_masked_tagmsg(struct Client *sptr, const char *mask)
  __CPROVER_requires(FROM_ME && ghost_tok == 'T')
  __CPROVER_ensures((ghost_sent != 0) == verif_old_int(spec_globop(sptr) && GOOD))
  __CPROVER_assigns(ghost_sent, ghost_echo);
#define REMOTE(fn, tk) void fn(struct Client *sptr, const char *mask, const char *text) \
  __CPROVER_requires(FROM_ME && ghost_text == text && ghost_tok == tk) \
  __CPROVER_ensures(ghost_sent != 0) \
  __CPROVER_assigns(ghost_sent, ghost_echo);
REMOTE(server_relay_masked_message, 'P')
REMOTE(server_relay_masked_notice, 'O')
void server_relay_masked_tagmsg(struct Client *sptr, const char *mask)
  __CPROVER_requires(FROM_ME && ghost_tok == 'T')
  __CPROVER_ensures(ghost_sent != 0)
  __CPROVER_assigns(ghost_sent, ghost_echo);
#include "ircd/ircd_relay.c"
