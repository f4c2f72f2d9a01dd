/* C07: what reaches a channel (ircd_relay.c) */
#include "c07_env.h"


#define SENT(src, ch, t0, t1) (ghost_n == __CPROVER_old(ghost_n) || (ghost_from == (src) && ghost_to == (ch) && ghost_skip == 3 \
  && ghost_tok0 == (t0) && ghost_tok1 == (t1) && ghost_va0 == (ch)))
static int spec_deliver_text(struct Client *s, const char *name, const char *text, char k0, char k4)
{
  struct Channel *ch = spec_chan(name);
  return ch && spec_local_may(s, ch) && spec_allowed_text(ch, text) && !uf_sline(s, ch, text, k0, k4);
}
static int spec_deliver_remote(struct Client *s, const char *name)
{
  struct Channel *ch = spec_chan(name);
  return *name != '&' && ch && (spec_speaks(ch, s) || spec_service(s));
}
void relay_channel_message(struct Client* sptr, const char* name, const char* text)
  __CPROVER_requires(sptr->cli_status == 0x080)
  __CPROVER_ensures(ghost_n == __CPROVER_old(ghost_n) + (verif_old_int(spec_deliver_text(sptr, name, text, 'P', 'M')) ? 1 : 0))
  __CPROVER_ensures(SENT(sptr, OLDCHAN(name), 'P', 0) && (ghost_n == __CPROVER_old(ghost_n) || ghost_va1 == text))
  __CPROVER_assigns(verif_everything());
void relay_channel_notice(struct Client* sptr, const char* name, const char* text)
  __CPROVER_requires(sptr->cli_status == 0x080)
  __CPROVER_ensures(ghost_n == __CPROVER_old(ghost_n) + (verif_old_int(spec_deliver_text(sptr, name, text, 'N', 'C')) ? 1 : 0))
  __CPROVER_ensures(SENT(sptr, OLDCHAN(name), 'O', 0) && (ghost_n == __CPROVER_old(ghost_n) || ghost_va1 == text))
  __CPROVER_assigns(verif_everything());
void server_relay_channel_message(struct Client* sptr, const char* name, const char* text)
  __CPROVER_requires(sptr->cli_status != 4)
  __CPROVER_ensures(ghost_n == __CPROVER_old(ghost_n) + (verif_old_int(spec_deliver_remote(sptr, name)) ? 1 : 0))
  __CPROVER_ensures(SENT(sptr, OLDCHAN(name), 'P', 0) && (ghost_n == __CPROVER_old(ghost_n) || ghost_va1 == text))
  __CPROVER_assigns(verif_everything());
void server_relay_channel_notice(struct Client* sptr, const char* name, const char* text)
  __CPROVER_requires(sptr->cli_status != 4)
  __CPROVER_ensures(ghost_n == __CPROVER_old(ghost_n) + (verif_old_int(spec_deliver_remote(sptr, name)) ? 1 : 0))
  __CPROVER_ensures(SENT(sptr, OLDCHAN(name), 'O', 0) && (ghost_n == __CPROVER_old(ghost_n) || ghost_va1 == text))
  __CPROVER_assigns(verif_everything());
static int spec_deliver_tag(struct Client *s, const char *name, const char *empty)
{
  struct Channel *ch = spec_chan(name);
  return ch && spec_local_may(s, ch);
}
/* a tag message has no text; a spam filter may still hold it back */
void relay_channel_tagmsg(struct Client *sptr, const char *name)
  __CPROVER_requires(sptr->cli_status == 0x080)
  __CPROVER_ensures(ghost_n == __CPROVER_old(ghost_n) || (verif_old_int(spec_deliver_tag(sptr, name, 0)) && ghost_n == __CPROVER_old(ghost_n) + 1))
  __CPROVER_ensures(SENT(sptr, OLDCHAN(name), 'T', 'M'))
  __CPROVER_assigns(verif_everything());
void server_relay_channel_tagmsg(struct Client *sptr, const char *name)
  __CPROVER_requires(sptr->cli_status != 4)
  __CPROVER_ensures(ghost_n == __CPROVER_old(ghost_n) + (verif_old_int(spec_deliver_remote(sptr, name)) ? 1 : 0))
  __CPROVER_ensures(SENT(sptr, OLDCHAN(name), 'T', 'M'))
  __CPROVER_assigns(verif_everything());
void verif_inv_relay_color(const char *ch, const char *text)
  __CPROVER_ensures(rec_color(ch) == rec_color(text));
void verif_inv_relay_ctcp(const char *ch, const char *text)
  __CPROVER_ensures(rec_ctcp(ch) == rec_ctcp(text));
#include "ircd/ircd_relay.c"
