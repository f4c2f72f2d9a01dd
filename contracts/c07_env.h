/* C07: what the relay functions call, and the record of what was handed to the channel */
#include "config.h"
#include "verif.h"
#include "capab.h"
#include "channel.h"
#include "client.h"
#include "hash.h"
#include "ircd.h"
#include "ircd_relay.h"
#include "ircd_string.h"
#include "list.h"
#include "res.h"
#include "s_user.h"
#include "send.h"
#include "sline.h"
#include "struct.h"
#include "spec_chan.h"
#include "spec_str.h"

struct Membership *ghost_member; struct Channel *ghost_channel;
int ghost_n;                       /* messages handed to a channel */
struct Client *ghost_from, *ghost_one;
struct Channel *ghost_to;
unsigned ghost_skip;
char ghost_tok0, ghost_tok1;
const void *ghost_va0, *ghost_va1;

struct Channel *uf_channel(const char *name);
int uf_limited(const struct Client *s, const struct Channel *ch);
int uf_sline(const struct Client *s, const struct Channel *ch, const char *text, char kind0, char kind4);

struct Channel *hSeekChannel(const char *name)
  __CPROVER_ensures(__CPROVER_return_value == uf_channel(name))
  __CPROVER_assigns();
struct Membership *find_member_link(struct Channel *chptr, const struct Client *cptr)
  __CPROVER_ensures(__CPROVER_return_value == spec_link(chptr, cptr))
  __CPROVER_assigns();
int client_can_send_to_channel(struct Client *cptr, struct Channel *chptr, int reveal)
  __CPROVER_requires(cptr->cli_status != 4)
  __CPROVER_ensures((__CPROVER_return_value != 0) == verif_old_int(spec_speaks(chptr, cptr)))
  __CPROVER_assigns(verif_any_bits(ghost_member->status, 0x1800))
  __CPROVER_assigns(reveal: verif_any_bits(ghost_member->status, 0x40000), verif_any_bits(ghost_channel->mode.mode, 0x400000));
int check_target_limit(struct Client *sptr, struct Client *target, struct Channel *chptr)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (uf_limited(sptr, chptr) != 0))
  __CPROVER_assigns();
int sline_check_chanmsg(struct Client *sptr, struct Channel *chptr, const char *text, const char *type)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (uf_sline(sptr, chptr, text, type[0], type[4]) != 0))
  __CPROVER_assigns();
void RevealDelayedJoinIfNeeded(struct Client *sptr, struct Channel *chptr)
  __CPROVER_requires(sptr->cli_status != 4)
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_any_bits(ghost_member->status, 0x40000)) __CPROVER_assigns(verif_any_bits(ghost_channel->mode.mode, 0x400000));
void sendcmdto_channel_butone(struct Client *from, const char *cmd, const char *tok, struct Channel *to,
                              struct Client *one, unsigned int skip, const char *pattern, ...)
  __CPROVER_ensures(ghost_n == __CPROVER_old(ghost_n) + 1 && ghost_from == from && ghost_to == to && ghost_one == one && ghost_skip == skip)
  __CPROVER_ensures(ghost_tok0 == tok[0] && ghost_tok1 == tok[1])
  __CPROVER_ensures(ghost_va0 == verif_va_ptr(0) && ghost_va1 == verif_va_ptr(1))
  __CPROVER_assigns(ghost_n, ghost_from, ghost_to, ghost_one, ghost_skip, ghost_tok0, ghost_tok1, ghost_va0, ghost_va1);

static int rec_color(const char *t)
{
  if (!*t) return 0;
  if (*t == 3 || *t == 27) return 1;
  return rec_color(t + 1);
}
static int rec_ctcp(const char *t)
{
  if (!*t) return 0;
  if (*t == 1) return 1;
  return rec_ctcp(t + 1);
}
/* "\001ACTION ", in any case */
static int spec_action(const char *t)
{
  return t[0] == 1 && spec_fold((unsigned char)t[1]) == 'a' && spec_fold((unsigned char)t[2]) == 'c' && spec_fold((unsigned char)t[3]) == 't'
      && spec_fold((unsigned char)t[4]) == 'i' && spec_fold((unsigned char)t[5]) == 'o' && spec_fold((unsigned char)t[6]) == 'n' && t[7] == ' ';
}
static int spec_is_action_tag(const char *t)
{
  return t[0] == 1 && t[1] == 'A' && t[2] == 'C' && t[3] == 'T' && t[4] == 'I' && t[5] == 'O' && t[6] == 'N' && t[7] == ' ' && t[8] == 0;
}
int ircd_strncmp(const char *a, const char *b, size_t n)
  __CPROVER_ensures(!(n == 8 && spec_is_action_tag(b)) || (__CPROVER_return_value == 0) == spec_action(a))
  __CPROVER_assigns();
static int spec_allowed_text(struct Channel *ch, const char *text)
{
  if ((ch->mode.mode & CH_NOCOLOR) && rec_color(text)) return 0;
  if ((ch->mode.mode & CH_NOCTCP) && !spec_action(text) && rec_ctcp(text)) return 0;
  return 1;
}
static int spec_local_may(struct Client *s, struct Channel *ch)
{
  return spec_speaks(ch, s) && !((ch->mode.mode & CH_NOPRIVMSGS) && uf_limited(s, ch));
}
static struct Channel *spec_chan(const char *name) { return name && *name ? uf_channel(name) : (struct Channel *)0; }
#define OLDCHAN(name) ((struct Channel *)verif_old_ptr(spec_chan(name)))
