/* C08: who refuses messages (s_user.c), and messages through a shared channel (CPRIVMSG, CNOTICE) */
#include "c08_env.h"
int is_silenced(struct Client *sptr, struct Client *acptr)
  __CPROVER_ensures((__CPROVER_return_value != 0) == verif_old_int(spec_silenced(sptr, acptr)))
  __CPROVER_assigns(!spec_local(sptr): verif_everything());
int should_block_unauth_user(struct Client *source, struct Client *dest)
  __CPROVER_ensures((__CPROVER_return_value != 0) == spec_unauth_blocked(source, dest))
  __CPROVER_assigns();
void verif_inv_whisper_from(struct Membership *membership, struct Client *source, struct Channel *chptr)
  __CPROVER_ensures(rec_by_chan(membership, chptr) == rec_by_chan(source->cli_user->channel, chptr));
void verif_inv_whisper_to(struct Membership *membership, struct Client *dest, struct Channel *chptr)
  __CPROVER_ensures(rec_by_chan(membership, chptr) == rec_by_chan(dest->cli_user->channel, chptr));
static struct Client *spec_nick(const char *nick) { return SEEK(nick, 0x080); }
static int spec_whisper(struct Client *s, const char *nick, const char *channel)
{
  struct Client *d = SEEK(nick, 0x080);
  struct Channel *ch = channel && *channel ? uf_channel(channel) : (struct Channel *)0;
  struct Membership *ms, *md;
  if (!d || !ch) return 0;
  ms = rec_by_chan(s->cli_user->channel, ch); md = rec_by_chan(d->cli_user->channel, ch);
  return ms && (ms->status & 3) && md && !(md->status & 0x10) && !spec_user_refuses(s, d);
}
int whisper(struct Client *source, const char *nick, const char *channel, const char *text, int is_notice)
  __CPROVER_requires(ghost_n == 0 && spec_my_user(source))
  __CPROVER_ensures(ghost_n == (verif_old_int(spec_whisper(source, nick, channel)) ? 1 : 0))
  __CPROVER_ensures(ghost_n == 0 || (ghost_from[0] == source && ghost_to[0] == verif_old_ptr(spec_nick(nick)) && ghost_tok0[0] == (is_notice ? 'O' : 'P') && ghost_tok1[0] == 0 && ghost_va0[0] == ghost_to[0] && ghost_va1[0] == text))
  __CPROVER_assigns(ghost_n, ghost_from, ghost_to, ghost_tok0, ghost_tok1, ghost_va0, ghost_va1);
#include "ircd/s_user.c"
