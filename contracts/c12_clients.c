/* C12: opping, deopping and voicing by MODE (mode_parse_client, mode_process_clients in channel.c).  Each change that is
 * processed starts an event with the lookup of the member it is about; what becomes of that member (and that every other
 * member stays as it is) has to be settled before the next one.  The contracts follow the code, which defines the state. */
#include "ircd/channel.c"
#include "verif.h"
#include "spec_chan.h"
#define SPEC_PRIV(c, p) (((c)->cli_connect->con_privs.bits[(p) / 64] >> ((p) % 64)) & 1ul)
int ghost_i, ghost_told, ghost_due;
struct ParseState *ghost_state;
struct Membership *ghost_o;                     /* any membership record at all */
unsigned int ghost_o_status; unsigned short ghost_o_level;
struct Channel *ghost_channel;
#define A 0x40000000u
#define D 0x20000000u
#define EV_GHOSTS ghost_i, ghost_told, ghost_due, ghost_o_status, ghost_o_level
static int spec_deop_allowed(struct ParseState *st, struct Client *c, struct Membership *m)
{
  if (!spec_my_user(st->sptr)) return 1;
  if (spec_service(c) && !(st->flags & 4) && (st->flags & 1)) return 0;
  if (c == st->sptr) return 1;
  if (st->chptr->chname[0] == '&' && SPEC_PRIV(c, PRIV_DEOP_LCHAN)) return 0;
  return !st->member || m->oplevel > st->member->oplevel || (m->oplevel == st->member->oplevel && m->oplevel >= 999);
}
/* the i-th requested change takes effect */
static int spec_effective(struct ParseState *st, int i, struct Membership *m)
{
  unsigned f = st->cli_change[i].flag;
  if (!m || (spec_my_user(st->sptr) && (m->status & 0x10))) return 0;
  if ((f & A) && (f & m->status)) return 0;
  if ((f & D) && !(f & m->status)) return 0;
  return !((f & D) && (f & 1)) || spec_deop_allowed(st, st->cli_change[i].client, m);
}
static unsigned spec_status(struct ParseState *st, int i, struct Membership *m)
{
  unsigned f = st->cli_change[i].flag, s = m->status;
  if (!spec_effective(st, i, m) || !(st->flags & 1)) return s;
  if (!(f & A)) return s & ~(f & 3);
  return ((s & ~0x80000u & ~(s & 0x10 ? 0 : 0x40000u)) | (f & 3)) & ~(f & 1 ? 4u : 0u);
}
static unsigned short spec_level(struct ParseState *st, int i, struct Membership *m)
{
  unsigned f = st->cli_change[i].flag; unsigned short lv = st->cli_change[i].oplevel;
  if (!spec_effective(st, i, m) || !(f & A) || !(f & 1)) return m->oplevel;
  if (lv <= 999) return lv;
  if (!st->member) return 999;
  return st->member->oplevel >= 999 ? st->member->oplevel : st->member->oplevel + 1;
}
static int spec_settled(void)
{
  return ghost_o->status == ghost_o_status && ghost_o->oplevel == ghost_o_level && ghost_told == ghost_due;
}
struct Membership *find_member_link(struct Channel *chptr, const struct Client *cptr)
  __CPROVER_requires(cptr == ghost_state->cli_change[ghost_i].client && chptr == ghost_state->chptr && spec_settled())
  __CPROVER_ensures(__CPROVER_return_value == spec_link(chptr, cptr) && ghost_i == __CPROVER_old(ghost_i) + 1 && ghost_told == 0)
  __CPROVER_ensures(ghost_due == verif_old_int(spec_effective(ghost_state, ghost_i, spec_link(chptr, cptr))))
  __CPROVER_ensures(ghost_o != __CPROVER_return_value ? ghost_o_status == ghost_o->status && ghost_o_level == ghost_o->oplevel
    : ghost_o_status == (unsigned)verif_old_int(spec_status(ghost_state, ghost_i, ghost_o)) && ghost_o_level == (unsigned short)verif_old_int(spec_level(ghost_state, ghost_i, ghost_o)))
  __CPROVER_assigns(EV_GHOSTS);
void RevealDelayedJoin(struct Membership *member)
  __CPROVER_ensures(member->status == (__CPROVER_old(member->status) & ~0x40000u))
  __CPROVER_assigns(member->status)
  __CPROVER_assigns(verif_any_bits(ghost_channel->mode.mode, 0x400000));
void modebuf_mode_client(struct ModeBuf *mbuf, unsigned int mode, struct Client *client, int oplevel)
  __CPROVER_requires(ghost_due && !ghost_told && mbuf == ghost_state->mbuf && mode == ghost_state->cli_change[ghost_i - 1].flag && client == ghost_state->cli_change[ghost_i - 1].client && oplevel == ghost_state->cli_change[ghost_i - 1].oplevel)
  __CPROVER_ensures(ghost_told == 1)
  __CPROVER_assigns(ghost_told);
static void mode_process_clients(struct ParseState *state)
  __CPROVER_requires(ghost_state == state && ghost_i == 0 && ghost_told == 0 && ghost_due == 0 && ghost_o_status == ghost_o->status && ghost_o_level == ghost_o->oplevel)
  __CPROVER_ensures(spec_settled() && state->cli_change[ghost_i].flag == 0)
  __CPROVER_assigns(EV_GHOSTS, verif_any_field(ghost_o->status), verif_any_field(ghost_o->oplevel))
  __CPROVER_assigns(verif_any_bits(ghost_channel->mode.mode, 0x400000));
void verif_inv_mode_process_clients(int i, struct ParseState *state)
  __CPROVER_ensures(i == ghost_i && state == ghost_state && spec_settled());
/* showing a hidden member clears its "hidden" mark and nothing else */
void CheckDelayedJoins(struct Channel *chan)
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_any_bits(ghost_channel->mode.mode, 0x400000));
