/* Specification vocabulary for channels. */
#ifndef SPEC_CHAN_H
#define SPEC_CHAN_H
#include "spec_client.h"
static struct Membership *rec_by_user(struct Membership *m, const struct Client *c)
{
  if (!m) return (struct Membership *)0;
  if (m->user == c) return m;
  return rec_by_user(m->next_member, c);
}
static struct Membership *rec_by_chan(struct Membership *m, const struct Channel *ch)
{
  if (!m) return (struct Membership *)0;
  if (m->channel == ch) return m;
  return rec_by_chan(m->next_channel, ch);
}
/* the membership link of a client on a channel (a kicked "zombie" still has one) */
static struct Membership *spec_link(struct Channel *ch, const struct Client *c)
{
  return spec_is_server(c) || spec_is_me(c) ? (struct Membership *)0
       : spec_service(c) ? rec_by_user(ch->members, c) : rec_by_chan(c->cli_user->channel, ch);
}
static struct Membership *spec_member(struct Channel *ch, const struct Client *c)
{
  struct Membership *m = spec_link(ch, c);
  return m && !(m->status & 0x0010) ? m : (struct Membership *)0;
}
#define CH_NOPRIVMSGS 0x0080
#define CH_MODERATED 0x0010
#define CH_REGONLY 0x0800
#define CH_MODERATENOREG 0x1000000
#define CH_TLSONLY 0x2000000
#define CH_NOCOLOR 0x4000
#define CH_NOCTCP 0x8000
int uf_banned(const struct Client *c, const struct Ban *list);
static int spec_member_banned(struct Membership *m)
{
  return (m->status & 0x0800) ? (m->status & 0x1000) != 0 : uf_banned(m->user, m->channel->banlist) != 0;
}
static int spec_member_speaks(struct Membership *m)
{
  unsigned mode = m->channel->mode.mode;
  if (!spec_my_user(m->user)) return 1;
  if ((m->status & 0x10000) && m->channel->mode.apass[0]) return 0;
  if (m->status & 0x0003) return 1;
  if (mode & CH_MODERATED) return 0;
  if ((mode & (CH_MODERATENOREG | CH_REGONLY)) && !spec_account(m->user)) return 0;
  if ((mode & CH_TLSONLY) && !spec_tls(m->user)) return 0;
  return !spec_member_banned(m);
}
static int spec_outsider_speaks(struct Channel *ch, const struct Client *c)
{
  unsigned mode = ch->mode.mode;
  if (mode & (CH_NOPRIVMSGS | CH_MODERATED)) return 0;
  if ((mode & CH_TLSONLY) && !spec_tls(c)) return 0;
  if ((mode & (CH_MODERATENOREG | CH_REGONLY)) && !spec_account(c)) return 0;
  return uf_banned(c, ch->banlist) == 0;
}
static int spec_speaks(struct Channel *ch, const struct Client *c)
{
  struct Membership *m = spec_member(ch, c);
  return spec_is_server(c) ? 1 : m ? spec_member_speaks(m) : spec_outsider_speaks(ch, c);
}
#endif
