/* A small random network for the replay drivers: four local users, a linked server with two users, three channels. */
#ifndef WR_H
#define WR_H
#include "wh.h"
#include "capab.h"
#define WR_U 6
static struct Client *wr_u[WR_U], *wr_S, *wr_S2;
static struct Channel *wr_ch[3];
static const char *wr_cn[3] = { "#a", "#b", "&loc" };
static struct Membership *wr_mem(struct Client *c, struct Channel *ch)
{
  struct Membership *m;
  for (m = ch ? ch->members : 0; m; m = m->next_member) if (m->user == c) return m;
  return 0;
}
static struct Membership *wr_live(struct Client *c, struct Channel *ch)
{
  struct Membership *m = wr_mem(c, ch);
  return m && !(m->status & 0x10) ? m : 0;
}
static void wr_join(int i)
{
  int k;
  for (k = 0; k < 3; k++) {
    if (k == 2 && i >= 4) continue;
    if (!wr_mem(wr_u[i], wr_ch[k]) && wl_chance(2)) add_user_to_channel(wr_ch[k], wr_u[i], 0, MAXOPLEVEL);
  }
}
static void wr_setup(void)
{
  static const char *nn[4] = { "alice", "bob", "carol", "dave" }; int i;
  char h[40], ip[40];
  for (i = 0; i < 4; i++) {
    sprintf(h, "%s.host.org", nn[i]); sprintf(ip, "10.1.2.%d", i + 2);
    wr_u[i] = wh_user(nn[i], nn[i], h, ip);
  }
  wr_S = wh_server("hub.test.net", "AC"); wr_S2 = wh_server("leaf.test.net", "AD");
  wh_send(wr_S, "AC N erin 1 1600000000 er er.host.org AKAQID ACAAA :Erin");
  wh_send(wr_S, "AC N frank 1 1600000000 fr fr.host.org AKAQIE ACAAB :Frank");
  wh_send(wr_S, "AC EB"); wh_send(wr_S, "AC EA"); wh_send(wr_S2, "AD EB"); wh_send(wr_S2, "AD EA");
  wr_u[4] = FindUser("erin"); wr_u[5] = FindUser("frank");
  for (i = 0; i < 3; i++) {
    char b[20]; strcpy(b, wr_cn[i]);
    wr_ch[i] = get_channel(wr_u[0], b, CGT_CREATE);
    wr_ch[i]->creationtime = 1650000000;
  }
  for (i = 0; i < WR_U; i++) wr_join(i);
  /* keep the channels alive */
  for (i = 0; i < 3; i++) if (!wr_mem(wr_u[3], wr_ch[i])) add_user_to_channel(wr_ch[i], wr_u[3], 0, MAXOPLEVEL);
  wh_clear();
}
/* random member status: op, voice, zombie, delayed, levels */
static void wr_status(struct Membership *m, int zombies)
{
  m->status &= ~(0x40000u | 0x13u | 0x10000u);
  if (wl_chance(2)) m->status |= 1;
  if (wl_chance(3)) m->status |= 2;
  if (zombies && m->user != wr_u[3] && wl_chance(5)) m->status |= 0x10;
  m->oplevel = wl_chance(2) ? MAXOPLEVEL : wl_chance(2) ? wl_below(4) : MAXOPLEVEL - wl_below(2);
}
static void wr_flags(struct Client *c)
{
  ClrFlag(c, FLAG_ACCOUNT); ClrFlag(c, FLAG_CHSERV); ClrFlag(c, FLAG_OPER); ClrFlag(c, FLAG_LOCOP); ClrFlag(c, FLAG_TLS);
  ClrFlag(c, FLAG_BLOCK_UNAUTH_USERS); ClrFlag(c, FLAG_COMMONCHANS); ClrFlag(c, FLAG_HIDDENHOST); ClrFlag(c, FLAG_INVISIBLE); ClrFlag(c, FLAG_DEAF);
  if (wl_chance(3)) SetFlag(c, FLAG_ACCOUNT);
  if (wl_chance(3)) SetFlag(c, FLAG_TLS);
  if (wl_chance(8)) SetFlag(c, FLAG_CHSERV);
  if (wl_chance(6)) SetFlag(c, wl_chance(2) || !MyConnect(c) ? FLAG_OPER : FLAG_LOCOP);
  if (MyConnect(c)) { memset(&cli_connect(c)->con_privs, 0, sizeof cli_connect(c)->con_privs); cli_handler(c) = HasFlag(c, FLAG_OPER) || HasFlag(c, FLAG_LOCOP) ? OPER_HANDLER : CLIENT_HANDLER; }
}
static char *wr_say(struct Client *c)
{
  static char b[4][120]; static int k; char *o = b[k = (k + 1) & 3];
  snprintf(o, 120, "%s%s%s%s%s", cli_name(c), HasFlag(c, FLAG_ACCOUNT) ? " account" : "", HasFlag(c, FLAG_OPER) ? " oper" : HasFlag(c, FLAG_LOCOP) ? " locop" : "", HasFlag(c, FLAG_CHSERV) ? " service" : "", HasFlag(c, FLAG_TLS) ? " tls" : "");
  return o;
}
static char *wr_saym(struct Membership *m)
{
  static char b[4][120]; static int k; char *o = b[k = (k + 1) & 3];
  if (!m) return "not there";
  snprintf(o, 120, "there%s%s%s%s level %d", m->status & 1 ? " op" : "", m->status & 2 ? " voice" : "", m->status & 0x10 ? " kicked" : "", m->status & 0x40000 ? " hidden" : "", m->oplevel);
  return o;
}
#endif
