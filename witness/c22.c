/* C22 replay: invitations between users in random states */
#include "wr.h"
static int invited(struct Client *c, struct Channel *ch)
{
  struct SLink *l;
  for (l = cli_user(c)->invited; l; l = l->next) if (l->value.chptr == ch) return 1;
  return 0;
}
static void sc(unsigned s)
{
  int i, j;
  wr_setup();
  for (i = 0; i < 25; i++) {
    int f = wl_below(6), t = wl_below(6), k = wl_below(3), want, got, sil = 0, lim = 0, refuse, ts = 0, none = wl_chance(10); struct Membership *m, *fm, *tm; struct Channel *ch = wr_ch[k]; char why[500], pat[200], *o; long cts = 0;
    struct Client *c = wr_u[f], *d = wr_u[t];
    if (f >= 4 && t >= 4) t = wl_below(4), d = wr_u[t];
    if (f >= 4 && k == 2 && !wl_chance(4)) k = 0, ch = wr_ch[0];
    for (j = 0; j < 6; j++) { wr_join(j); wr_flags(wr_u[j]); }
    for (m = ch->members; m; m = m->next_member) wr_status(m, 1);
    if (!MyConnect(d) || t != 3) { if (wl_chance(2) && wr_mem(d, ch)) remove_user_from_channel(d, ch); }
    if (wl_chance(5) && f != 3 && wr_mem(c, ch)) remove_user_from_channel(c, ch);
    if (wl_chance(3)) SetFlag(d, FLAG_BLOCK_UNAUTH_USERS);
    while (cli_user(d)->silence) { struct Ban *b = cli_user(d)->silence; cli_user(d)->silence = b->next; b->next = 0; free_ban(b); }
    if (wl_chance(5)) { char bm[60]; sprintf(bm, "*!%s@*", cli_user(c)->username); cli_user(d)->silence = make_ban(bm); sil = 1; }
    while (cli_user(d)->invited) del_invite(d, cli_user(d)->invited->value.chptr);
    if (MyConnect(c)) {
      cli_nexttarget(c) = 0; memset(cli_targets(c), 0, MAXTARGETS);
      if (wl_chance(6)) { unsigned char h = ((uintptr_t)d >> 16) + ((uintptr_t)d >> 8); if (h) { cli_nexttarget(c) = CurrentTime + 4000; lim = 1; } }
    }
    fm = wr_live(c, ch); tm = wr_live(d, ch);
    refuse = sil || (HasFlag(d, FLAG_BLOCK_UNAUTH_USERS) && c != d && !HasFlag(c, FLAG_ACCOUNT) && !HasFlag(c, FLAG_CHSERV) && !HasFlag(c, FLAG_OPER) && !(MyConnect(c) && HasFlag(c, FLAG_LOCOP)));
    if (f < 4) want = !none && !refuse && fm && (fm->status & 1) && !tm && !lim;
    else {
      ts = !wl_chance(4); cts = (long)ch->creationtime - 3 + (long)wl_below(7);
      want = !none && k != 2 && !(ts && cts > ch->creationtime) && (HasFlag(c, FLAG_CHSERV) || fm) && !tm && !refuse;
    }
    snprintf(why, sizeof why, "INVITE of %s%s%s (%s) to %s by %s (%s)%s, TS %ld", wr_say(d), HasFlag(d, FLAG_BLOCK_UNAUTH_USERS) ? " +R" : "", sil ? " silencing" : "", wr_saym(wr_mem(d, ch)), wr_cn[k], wr_say(c), wr_saym(wr_mem(c, ch)), lim ? " over the target limit" : "", ts ? cts - (long)ch->creationtime : 0);
    wh_clear();
    if (f < 4) wh_send(c, "INVITE %s %s", cli_name(d), none ? "#none" : wr_cn[k]);
    else if (ts) wh_send(wr_S, "AC%s I %s %s %ld", cli_yxx(c), cli_name(d), none ? "#none" : wr_cn[k], cts);
    else wh_send(wr_S, "AC%s I %s %s", cli_yxx(c), cli_name(d), none ? "#none" : wr_cn[k]);
    if (MyConnect(d)) {
      got = invited(d, ch);
      if (got != (want != 0)) wl_witness("%s: should %sbe invited, %s", why, want ? "" : "not ", got ? "was" : "was not");
      sprintf(pat, " INVITE %s %s\r", cli_name(d), wr_cn[k]); o = wh_out(d);
    } else { sprintf(pat, " I %s %s ", cli_name(d), wr_cn[k]); o = wh_out(wr_S); want = want && k != 2; }
    if ((strstr(o, pat) != 0) != (want != 0)) wl_witness("%s: should %sbe told, was sent %s", why, want ? "" : "not ", wl_quote(o));
  }
}
int main(int argc, char **argv) { return wh_run(argc, argv, sc, 250, 14); }
