/* C31 replay: the fan-out functions on random networks, with what every connection gets counted */
#include "wr.h"
#include "ircd/send.c"
static struct Client *all[7], *hub[2];
static int count(const char *o, const char *pat) { int n = 0; while ((o = strstr(o, pat))) { n++; o += strlen(pat); } return n; }
static int caps(struct Client *c, capset_t r, capset_t f) { return (!r || (cli_active(c) & r)) && !(cli_active(c) & f); }
static int skipped(struct Membership *m, unsigned skip)
{
  if (m->status & 0x10) return 1;
  if ((skip & 1) && HasFlag(m->user, FLAG_DEAF)) return 1;
  if ((skip & 4) && !(m->status & 1)) return 1;
  if ((skip & 8) && !(m->status & 3)) return 1;
  return 0;
}
static int shares(struct Client *a, struct Client *b)
{
  int k; struct Membership *m;
  for (k = 0; k < 3; k++) if ((m = wr_mem(a, wr_ch[k])) && !(m->status & 0x40010) && wr_mem(b, wr_ch[k])) return 1;
  return 0;
}
static void sc(unsigned s)
{
  static const char *fn[9] = { "channel_butone", "channel_servers_butone", "channel_butserv_butone", "capflag_channel_butserv_butone", "common_channels_butone", "capflag_common_channels_butone", "serv_butone", "one", "sendwallto_group_butone" };
  int i, j;
  wr_setup();
  wh_send(wr_S2, "AD N gina 1 1600000000 gi gi.host.org AKAQIF ADAAA :Gina");
  for (i = 0; i < 6; i++) all[i] = wr_u[i];
  all[6] = FindUser("gina"); hub[0] = wr_S; hub[1] = wr_S2;
  if (!all[6]) return;
  for (j = 0; j < 2; j++) if (wl_chance(2)) add_user_to_channel(wr_ch[j], all[6], 0, MAXOPLEVEL);
  for (i = 0; i < 40; i++) {
    int w = wl_below(9), f = wl_below(7), k = wl_below(3), o = wl_below(9) - 2, wrap = wl_chance(3), x, type = wl_below(3), his = 0; unsigned skip = wl_chance(2) ? 0 : (wl_chance(2) ? 1 : 0) | (wl_chance(3) ? 4 : 0) | (wl_chance(3) ? 8 : 0); capset_t r = 0, fb = 0;
    struct Membership *m; struct Client *from = all[f], *one = o < 0 ? 0 : o < 7 ? all[o] : hub[wl_below(2)]; struct Channel *ch; char text[20], upat[60], spat[60];
    for (j = 0; j < 6; j++) wr_join(j);
    for (j = 0; j < 7; j++) { wr_flags(all[j]); if (wl_chance(3)) SetFlag(all[j], FLAG_DEAF); ClrFlag(all[j], FLAG_WALLOP); ClrFlag(all[j], FLAG_DEBUG); if (wl_chance(2)) SetFlag(all[j], FLAG_WALLOP); if (wl_chance(2)) SetFlag(all[j], FLAG_DEBUG); }
    for (j = 0; j < 3; j++) for (m = wr_ch[j]->members; m; m = m->next_member) { wr_status(m, !MyConnect(m->user)); if (wl_chance(6)) m->status |= 0x40000; }
    for (j = 0; j < 4; j++) cli_active(all[j]) = wl_below(8);
    if (w == 3 || w == 5) { r = wl_below(4); fb = wl_chance(2) ? 0 : 4; }
    if (k == 2 && w < 2 && !MyConnect(from)) k = 0;
    ch = wr_ch[k];
    if (wrap) { sentalong_marker = -1; for (j = 0; j < 4; j++) cli_sentalong(all[j]) = wl_below(3); for (j = 0; j < 2; j++) cli_sentalong(hub[j]) = wl_below(3); }
    if (wl_chance(2)) feature_set(0, (const char *[]){ "HIS_WALLOPS", "TRUE", 0 }, 2); else feature_set(0, (const char *[]){ "HIS_WALLOPS", "FALSE", 0 }, 2);
    his = feature_bool(FEAT_HIS_WALLOPS);
    sprintf(text, "zq%dqz", i); sprintf(upat, ":%s", text); strcpy(spat, upat);
    wh_clear();
    switch (w) {
    case 0: sendcmdto_channel_butone(from, CMD_PRIVATE, ch, one, skip, "%H :%s", ch, text); break;
    case 1: sendcmdto_channel_servers_butone(from, NULL, TOK_WALLCHOPS, ch, one, skip, "%H :%s", ch, text); break;
    case 2: sendcmdto_channel_butserv_butone(from, CMD_NOTICE, ch, one, skip, "%H :%s", ch, text); break;
    case 3: sendcmdto_capflag_channel_butserv_butone(from, CMD_NOTICE, ch, one, skip, r, fb, "%H :%s", ch, text); break;
    case 4: sendcmdto_common_channels_butone(from, CMD_NICK, one, ":%s", text); break;
    case 5: sendcmdto_capflag_common_channels_butone(from, CMD_NICK, one, r, fb, ":%s", text); break;
    case 6: sendcmdto_serv_butone(from, CMD_ACCOUNT, one, ":%s", text); break;
    case 7: sendcmdto_one(from, CMD_NOTICE, one ? one : from, "x :%s", text); break;
    case 8: sendwallto_group_butone(from, type == 0 ? WALL_DESYNCH : type == 1 ? WALL_WALLOPS : WALL_WALLUSERS, one, "%s", text); break;
    }
    for (x = 0; x < 6; x++) {
      struct Client *c = x < 4 ? all[x] : hub[x - 4]; const char *out = wh_out(c); int want = 0, got = count(out, text);
      switch (w) {
      case 0: for (m = ch->members; m; m = m->next_member) if (cli_from(m->user) == c && !skipped(m, skip) && !(one && cli_from(one) == c)) want = 1; break;
      case 1: for (m = ch->members; m; m = m->next_member) if (!MyConnect(m->user) && cli_from(m->user) == c && !skipped(m, skip & 12) && !(one && cli_from(one) == c) && cli_from(from) != c) want = 1; break;
      case 2: case 3: if ((m = wr_mem(c, ch)) && !skipped(m, skip) && c != one && caps(c, r, fb)) want = 1; if (x >= 4) want = 0; break;
      case 4: case 5: want = x < 4 && c != one && caps(c, r, fb) && (c == from || shares(from, c)); break;
      case 6: want = x >= 4 && !(one && cli_from(one) == c); break;
      case 7: want = cli_from(one ? one : from) == c; break;
      case 8: if (x >= 4) want = !(one && cli_from(one) == c); else want = type == 0 ? HasFlag(c, FLAG_DEBUG) : HasFlag(c, FLAG_WALLOP) && (type == 2 || !his || HasFlag(c, FLAG_OPER) || HasFlag(c, FLAG_LOCOP)); break;
      }
      want = want != 0;
      if (got != want) wl_witness("%s%s from %s to %s, except %s, skip %u require %x forbid %x%s: %s should get it %d times, but got %s", w == 8 ? "" : "sendcmdto_", fn[w], wr_say(from), wr_cn[k], one ? cli_name(one) : "nobody", skip, r, fb, wrap ? " when the marker counter wraps" : "", cli_name(c), want, wl_quote(out));
      if (got && x < 4 && w != 8) { char pre[40]; const char *p = strstr(out, text); while (p > out && p[-1] != '\n') p--; while (*p == '@' && strchr(p, ' ')) p = strchr(p, ' ') + 1; sprintf(pre, ":%s!", cli_name(from));
        if (strncmp(p, pre, strlen(pre))) wl_witness("sendcmdto_%s from %s: %s got a line without the source: %s", fn[w], cli_name(from), cli_name(c), wl_quote(out)); }
      if (got && x >= 4) { char pre[40]; const char *p = strstr(out, text); while (p > out && p[-1] != '\n') p--; while (*p == '@' && strchr(p, ' ')) p = strchr(p, ' ') + 1; sprintf(pre, "%s%s ", cli_yxx(cli_user(from)->server), cli_yxx(from));
        if (strncmp(p, pre, strlen(pre))) wl_witness("sendcmdto_%s from %s: %s got a line without the source: %s", fn[w], cli_name(from), cli_name(c), wl_quote(out)); }
    }
  }
}
int main(int argc, char **argv) { return wh_run(argc, argv, sc, 250, 14); }
