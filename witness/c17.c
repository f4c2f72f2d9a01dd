/* C17 replay: what WHOIS, NAMES, LIST, WHO and MODE show of channels and hosts */
#include "wr.h"
#include "ircd_string.h"
static struct Client *asker;
static int globop, anop;
static int sees(struct Channel *ch) { return !(ch->mode.mode & (MODE_SECRET | MODE_PRIVATE)) || wr_live(asker, ch); }
static struct Channel *chan_in(const char *t)
{
  int k;
  while (*t && *t != '#' && *t != '&') t++;
  for (k = 0; k < 3; k++) if (!strncmp(t, wr_cn[k], strlen(wr_cn[k])) && !isalnum((unsigned char)t[strlen(wr_cn[k])])) return wr_ch[k];
  return 0;
}
static void line(const char *why, char *l)
{
  char *w[64], *p, copy[1024]; int n = 0, k, num; struct Channel *ch;
  snprintf(copy, sizeof copy, "%s", l);
  for (k = 0; k < 3; k++) {
    char key[20]; struct Membership *m = wr_live(asker, wr_ch[k]);
    snprintf(key, sizeof key, "KEY%s", wr_cn[k] + 1); if (strstr(l, key) && !(m && (m->status & 1))) wl_witness("%s: told the key of %s: %s", why, wr_cn[k], l);
    snprintf(key, sizeof key, "APASS%s", wr_cn[k] + 1); if (strstr(l, key)) wl_witness("%s: told the Apass of %s: %s", why, wr_cn[k], l);
    snprintf(key, sizeof key, "UPASS%s", wr_cn[k] + 1); if (strstr(l, key) && !(m && (m->status & 1) && m->oplevel == 0)) wl_witness("%s: told the Upass of %s: %s", why, wr_cn[k], l);
  }
  for (k = 0; k < WR_U; k++) {
    struct Client *c = wr_u[k]; char ip[40];
    if (c == asker || anop || !HasHiddenHost(c)) continue;
    strcpy(ip, ircd_ntoa(&cli_ip(c)));
    if (strstr(l, cli_user(c)->realhost) && !strstr(why, cli_user(c)->realhost)) wl_witness("%s: told the hidden host of %s: %s", why, cli_name(c), l);
    if (k < 4 && cli_ip(asker).in6_16[7] != cli_ip(c).in6_16[7] && strstr(l, cli_name(c)) && (p = strstr(l, ip)) && !isdigit((unsigned char)p[strlen(ip)]) && !strstr(why, ip)) wl_witness("%s: told the hidden address of %s: %s", why, cli_name(c), l);
  }
  for (p = strtok(copy, " \r\n"); p && n < 64; p = strtok(0, " \r\n")) w[n++] = p;
  if (n < 4) return;
  num = atoi(w[1]);
  if (num == 319) {
    struct Client *t = FindUser(w[3]);
    for (k = 4; k < n; k++) {
      ch = chan_in(w[k]);
      if (ch && !sees(ch) && !(globop && ch->chname[0] == '&')) wl_witness("%s: %s shown as on %s", why, w[3], ch->chname);
      if (ch && t && t != asker && !wr_live(t, ch)) wl_witness("%s: %s shown as on %s, though kicked", why, w[3], ch->chname);
    }
  } else if (num == 353 && n > 5) {
    ch = *w[4] == '*' ? 0 : chan_in(w[4]);
    if (ch && !sees(ch)) wl_witness("%s: members of %s shown", why, ch->chname);
    for (k = 5; k < n; k++) {
      char *nk = w[k]; struct Client *t; struct Membership *m;
      while (*nk == ':' || *nk == '@' || *nk == '+' || *nk == '!') nk++;
      if (!*nk || !(t = FindUser(nk))) continue;
      if (t == asker) continue;
      m = ch ? wr_mem(t, ch) : 0;
      if (m && (m->status & 0x10)) wl_witness("%s: %s shown on %s, though kicked", why, nk, ch->chname);
      if (m && (m->status & 0x40000)) wl_witness("%s: %s shown on %s, though his join is hidden", why, nk, ch->chname);
      if (ch && !m) wl_witness("%s: %s shown on %s, where he is not", why, nk, ch->chname);
      if (HasFlag(t, FLAG_INVISIBLE) && !(ch && wr_live(asker, ch))) wl_witness("%s: invisible %s shown", why, nk);
    }
  } else if (num == 322) {
    ch = chan_in(w[3]);
    if (ch && !sees(ch) && !(anop && HasPriv(asker, PRIV_LIST_CHAN))) wl_witness("%s: %s listed", why, ch->chname);
  } else if (num == 352 || num == 354) {
    ch = chan_in(w[3]);
    if (ch && (ch->mode.mode & MODE_SECRET) && !wr_live(asker, ch) && !(anop && HasPriv(asker, PRIV_WHOX) && HasPriv(asker, PRIV_SEE_CHAN))) wl_witness("%s: someone shown on %s: %s", why, ch->chname, l);
    if (ch && (ch->mode.mode & MODE_PRIVATE) && !wr_live(asker, ch) && (strncmp(why, "WHO ", 4) || strncmp(why + 4, ch->chname, strlen(ch->chname))) && !HasPriv(asker, PRIV_SEE_CHAN)) wl_witness("%s: someone shown on %s: %s", why, ch->chname, l);
    if (num == 352 && n > 7 && strstr(why, " h by") && strstr(why, ".host.org")) {
      struct Client *t = FindUser(w[7]);
      if (t && t != asker && !anop && HasHiddenHost(t)) wl_witness("%s: found %s by his hidden host", why, w[7]);
    }
    if (num == 352 && n > 7 && strstr(why, " i by")) {
      struct Client *t = FindUser(w[7]);
      if (t && t != asker && !anop && HasHiddenHost(t)) wl_witness("%s: found %s by his hidden address", why, w[7]);
    }
  }
}
static void sc(unsigned s)
{
  int i, j;
  wr_setup();
  for (i = 0; i < 30; i++) {
    char cmd[200], why[500], *o, *e; struct Membership *m; struct Client *t = wr_u[wl_below(6)]; const char *cn = wr_cn[wl_below(3)];
    asker = wr_u[wl_below(4)];
    for (j = 0; j < 6; j++) {
      struct Client *c = wr_u[j];
      wr_join(j); wr_flags(c); if (wl_chance(3)) SetFlag(c, FLAG_INVISIBLE);
      if (c == asker) ClrFlag(c, FLAG_CHSERV);
      sprintf(cli_user(c)->realhost, "%s.host.org", cli_name(c)); strcpy(cli_user(c)->host, cli_user(c)->realhost);
      if (wl_chance(2)) { SetFlag(c, FLAG_HIDDENHOST); SetFlag(c, FLAG_ACCOUNT); sprintf(cli_user(c)->account, "acc%d", j); sprintf(cli_user(c)->host, "acc%d.users.net", j); }
    }
    if (HasFlag(asker, FLAG_OPER) || HasFlag(asker, FLAG_LOCOP)) for (j = 0; j < PRIV_LAST_PRIV; j++) if (wl_chance(2)) SetPriv(asker, j);
    for (j = 0; j < 3; j++) {
      struct Channel *ch = wr_ch[j]; unsigned md = 0;
      for (m = ch->members; m; m = m->next_member) { wr_status(m, !MyConnect(m->user)); if (MyConnect(m->user)) m->status &= ~0x10u; if (m->user != wr_u[3] && wl_chance(6)) m->status |= 0x40000; }
      if (wl_chance(2)) md |= wl_chance(2) ? MODE_SECRET : MODE_PRIVATE; if (wl_chance(3)) md |= 8;
      if (!(md & MODE_SECRET) && wl_chance(2)) ; 
      ch->mode.mode = md;
      sprintf(ch->mode.key, wl_chance(2) ? "KEY%s" : "", ch->chname + 1); sprintf(ch->mode.apass, wl_chance(2) ? "APASS%s" : "", ch->chname + 1); sprintf(ch->mode.upass, wl_chance(2) ? "UPASS%s" : "", ch->chname + 1);
    }
    for (j = 0; j < 2; j++) { struct Channel *ch = wr_ch[wl_below(3)]; if (asker != wr_u[3] && wr_mem(asker, ch)) remove_user_from_channel(asker, ch); }
    globop = !!HasFlag(asker, FLAG_OPER); anop = globop || HasFlag(asker, FLAG_LOCOP);
    switch (wl_below(14)) {
    case 0: sprintf(cmd, "WHOIS %s", cli_name(t)); break;
    case 1: sprintf(cmd, "WHOIS %s %s", cli_name(t), cli_name(t)); break;
    case 2: sprintf(cmd, "WHOIS *"); break;
    case 3: sprintf(cmd, "NAMES 0"); break;
    case 4: sprintf(cmd, "NAMES %s", cn); break;
    case 5: sprintf(cmd, "LIST%s", wl_chance(2) ? "" : wl_chance(2) ? " S" : " S,M"); break;
    case 6: sprintf(cmd, "LIST %s", cn); break;
    case 7: sprintf(cmd, "LIST M"); break;
    case 8: sprintf(cmd, "WHO %s%s", cn, wl_chance(2) ? " x" : ""); break;
    case 9: sprintf(cmd, "WHO *%s", wl_chance(2) ? " x" : wl_chance(2) ? " n%cnuhif" : ""); break;
    case 10: sprintf(cmd, "WHO %s%s", cli_name(t), wl_chance(2) ? " %cinuhf" : ""); break;
    case 11: sprintf(cmd, "WHO %s* h", wl_chance(2) ? "*.host.or" : cli_user(t)->realhost); break;
    case 12: sprintf(cmd, "WHO 10.1.2.* i"); break;
    default: sprintf(cmd, "MODE %s", cn); break;
    }
    snprintf(why, sizeof why, "%s by %s; #a %x, #b %x, &loc %x", cmd, wr_say(asker), wr_ch[0]->mode.mode, wr_ch[1]->mode.mode, wr_ch[2]->mode.mode);
    wh_clear();
    wh_send(asker, "%s", cmd);
    for (j = 0; j < 4 && cli_listing(asker); j++) list_next_channels(asker);
    o = wh_out(asker);
    for (; *o; o = e) { e = strchr(o, '\n'); if (e) *e++ = 0; else e = o + strlen(o); line(why, o); }
  }
}
int main(int argc, char **argv) { return wh_run(argc, argv, sc, 250, 14); }
