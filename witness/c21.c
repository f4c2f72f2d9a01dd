/* C21 replay: topics set and asked for by users in random states */
#include "wr.h"
static void sc(unsigned s)
{
  int i, j;
  wr_setup();
  for (i = 0; i < 25; i++) {
    int f = wl_below(6), k = wl_below(3), want = 1, ask = wl_chance(3), got; struct Membership *m, *l; struct Channel *ch = wr_ch[k]; char why[500], old[TOPICLEN + 1], new[200], *o, pat[200]; unsigned md = 0; time_t ots;
    struct Client *c = wr_u[f]; long cts = 0, tts = 0; int nts = 0, ban = 0, form = wl_below(2), k2 = wl_below(2);
    if (f >= 4 && k == 2) k = 0, ch = wr_ch[0];
    for (j = 0; j < 6; j++) { wr_join(j); wr_flags(wr_u[j]); }
    for (m = ch->members; m; m = m->next_member) { wr_status(m, 1); m->status &= ~0x1800u; if (wl_chance(8)) m->status |= 0x40000; }
    if (MyConnect(c) && wl_chance(3) && (m = wr_mem(c, ch)) && f != 3) remove_user_from_channel(c, ch);
    m = wr_live(c, ch);
    if (wl_chance(2)) md |= 0x20; if (wl_chance(3)) md |= 0x10; if (wl_chance(3)) md |= 8; if (wl_chance(4)) md |= 0x800; if (wl_chance(4)) md |= 0x2000000; if (wl_chance(4)) md |= 0x1000000;
    ch->mode.mode = md;
    while (ch->banlist) { struct Ban *b = ch->banlist; ch->banlist = b->next; b->next = 0; free_ban(b); }
    if (wl_chance(4)) { char bm[50]; sprintf(bm, "*!%s@*", cli_user(c)->username); ch->banlist = make_ban(bm); ban = 1; }
    for (l = ch->members; l; l = l->next_member) ClearBanValid(l);
    strcpy(old, ch->topic); ots = ch->topic_time;
    if (f < 4) {
      if (!ask) {
        want = m && (!(md & 0x20) || (m->status & 1));
        if (want && !(m->status & 3)) want = !(md & 0x10) && !((md & 0x1000800) && !HasFlag(c, FLAG_ACCOUNT)) && !((md & 0x2000000) && !HasFlag(c, FLAG_TLS)) && !ban;
      } else want = (!(md & 8) || m) && old[0];
    } else {
      ask = 0; nts = wl_below(3); cts = ch->creationtime - 5 + (long)wl_below(11); tts = ots - 5 + (long)wl_below(11);
      if (nts >= 1 && ch->creationtime < cts) want = 0;
      if (nts >= 2 && tts > 0 && ots > tts) want = 0;
      if (nts >= 2 && tts <= 0) tts = 1, want = want && !(ots > 1);
    }
    sprintf(new, "topic number %d", i);
    snprintf(why, sizeof why, "TOPIC %s%s%s by %s (%s)%s, channel mode %x, channel TS %ld topic TS %ld, sent %ld %ld (%d)", wr_cn[k], form ? "," : "", form ? wr_cn[k2] : "", wr_say(c), wr_saym(m), ban ? " banned" : "", md, (long)ch->creationtime, (long)ots, cts, tts, nts);
    wh_clear();
    if (f < 4 && ask) wh_send(c, form ? "TOPIC #none,%s" : "TOPIC %s", wr_cn[k]);
    else if (f < 4) wh_send(c, form ? "TOPIC #none,%s :%s" : "TOPIC %s :%s", wr_cn[k], new);
    else if (nts == 0) wh_send(wr_S, "AC%s T %s :%s", cli_yxx(c), wr_cn[k], new);
    else if (nts == 1) wh_send(wr_S, "AC%s T %s %ld :%s", cli_yxx(c), wr_cn[k], cts, new);
    else wh_send(wr_S, "AC%s T %s %ld %ld :%s", cli_yxx(c), wr_cn[k], cts, tts, new);
    got = strcmp(ch->topic, old) != 0;
    if (ask) {
      sprintf(pat, " 332 %s %s :", cli_name(c), wr_cn[k]); o = wh_out(c);
      if ((strstr(o, pat) != 0) != (want != 0) || got) wl_witness("%s: the topic should %sbe shown, the answer was %s", why, want ? "" : "not ", wl_quote(o));
      continue;
    }
    if (got != (want != 0)) wl_witness("%s: the topic should %sbe set, it %s", why, want ? "" : "not ", got ? "was" : "was not");
    if (got && strcmp(ch->topic, new)) wl_witness("%s: topic became %s", why, wl_quote(ch->topic));
    o = wh_out(wr_S2); sprintf(pat, " T %s ", wr_cn[k]);
    if ((strstr(o, pat) != 0) != (got && k != 2)) wl_witness("%s: topic %s, other servers saw %s", why, got ? "set" : "not set", wl_quote(o));
    if (got && (nts < 2 ? ch->topic_time < ots : ch->topic_time != tts)) wl_witness("%s: topic time went from %ld to %ld", why, (long)ots, (long)ch->topic_time);
    for (j = 0; j < 4; j++) if (wr_live(wr_u[j], ch)) {
      o = wh_out(wr_u[j]); sprintf(pat, " TOPIC %s :%s\r", wr_cn[k], new);
      if ((strstr(o, pat) != 0) != got) wl_witness("%s: topic %s, but member %s saw %s", why, got ? "set" : "not set", cli_name(wr_u[j]), wl_quote(o));
    }
  }
}
int main(int argc, char **argv) { return wh_run(argc, argv, sc, 250, 14); }
