/* C09 replay: local users in random states joining channels in random states */
#include "wr.h"
static const char *word[5] = { "", "sesame", "overlord", "OVERRIDE", "xyzzy" };
static int count(const char *h, const char *n) { int k = 0; for (; (h = strstr(h, n)); h++) k++; return k; }
static void sc(unsigned s)
{
  int i, j;
  wr_setup();
  feature_set(0, (const char *[]){ "MAXCHANNELSPERUSER", wl_chance(2) ? "3" : "10" }, 2);
  feature_set(0, (const char *[]){ "JOIN_TARGET", wl_chance(2) ? "TRUE" : "FALSE" }, 2);
  feature_set(0, (const char *[]){ "LOCAL_CHANNELS", wl_chance(3) ? "FALSE" : "TRUE" }, 2);
  for (i = 0; i < 30; i++) {
    int f = wl_below(3), k = wl_below(3), inv, lim = 0, bad = 0, ban = 0, want, got, op = 0, mgr = 0, pos = wl_below(3), kidx = wl_below(5), ovr = 0, isnew = wl_chance(6), full, hid; unsigned md = 0;
    struct Client *c = wr_u[f]; struct Channel *ch = wr_ch[k]; struct Membership *m; const char *key = word[kidx], *name = wr_cn[k]; char why[700], line[400], nn[260], *o, pat[300]; struct Gline *g;
    unsigned long chk;
    for (j = 0; j < 6; j++) { if (j != f) wr_join(j); wr_flags(wr_u[j]); }
    for (j = 0; j < 3; j++) for (m = wr_ch[j]->members; m; m = m->next_member) wr_status(m, 1);
    for (j = 0; j < 3; j++) if (j != k && wl_chance(3) && wr_mem(c, wr_ch[j])) remove_user_from_channel(c, wr_ch[j]);
    if (!wl_chance(6) && wr_mem(c, ch)) remove_user_from_channel(c, ch);
    if (HasFlag(c, FLAG_LOCOP) || HasFlag(c, FLAG_OPER)) { if (wl_chance(2)) SetPriv(c, PRIV_WALK_LCHAN); if (wl_chance(2)) SetPriv(c, PRIV_CHAN_LIMIT); }
    if (wl_chance(4)) md |= 0x40; if (wl_chance(4)) md |= 0x800; if (wl_chance(4)) md |= 0x2000000; if (wl_chance(4)) md |= 0x1000;
    ch->mode.mode = md; ch->mode.limit = wl_chance(3) ? 1 + wl_below(7) : 0;
    strcpy(ch->mode.key, wl_chance(3) ? word[1 + wl_below(3)] : ""); strcpy(ch->mode.apass, wl_chance(4) ? word[1 + wl_below(4)] : ""); strcpy(ch->mode.upass, *ch->mode.apass && wl_chance(2) ? word[1 + wl_below(4)] : "");
    strcpy(ch->topic, wl_chance(2) ? "hello there" : "");
    while (ch->banlist) { struct Ban *b = ch->banlist; ch->banlist = b->next; b->next = 0; free_ban(b); }
    if (wl_chance(4)) { char bm[50]; sprintf(bm, "*!%s@*", cli_user(c)->username); ch->banlist = make_ban(bm); ban = 1; }
    while (cli_user(c)->invited) del_invite(c, cli_user(c)->invited->value.chptr);
    if ((inv = wl_chance(5))) add_invite(c, ch);
    cli_nexttarget(c) = 0; memset(cli_targets(c), 0, MAXTARGETS);
    if (isnew) { static int fresh; j = wl_below(3); if (j == 2) { memset(nn, 'n', 250); nn[199 + wl_below(4)] = 0; } else sprintf(nn, "#n%d", ++fresh); nn[0] = j == 1 ? '&' : '#'; name = nn; ch = 0; }
    if (wl_chance(6)) { if (ch) { unsigned char h = ((uintptr_t)ch >> 16) + ((uintptr_t)ch >> 8); if (h) lim = 1; } else lim = 1; if (lim) cli_nexttarget(c) = CurrentTime + 4000; }
    if (wl_chance(8)) {
      char gn[260]; strcpy(gn, name);
      if (!gline_find(gn, GLINE_BADCHAN | GLINE_EXACT)) { char *up[1] = { gn }; (void)up; wh_send(wr_S, "AC GL * +%s 3600 1700000000 1700003600 :bad", name); }
    }
    { char gn[260]; strcpy(gn, name); g = gline_find(gn, GLINE_BADCHAN | GLINE_EXACT); if (g && wl_chance(2)) g->gl_flags &= ~GLINE_ACTIVE; else if (g) g->gl_flags |= GLINE_ACTIVE; bad = g && (g->gl_flags & GLINE_ACTIVE); }
    m = ch ? wr_mem(c, ch) : 0;
    full = cli_user(c)->joined >= feature_int(FEAT_MAXCHANNELSPERUSER) && !HasPriv(c, PRIV_CHAN_LIMIT);
    want = !full && !(bad && !HasFlag(c, FLAG_OPER) && !HasFlag(c, FLAG_LOCOP)) && !m;
    /* an invitation lifts the target limit */
    if (ch && inv) lim = 0;
    if (lim && feature_bool(FEAT_JOIN_TARGET)) want = 0;
    if (!ch) { want = want && strlen(name) <= feature_int(FEAT_CHANNELLEN) && (*name != '&' || feature_bool(FEAT_LOCAL_CHANNELS)); op = mgr = 1; }
    else {
      int open = inv || (!(md & 0x40) && !(ch->mode.limit && ch->users >= ch->mode.limit) && !((md & 0x800) && !HasFlag(c, FLAG_ACCOUNT)) && !ban && !(*ch->mode.key && strcmp(key, ch->mode.key)) && !((md & 0x2000000) && !HasFlag(c, FLAG_TLS)));
      if (*key && !strcmp(key, ch->mode.apass)) op = mgr = 1; else if (*key && !strcmp(key, ch->mode.upass)) op = 1;
      ovr = k == 2 && HasPriv(c, PRIV_WALK_LCHAN) && !strcmp(key, "OVERRIDE");
      if (!op) { if (ovr) want = want && (!open || !strcmp(ch->mode.key, "OVERRIDE")); else want = want && open; }
    }
    hid = ch && (md & 0x1000) && !op;
    snprintf(why, sizeof why, "JOIN %.30s%s%s by %s (%s)%s%s%s%s%s; channel mode %x limit %u users %u key '%s' upass '%s' apass '%s'", name, *key ? " with key " : "", key, wr_say(c), wr_saym(m), inv ? " invited" : "", ban ? " banned" : "", lim ? " over the target limit" : "", bad ? " BADCHAN" : "", full ? " on too many channels" : "", md, ch ? ch->mode.limit : 0, ch ? ch->users : 0, ch ? ch->mode.key : "", ch ? ch->mode.upass : "", ch ? ch->mode.apass : "");
    chk = ch ? ch->users : 0;
    wh_clear();
    if (pos == 0) sprintf(line, "JOIN %s%s%s", name, *key ? " " : "", key);
    else if (pos == 1) sprintf(line, "JOIN #\007x,%s wrong,%s", name, key);
    else sprintf(line, "JOIN nochan,&\001,%s ,zzz,%s,rest", name, key);
    wh_send(c, "%s", line);
    { char gn[260]; strcpy(gn, name); ch = FindChannel(gn); }
    got = ch && wr_mem(c, ch) && !m;
    if (got != (want != 0)) wl_witness("%s [%s]: should %sget in, %s", why, wl_quote(line), want ? "" : "not ", got ? "did" : "did not");
    o = wh_out(c);
    if (!got) {
      if (strstr(o, " 353 ") || strstr(o, " 332 ")) wl_witness("%s: refused, but shown %s", why, wl_quote(o));
      if (inv && !m && !isnew) { struct SLink *l; for (l = cli_user(c)->invited; l; l = l->next) if (l->value.chptr == ch) break; if (!l) wl_witness("%s: the invitation is gone though the join was refused", why); }
    } else {
      struct SLink *l; struct Membership *nm = wr_mem(c, ch); unsigned bits = (op ? 1 : 0) | (mgr ? 0x10000 : 0) | (hid ? 0x40000 : 0), st = nm->status & 0x50003;
      if (st != bits) wl_witness("%s: joined with status %x", why, nm->status);
      if (*ch->mode.apass && nm->oplevel != (mgr ? 0 : 1)) wl_witness("%s: joined with op level %d", why, nm->oplevel);
      if (!isnew && ch->users != chk + 1) wl_witness("%s: the channel's member count went from %lu to %u", why, chk, ch->users);
      for (l = cli_user(c)->invited; l; l = l->next) if (l->value.chptr == ch) wl_witness("%s: the invitation is still there", why);
      if (ch->topic[0] && !strstr(o, " 332 ")) wl_witness("%s: got in but not shown the topic", why);
      sprintf(pat, isnew ? " C %s " : " J %s ", name); o = wh_out(wr_S2);
      if (count(o, pat) != (*name != '&')) wl_witness("%s: got in, other servers saw %s", why, wl_quote(o));
      if (!isnew) for (j = 0; j < 4; j++) if (j != f && wr_live(wr_u[j], ch)) {
        sprintf(pat, " JOIN "); o = wh_out(wr_u[j]);
        if (count(o, pat) != !hid) wl_witness("%s: member %s saw %s", why, cli_name(wr_u[j]), wl_quote(o));
      }
      if (isnew) remove_user_from_channel(c, ch);
    }
  }
}
int main(int argc, char **argv) { return wh_run(argc, argv, sc, 250, 14); }
