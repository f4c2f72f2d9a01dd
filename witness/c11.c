/* C11/C12 replay: channel MODEs from all kinds of sources through the real parser, against a model of what they may do */
#include "wr.h"
struct snap { unsigned mode, limit; char key[30], up[30], ap[30]; int nb; char ban[30][120]; unsigned st[WR_U]; int lv[WR_U], in[WR_U]; };
static void snap(struct snap *s, struct Channel *ch)
{
  struct Ban *b; struct Membership *m; int i;
  memset(s, 0, sizeof *s);
  s->mode = ch->mode.mode & ~0x6400000u; s->limit = ch->mode.limit;
  strcpy(s->key, ch->mode.key); strcpy(s->up, ch->mode.upass); strcpy(s->ap, ch->mode.apass);
  for (b = ch->banlist; b && s->nb < 30; b = b->next) snprintf(s->ban[s->nb++], 120, "%s", b->banstr);
  for (i = 0; i < WR_U; i++) if ((m = wr_mem(wr_u[i], ch))) { s->in[i] = 1; s->st[i] = m->status & ~0x40000u; s->lv[i] = m->oplevel; }
}
static char *show(struct snap *s)
{
  static char b[2][900]; static int k; char *o = b[k ^= 1]; int i;
  sprintf(o, "modes %#x limit %u key '%s' upass '%s' apass '%s' bans", s->mode, s->limit, s->key, s->up, s->ap);
  for (i = 0; i < s->nb; i++) sprintf(o + strlen(o), " %s", s->ban[i]);
  strcat(o, ";");
  for (i = 0; i < WR_U; i++) if (s->in[i]) sprintf(o + strlen(o), " %s:%s%s%s%d", cli_name(wr_u[i]), s->st[i] & 1 ? "@" : "", s->st[i] & 2 ? "+" : "", s->st[i] & 0x10000 ? "!" : "", s->lv[i]);
  return o;
}
static int hasban(struct snap *s, const char *m) { int i; for (i = 0; i < s->nb; i++) if (!strcmp(s->ban[i], m)) return i + 1; return 0; }
static const char *simple = "psmtinrDcCuM";
static const unsigned bits[] = { 4, 8, 0x10, 0x20, 0x40, 0x80, 0x800, 0x1000, 0x4000, 0x8000, 0x800000, 0x1000000 };
static int clean(const char *k) { return *k && *k != ':' && strlen(k) <= 23 && !strchr(k, ','); }
static void sc(unsigned seed)
{
  int i, j;
  wr_setup();
  if (wl_chance(2)) { const char *on[2] = { "OPLEVELS", "TRUE" }; feature_set(0, on, 2); }
  for (i = 0; i < 30; i++) {
    int f = wl_below(8), k = wl_below(3), my, server = f >= 6, force, set, entitled, n, dir = 1, nargs = 0, args = 0, served = 0; struct Membership *m, *me; struct Channel *ch;
    struct snap was, want, got; unsigned add = 0, del = 0, done = 0; char letters[60] = "", params[500] = "", line[700], why[900];
    struct { unsigned flag; int cl, lv; } cc[15]; int ncc = 0; char usedban[200] = "";
    if (f >= 4) k = wl_below(2);
    if (f == 7) f = 6;
    for (j = 0; j < WR_U; j++) { wr_join(j); wr_flags(wr_u[j]); }
    ch = wr_ch[k];
    for (m = ch->members; m; m = m->next_member) { wr_status(m, 0); if ((m->status & 1) && wl_chance(4)) { m->status |= 0x10000; m->oplevel = 0; } }
    if (wl_chance(6) && f < 6 && (m = wr_mem(wr_u[f], ch))) { m->status |= 1; }
    ch->mode.mode = (wl_rnd() & 0x180d8fcu & ~0x40au) | (wl_chance(2) ? 0x2000 : 0);
    if (ch->mode.mode & 4) ch->mode.mode &= ~8u;
    ch->mode.mode &= ~0x1000u;
    ch->mode.limit = wl_chance(2) ? 1 + wl_below(5) : 0; if (ch->mode.limit) ch->mode.mode |= 0x400; else ch->mode.mode &= ~0x400u;
    strcpy(ch->mode.key, wl_chance(2) ? wl_chance(2) ? "k1" : "secret" : "");
    strcpy(ch->mode.apass, wl_chance(3) ? "ap1" : ""); strcpy(ch->mode.upass, *ch->mode.apass && wl_chance(2) ? "up1" : "");
    ch->creationtime = wl_chance(2) ? TStime() - 172800 - 100 : TStime() - 1000;
    while (ch->banlist) { struct Ban *b = ch->banlist; ch->banlist = b->next; free_ban(b); }
    for (j = 0; j < 3; j++) if (wl_chance(2)) { char mm[40]; struct Ban *b; sprintf(mm, "b%d!*@*", j); b = make_ban(mm); strcpy(b->who, "x"); b->when = 1; b->next = ch->banlist; ch->banlist = b; }
    me = f < 6 ? wr_mem(wr_u[f], ch) : 0; my = f < 4;
    if (my && wl_chance(5)) SetPriv(wr_u[f], PRIV_MODE_LCHAN);
    if (my && wl_chance(5)) SetPriv(wr_u[f], PRIV_APASS_OPMODE);
    if (MyConnect(wr_u[0]) && wl_chance(4)) SetPriv(wr_u[wl_below(4)], PRIV_DEOP_LCHAN);
    entitled = server || (me && (me->status & 1));
    force = entitled && !my;
    if (!entitled && my && k == 2 && HasPriv(wr_u[f], PRIV_MODE_LCHAN)) { entitled = 1; force = 1; }
    set = entitled;
    snap(&was, ch); want = was;
    n = 1 + wl_below(5);
    for (j = 0; j < n; j++) {
      int what = wl_below(12), lim; char p[60] = "", c; int use; unsigned fl;
#ifdef ONLY_OV
      if (what < 8) what = 11;
#endif
      if (wl_chance(2)) { dir = wl_below(2); strcat(letters, dir ? "+" : "-"); }
      if ((what == 7 || what == 8) && !feature_bool(FEAT_OPLEVELS)) what = 6;
      if (what < 5) {
        int x = wl_below(13); c = x == 12 ? 'R' : simple[x]; fl = x == 12 ? 0x2000 : bits[x];
        sprintf(letters + strlen(letters), "%c", c);
        if (c == 'D') { letters[strlen(letters) - 1] = 0; continue; }
        if (!set || (x == 12 && my && !force)) continue;
        if (dir) { add |= fl; del &= ~fl; if (fl == 8) { add &= ~4u; del |= 4; } if (fl == 4) { add &= ~8u; del |= 8; } } else { add &= ~fl; del |= fl; }
        continue;
      }
      c = what == 5 ? 'l' : what == 6 ? 'k' : what == 7 ? 'A' : what == 8 ? 'U' : what == 9 ? 'b' : what == 10 ? 'v' : 'o';
      sprintf(letters + strlen(letters), "%c", c);
      if (c == 'l' && !dir) { if (set && was.limit | want.limit) { if (want.limit && !(done & 1)) { done |= 1; want.limit = 0; want.mode &= ~0x400u; } } continue; }
      use = !(my && args >= 6);
      if (c == 'l') sprintf(p, "%d", lim = (int)wl_below(6) - 1);
      if (c == 'k' || c == 'A' || c == 'U') strcpy(p, wl_chance(8) ? "a,b" : wl_chance(8) ? "aaaaaaaaaaaaaaaaaaaaaaaaaaaa" : wl_chance(2) ? (c == 'k' ? "k1" : c == 'A' ? "ap1" : "up1") : wl_chance(2) ? "ap1" : "other");
      if (c == 'b') { sprintf(p, "b%d!*@*", wl_below(5)); if (strstr(usedban, p)) { letters[strlen(letters) - 1] = 0; continue; } strcat(usedban, p); strcat(usedban, " "); }
      if (c == 'o' || c == 'v') {
        int t = wl_below(WR_U), lv = wl_chance(2) ? -1 : wl_chance(2) ? (int)wl_below(6) : 995 + (int)wl_below(8);
        if (!my) { sprintf(p, "%s%s", t < 4 ? "AB" : "AC", t < 4 ? cli_yxx(wr_u[t]) : t == 4 ? "AAA" : "AAB"); if (lv >= 0 && dir && c == 'o') sprintf(p + 5, ":%d", lv); }
        else { strcpy(p, cli_name(wr_u[t])); if (lv >= 0 && dir && c == 'o') sprintf(p + strlen(p), ":%d", lv); }
        if (set && use) {
          int got_lv = MAXOPLEVEL + 1, q, refuse = 0; fl = c == 'o' ? 1 : 2;
          if (lv >= 0 && dir && c == 'o') {
            if (my && !force && me && (lv < me->oplevel || (lv == me->oplevel && me->oplevel < MAXOPLEVEL) || lv > MAXOPLEVEL)) refuse = 1;
            got_lv = my && lv > MAXOPLEVEL ? MAXOPLEVEL + 1 : lv;
          }
          if (!refuse) {
            for (q = 0; q < ncc; q++) if (cc[q].cl == t && (cc[q].flag & fl)) break;
            if (q < 15) { if (q == ncc) ncc++; cc[q].cl = t; cc[q].flag = fl | (dir ? 0x100 : 0); cc[q].lv = got_lv; }
          }
        }
      }
      args++; sprintf(params + strlen(params), " %s", p); nargs++;
      if (!set || !use) { (void)served; continue; }
      if (c == 'l') {
        if (lim < 0 || !lim || (unsigned)lim == want.limit || (done & 1)) continue;
        done |= 1; want.limit = lim; want.mode |= 0x400;
      } else if (c == 'k') {
        if (dir ? done & 2 : done & 6) continue;
        done |= dir ? 2 : 4;
        if (!clean(p) || (!force && (dir ? *want.key != 0 : strcmp(want.key, p) != 0)) || (dir && !strcmp(want.key, p))) continue;
        strcpy(want.key, dir ? p : "");
      } else if (c == 'U' || c == 'A') {
        char *up = want.up, *ap = want.ap; unsigned a = c == 'U' ? 8 : 32, d = a << 1;
        if (my && !feature_bool(FEAT_OPLEVELS)) continue;
        if (my && (force ? !HasPriv(wr_u[f], PRIV_APASS_OPMODE) : !(me && (me->status & 0x10000)))) continue;
        if (c == 'A' && my) {
          if (!force && ((!dir && *up) || (dir ? *ap != 0 : strcmp(ap, p) != 0))) continue;
          if (!dir && TStime() - ch->creationtime >= 172800 && !HasFlag(wr_u[f], FLAG_OPER) && !HasFlag(wr_u[f], FLAG_LOCOP)) continue;
        }
        if (dir ? done & a : done & (a | d)) continue;
        done |= dir ? a : d;
        if (!clean(p)) continue;
        if (c == 'U') {
          if (!force && ((dir && (!*ap || !strcmp(ap, p))) || (dir ? *up != 0 : strcmp(up, p) != 0))) continue;
          if (dir && !strcmp(up, p)) continue;
          strcpy(up, dir ? p : "");
        } else {
          if (dir && !strcmp(ap, p)) continue;
          if (dir) { if (!*ap) strcpy(ap, p); if (me) { int q; for (q = 0; q < WR_U; q++) if (wr_u[q] == me->user) want.lv[q] = 0; } }
          else { int q; *ap = *up = 0; for (q = 0; q < WR_U; q++) if (want.in[q] && (want.st[q] & 1)) want.lv[q] = MAXOPLEVEL; }
        }
      } else if (c == 'b') {
        int h = hasban(&want, p);
        if (dir && !h) strcpy(want.ban[want.nb++], p);
        if (!dir && h) { memmove(want.ban[h - 1], want.ban[h], (30 - h) * 120); want.nb--; }
      }
    }
    if (!*letters) continue;
    if (set) { want.mode = (want.mode & ~del) | add; }
    for (j = 0; j < ncc; j++) {
      int t = cc[j].cl; unsigned fl = cc[j].flag & 3; int up = cc[j].flag & 0x100;
      if (!want.in[t] || (my && (want.st[t] & 0x10))) continue;
      if (up ? (want.st[t] & fl) != 0 : !(want.st[t] & fl)) continue;
      if (!up && fl == 1 && my) {
        int melv = -1, q; for (q = 0; q < WR_U; q++) if (me && wr_u[q] == me->user) melv = want.lv[q];
        if (HasFlag(wr_u[t], FLAG_CHSERV) && !force) continue;
        if (t != f) {
          if (k == 2 && MyConnect(wr_u[t]) && HasPriv(wr_u[t], PRIV_DEOP_LCHAN)) continue;
          if (me && (want.lv[t] < melv || (want.lv[t] == melv && melv < MAXOPLEVEL))) continue;
        }
      }
      if (up && fl == 1) {
        int melv = -1, q; for (q = 0; q < WR_U; q++) if (me && wr_u[q] == me->user) melv = want.lv[q];
        want.lv[t] = cc[j].lv <= MAXOPLEVEL ? cc[j].lv : melv < 0 ? MAXOPLEVEL : melv >= MAXOPLEVEL ? melv : melv + 1;
        want.st[t] &= ~4u;
      }
      if (up) want.st[t] = (want.st[t] | fl) & ~0x80000u; else want.st[t] &= ~fl;
    }
    snprintf(why, sizeof why, "%s%s%s (%s) on %s", server ? "server" : wr_say(wr_u[f]), my && HasPriv(wr_u[f], PRIV_MODE_LCHAN) ? " lchan-priv" : "", my && HasPriv(wr_u[f], PRIV_APASS_OPMODE) ? " apass-priv" : "", me ? wr_saym(me) : "not there", wr_cn[k]);
    if (my) snprintf(line, sizeof line, "MODE %s %s%s", wr_cn[k], letters, params);
    else snprintf(line, sizeof line, "%s M %s %s%s%s", server ? "AC" : f == 4 ? "ACAAA" : "ACAAB", wr_cn[k], letters, params, server || wl_chance(2) ? "" : "");
    wh_clear();
    wh_send(my ? wr_u[f] : wr_S, "%s", line);
    if (FindChannel(wr_cn[k]) != ch) return;
    snap(&got, ch);
    { int q; if (!set && !my) for (q = 0; q < WR_U; q++) got.lv[q] = want.lv[q]; }      /* op levels follow a bounced op */
    { int x, same = want.nb == got.nb; for (x = 0; x < want.nb && same; x++) if (!hasban(&got, want.ban[x])) same = 0; if (same) memcpy(got.ban, want.ban, sizeof got.ban); }
    { struct snap a = want, b = got; char *z; (void)z; if (a.mode != b.mode || a.limit != b.limit || strcmp(a.key, b.key) || strcmp(a.up, b.up) || strcmp(a.ap, b.ap) || a.nb != b.nb || memcmp(a.ban, b.ban, sizeof a.ban) || memcmp(a.st, b.st, sizeof a.st) || memcmp(a.lv, b.lv, sizeof a.lv) || memcmp(a.in, b.in, sizeof a.in))
        { char w[900]; strcpy(w, show(&want)); wl_witness("%s: '%s' from %s should leave %s, but leaves %s", show(&was), line, why, w, show(&got)); } }
  }
#ifndef ONLY_OV
  { /* a change too new for this server, from a server still bursting, leaves nothing behind */
    struct snap a, b; struct Channel *ch = wr_ch[0]; char w[900];
    if (FindChannel(wr_cn[0]) != ch) return;
    SetBurst(wr_S); snap(&a, ch);
    wh_send(wr_S, "AC M %s %s %lu", wr_cn[0], wl_chance(2) ? "+b q!*@*" : "+bb q!*@* r!*@*", (unsigned long)ch->creationtime + 500);
    snap(&b, ch); strcpy(w, show(&a));
    if (strcmp(w, show(&b))) wl_witness("MODE +b from a bursting server with a newer time stamp should leave %s, but leaves %s", w, show(&b));
  }
#endif
}
int main(int argc, char **argv) { return wh_run(argc, argv, sc, 300, 14); }
