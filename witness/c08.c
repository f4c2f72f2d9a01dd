/* C08 replay: private messages between users in random states, through the real parser */
#include "wh.h"
#include "capab.h"
static int shares(struct Client *s, struct Client *d)
{
  struct Membership *a, *b;
  for (a = cli_user(s)->channel; a; a = a->next_channel) for (b = cli_user(d)->channel; b; b = b->next_channel)
    if (a->channel == b->channel && !(a->status & 0x40010) && !(b->status & 0x10)) return 1;
  return 0;
}
static int on(struct Client *c, struct Channel *ch, unsigned *st)
{
  struct Membership *a;
  for (a = cli_user(c)->channel; a; a = a->next_channel) if (a->channel == ch) { *st = a->status; return 1; }
  return 0;
}
static void sc(unsigned s)
{
  struct Client *snd, *dst, *S, *rem, *u[2]; int i, j, k;
  static const char *C[] = { "#a", "#b", "#c" };
  snd = wh_user("snd", "snd", "snd.host.org", "10.1.2.2"); dst = wh_user("dst", "dst", "dst.host.org", "10.1.2.3");
  S = wh_server("hub.test.net", "AC");
  wh_send(S, "AC N rem 1 1600000000 rem r.host.org AKAQID ACAAA :Remote"); wh_send(S, "AC EB"); wh_send(S, "AC EA");
  rem = FindUser("rem"); if (!rem) return;
  for (i = 0; i < 3; i++) {
    if (wl_chance(2)) wh_send(dst, "JOIN %s", C[i]);
    if (wl_chance(2)) wh_send(snd, "JOIN %s", C[i]);
    if (wl_chance(2)) wh_send(S, "ACAAA J %s 1700000000", C[i]);
  }
  CapSet(cli_active(snd), CAP_MESSAGE_TAGS); CapSet(cli_active(dst), CAP_MESSAGE_TAGS);
  for (i = 0; i < 20; i++) {
    struct Client *f = wl_chance(3) ? rem : snd, *t = f == rem ? dst : wl_chance(8) ? snd : wl_chance(4) ? rem : dst;
    int kind = wl_below(5), want = 1, got, n = 0; char text[64], pat[100], why[200], *o, *p; struct Membership *m; struct Channel *ch; unsigned s1 = 0, s2 = 0;
    static const char *cmd[] = { "PRIVMSG", "NOTICE", "TAGMSG", "CPRIVMSG", "CNOTICE" }, *tok[] = { "P", "O", "TM" };
    if (f == rem) kind = wl_below(3);
    for (j = 0; j < 2; j++) {
      u[0] = f; u[1] = t;
      ClrFlag(u[j], FLAG_ACCOUNT); ClrFlag(u[j], FLAG_CHSERV); ClrFlag(u[j], FLAG_OPER); ClrFlag(u[j], FLAG_LOCOP); ClrFlag(u[j], FLAG_BLOCK_UNAUTH_USERS); ClrFlag(u[j], FLAG_COMMONCHANS);
      if (wl_chance(3)) SetFlag(u[j], FLAG_ACCOUNT);
      if (wl_chance(6)) SetFlag(u[j], FLAG_CHSERV);
      if (wl_chance(6)) SetFlag(u[j], wl_chance(2) ? FLAG_OPER : FLAG_LOCOP);
      if (wl_chance(3)) SetFlag(u[j], FLAG_BLOCK_UNAUTH_USERS);
      if (wl_chance(3)) SetFlag(u[j], FLAG_COMMONCHANS);
      for (m = cli_user(u[j])->channel; m; m = m->next_channel) {
        m->status &= ~0x40013u;
        if (wl_chance(4)) m->status |= 0x40000; 
        if (wl_chance(4)) m->status |= 0x10;
        if (wl_chance(2)) m->status |= wl_chance(2) ? 1 : 2;
      }
    }
    while (cli_user(dst)->silence) { struct Ban *b = cli_user(dst)->silence; cli_user(dst)->silence = b->next; b->next = 0; free_ban(b); }
    if (wl_chance(4) && t == dst) wh_send(dst, "SILENCE +%s!*@*", cli_name(f)), want = 0;
    if (!want && wl_chance(3)) wh_send(dst, "SILENCE ~*!%s@*", cli_user(f)->username), want = 1;
    j = want;
    if (f != t && !IsChannelService(f) && !HasFlag(f, FLAG_OPER) && !(MyConnect(f) && HasFlag(f, FLAG_LOCOP))) {
      if (HasFlag(t, FLAG_BLOCK_UNAUTH_USERS) && !HasFlag(f, FLAG_ACCOUNT)) want = 0;
      if (kind < 3 && HasFlag(t, FLAG_COMMONCHANS) && !shares(f, t)) want = 0;
    }
    cli_nexttarget(snd) = 0;
    if (f == snd && kind < 3 && wl_chance(6)) {
      unsigned char h = ((uintptr_t)t >> 16) + ((uintptr_t)t >> 8);
      memset(cli_targets(snd), 0, MAXTARGETS); cli_nexttarget(snd) = CurrentTime + 4000;
      if (!h) cli_nexttarget(snd) = 0; else if (!IsChannelService(t)) want = 0;
    }
    k = wl_below(3); ch = FindChannel(C[k]);
    if (kind >= 3) want = want && ch && on(snd, ch, &s1) && (s1 & 3) && on(t, ch, &s2) && !(s2 & 0x10);
    snprintf(text, sizeof text, "%s%d", kind == 2 ? "+t=" : "text", i);
    snprintf(why, sizeof why, "%s from %s%s%s%s to %s%s%s%s%s%s, channels %sin common", cmd[kind], cli_name(f), HasFlag(f, FLAG_ACCOUNT) ? " account" : "", HasFlag(f, FLAG_OPER) || HasFlag(f, FLAG_LOCOP) ? " oper" : "", HasFlag(f, FLAG_CHSERV) ? " service" : "",
             cli_name(t), HasFlag(t, FLAG_BLOCK_UNAUTH_USERS) ? " +R" : "", HasFlag(t, FLAG_COMMONCHANS) ? " +c" : "", HasFlag(t, FLAG_CHSERV) ? " service" : "", j ? "" : " silencing", cli_nexttarget(snd) ? " over the target limit" : "", shares(f, t) ? "" : "not ");
    wh_clear();
    if (f == rem) { if (kind == 2) wh_send(S, "@+t=%d ACAAA TM AB%s", i, cli_yxx(dst)); else wh_send(S, "ACAAA %s AB%s :%s", tok[kind], cli_yxx(dst), text); }
    else if (kind == 2) wh_send(snd, "@+t=%d TAGMSG %s", i, cli_name(t));
    else if (kind >= 3) wh_send(snd, "%s %s %s :%s", cmd[kind], cli_name(t), C[k], text);
    else wh_send(snd, "%s %s :%s", cmd[kind], cli_name(t), text);
    o = wh_out(t == rem ? S : t);
    if (t == rem) snprintf(pat, sizeof pat, kind == 2 ? "AB%s TM ACAAA" : kind == 1 || kind == 4 ? "AB%s O ACAAA :text%d\r" : "AB%s P ACAAA :text%d\r", cli_yxx(snd), i);
    else snprintf(pat, sizeof pat, kind == 2 ? "%s!%s@%s TAGMSG %s" : "%s!%s@%s %s %s :text%d\r", cli_name(f), cli_user(f)->username, cli_user(f)->host, kind == 2 ? cli_name(t) : kind == 1 || kind == 4 ? "NOTICE" : "PRIVMSG", cli_name(t), i);
    for (p = o; (p = strstr(p, pat)); p++) n++;
    got = n;
    if (got != want) wl_witness("%s: should be delivered %s, was delivered %d times (sent %s)", why, want ? "once" : "never", got, wl_quote(o));
    if (t != snd && f == snd && strstr(wh_out(snd), pat)) wl_witness("%s: came back to the sender", why);
  }
  /* lists of targets, messages to masks, and TAGMSG without the capability */
  ClrFlag(snd, FLAG_ACCOUNT); 
  for (j = 0; j < 2; j++) { u[0] = snd; u[1] = dst; ClrFlag(u[j], FLAG_BLOCK_UNAUTH_USERS); ClrFlag(u[j], FLAG_COMMONCHANS); ClrFlag(u[j], FLAG_CHSERV); ClrFlag(u[j], FLAG_OPER); ClrFlag(u[j], FLAG_LOCOP); }
  ClrFlag(rem, FLAG_BLOCK_UNAUTH_USERS); ClrFlag(rem, FLAG_COMMONCHANS);
  while (cli_user(dst)->silence) { struct Ban *b = cli_user(dst)->silence; cli_user(dst)->silence = b->next; b->next = 0; free_ban(b); }
  for (i = 0; i < 12; i++) {
    static const char *cmd[] = { "PRIVMSG", "NOTICE", "TAGMSG" }, *tok[] = { "P", "O", "TM" };
    static const char *mask[] = { "$@dst.host.*", "$@*.host.org", "$@dst.*st.org", "$@nowhere.org", "$@*.o?g", "$*.test.net", "$@dst" };
    static const char *want[] = { "", "yes", "yes", "", "", "server", "" };
    int kind = wl_below(3), cap = wl_chance(2), oper = wl_chance(2), m = wl_below(7), d, r, n; char to[200], pat[300], *p;
    cli_nexttarget(snd) = 0; memset(cli_targets(snd), 0, MAXTARGETS);
    if (cap) CapSet(cli_active(snd), CAP_MESSAGE_TAGS); else CapClr(cli_active(snd), CAP_MESSAGE_TAGS);
    ClrFlag(snd, FLAG_OPER); cli_handler(snd) = CLIENT_HANDLER;
    if (oper) { SetFlag(snd, FLAG_OPER); cli_handler(snd) = OPER_HANDLER; }
    wh_clear();
    if (wl_chance(2)) {
      static const char *ord[] = { "dst,rem", "rem,dst", "dst,rem,dst", "snd,rem,dst", "nobody,dst,rem", "dst,nobody@x.y,rem" };
      m = wl_below(6); snprintf(to, sizeof to, "%s", ord[m]);
      if (kind == 2) wh_send(snd, "@+t=%d TAGMSG %s", i, to); else wh_send(snd, "%s %s :text%d", cmd[kind], to, i);
      snprintf(pat, sizeof pat, kind == 2 ? "snd!%s@%s TAGMSG dst" : "snd!%s@%s %s dst :text%d\r", cli_user(snd)->username, cli_user(snd)->host, cmd[kind], i);
      for (d = 0, p = wh_out(dst); (p = strstr(p, pat)); p++) d++;
      snprintf(pat, sizeof pat, kind == 2 ? "AB%s TM ACAAA" : "AB%s %s ACAAA :text%d\r", cli_yxx(snd), tok[kind], i);
      for (r = 0, p = wh_out(S); (p = strstr(p, pat)); p++) r++;
      n = kind != 2 || cap;
      if (d != n || r != n) wl_witness("%s to %s from a client with%s message-tags: delivered %d times to dst and %d to rem, should be %d each", cmd[kind], to, cap ? "" : "out", d, r, n);
    } else {
      if (kind == 2) wh_send(snd, "@+t=%d TAGMSG %s", i, mask[m]); else wh_send(snd, "%s %s :text%d", cmd[kind], mask[m], i);
      snprintf(pat, sizeof pat, kind == 2 ? "snd!%s@%s TAGMSG $" : "snd!%s@%s %s %s :text%d\r", cli_user(snd)->username, cli_user(snd)->host, cmd[kind], mask[m], i);
      for (d = 0, p = wh_out(dst); (p = strstr(p, pat)); p++) d++;
      n = oper && (kind != 2 || cap) && (want[m][0] == 'y' || (want[m][0] == 's' && !ircd_strcmp(cli_name(&me) + strlen(cli_name(&me)) - 9, ".test.net")));
      if (d != n) wl_witness("%s to %s from %s with%s message-tags: delivered %d times to dst (dst.host.org, on %s), should be %d", cmd[kind], mask[m], oper ? "an operator" : "a user", cap ? "" : "out", d, cli_name(&me), n);
    }
  }
}
int main(int argc, char **argv) { return wh_run(argc, argv, sc, 4000, 60); }
