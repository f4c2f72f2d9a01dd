/* C07 replay: random channels, members and texts through the real parser; who hears what against the specification */
#include "wh.h"
#include "capab.h"
static struct Client *w_ban_who; static int w_ban;
static int uf_banned(const struct Client *c, const struct Ban *list) { return c == w_ban_who && w_ban; }
#include "spec_chan.h"
static const char *text(char *o, int wallops)
{
  static const char *W[] = { "hello", "\003" "4red", "\033[1m", "\001ACTION waves\001", "\001action waves\001", "\001VERSION\001", "x\001", "\001ACTIO", "\001ACTIONx", "a b", "\002bold" };
  strcpy(o, W[wl_below(sizeof W / sizeof *W)]);
  if (wl_chance(4)) strcat(o, W[wl_below(sizeof W / sizeof *W)]);
  return o;
}
static void sc(unsigned s)
{
  struct Client *op, *snd, *ear, *S, *rem, *T, *ear2; struct Channel *ch; struct Membership *m, *mr; int i, kind, remote, inside, want, got, gots, state;
  char t[300], l[400], expect[400];
  static const unsigned MODES[] = { CH_MODERATED, CH_NOPRIVMSGS, CH_REGONLY, CH_MODERATENOREG, CH_TLSONLY, CH_NOCOLOR, CH_NOCTCP };
  op = wh_user("op", "op", "op.host.org", "10.1.2.1"); snd = wh_user("snd", "snd", "snd.host.org", "10.1.2.2"); ear = wh_user("ear", "ear", "ear.host.org", "10.1.2.3");
  ear2 = wh_user("outer", "out", "out.host.org", "10.1.2.9");
  S = wh_server("hub.test.net", "AC"); T = wh_server("leaf.test.net", "AD");
  wh_send(S, "AC N remo 1 1600000000 rem r.host.org AKAQID ACAAA :Remote"); wh_send(S, "AC EB"); wh_send(S, "AC EA");
  wh_send(T, "AD N leaf 1 1600000000 rem q.host.org AKAQIE ADAAA :Remote"); wh_send(T, "AD EB"); wh_send(T, "AD EA");
  rem = FindUser("remo");
  wh_send(op, "JOIN #c"); wh_send(ear, "JOIN #c"); wh_send(T, "ADAAA J #c 1700000000");
  inside = wl_chance(2); remote = wl_chance(4); state = wl_below(4);
  if (inside) { wh_send(snd, "JOIN #c"); wh_send(S, "ACAAA J #c 1700000000"); }
  if (!(ch = FindChannel("#c"))) return;
  if (wl_chance(2)) SetFlag(snd, FLAG_ACCOUNT);
  if (wl_chance(2)) SetFlag(snd, FLAG_TLS);
  if (wl_chance(3)) { wh_send(op, "MODE #c +b snd!*@*"); }
  for (i = 0; i < 14; i++) {
    const char *cmd; int sk = 0, j;
    if (wl_chance(6)) wh_send(op, "MODE #c %cb %s!*@*", "+-"[wl_below(2)], remote ? "remo" : "snd");
    if (wl_chance(6)) wh_send(op, "MODE #c %cb *!*@%s.host.org", "+-"[wl_below(2)], remote ? "r" : "snd");
    if (wl_chance(8)) wh_send(op, "MODE #c %cb *!*@%s.host.org", "+-"[wl_below(2)], "ear");
    ch->mode.mode &= ~(unsigned)(CH_MODERATED | CH_NOPRIVMSGS | CH_REGONLY | CH_MODERATENOREG | CH_TLSONLY | CH_NOCOLOR | CH_NOCTCP);
    for (j = 0; j < 7; j++) if (wl_chance(4)) ch->mode.mode |= MODES[j];
    m = find_member_link(ch, snd); mr = find_member_link(ch, rem);
    if (m) {
      m->status &= ~0x93u;
      if (wl_chance(4)) m->status |= wl_chance(2) ? 1 : 2;
      if (wl_chance(4)) m->status |= 0x80000;
      if (wl_chance(12)) m->status |= 0x10; 
      m->status &= ~0x10000u; ch->mode.apass[0] = 0;
      if (wl_chance(8)) { m->status |= 0x10000; if (wl_chance(2)) strcpy(ch->mode.apass, "secret"); }
    }
    if (mr) { mr->status &= ~0x93u; if (wl_chance(4)) mr->status |= wl_chance(2) ? 1 : 2; }
    kind = wl_below(5); text(t, 0);
    cmd = kind == 0 ? "PRIVMSG" : kind == 1 ? "NOTICE" : kind == 2 ? "WALLCHOPS" : kind == 3 ? "WALLVOICES" : "TAGMSG";
    { struct Ban *b; w_ban = 0; w_ban_who = remote ? rem : snd;
      for (b = ch->banlist; b; b = b->next) { const char *p = b->banstr; if (!strcmp(p, remote ? "remo!*@*" : "snd!*@*") || !strcmp(p, remote ? "*!*@r.host.org" : "*!*@snd.host.org")) w_ban = 1; } }
    want = spec_speaks(ch, remote ? rem : snd);
    snprintf(l, sizeof l, "%s%s %s, modes %x, %s%s%s%s%s text %s", remote ? "remote " : "", cmd, spec_member(ch, remote ? rem : snd) ? "member" : "outsider", ch->mode.mode, m ? (m->status & 1 ? "op " : m->status & 2 ? "voice " : "") : "",
             m && (m->status & 0x10) ? "zombie " : "", w_ban ? "banned " : "", spec_account(snd) ? "account " : "", spec_tls(snd) ? "tls " : "", wl_quote(t));
    if (kind <= 1 && !remote) {
      if (ch->mode.mode & CH_NOCOLOR) if (strpbrk(t, "\003\033")) want = 0;
      if (ch->mode.mode & CH_NOCTCP) if (strncasecmp(t, "\001ACTION ", 8) && strchr(t, 1)) want = 0;
    }
    cli_nexttarget(snd) = 0;
    if (!remote && wl_chance(5)) {
      cli_nexttarget(snd) = CurrentTime + 4000; memset(cli_targets(snd), 0, MAXTARGETS);
      if ((ch->mode.mode & CH_NOPRIVMSGS) && want) { unsigned char h = ((uintptr_t)ch >> 16) + ((uintptr_t)ch >> 8); if (h) want = 0; else cli_nexttarget(snd) = 0; }
    }
    wh_clear();
    if (kind == 4) {
      CapSet(cli_active(snd), CAP_MESSAGE_TAGS); CapSet(cli_active(ear), CAP_MESSAGE_TAGS);
      if (remote) wh_send(S, "@+typing=active ACAAA TM #c"); else wh_send(snd, "@+typing=active TAGMSG #c");
    } else {
      static const char *tok[] = { "P", "O", "WC", "WV" };
      if (remote) wh_send(S, "ACAAA %s #c :%s", tok[kind], t); else wh_send(snd, "%s #c :%s", cmd, t);
    }
    snprintf(expect, sizeof expect, kind == 4 ? "TAGMSG #c" : kind == 2 ? "NOTICE @#c :@ %s\r" : kind == 3 ? "NOTICE @#c :+ %s\r" : kind == 1 ? "NOTICE #c :%s\r" : "PRIVMSG #c :%s\r", t);
    got = strstr(wh_out(kind == 2 || kind == 3 ? op : ear), remote && (kind == 2 || kind == 3) ? "NOTICE @#c :" : expect) != 0;
    gots = kind == 2 || kind == 3 ? got : strstr(wh_out(T), kind == 4 ? " TM #c" : t) != 0;
    if (got != !!want) wl_witness("%s: should %sreach the channel, but %s", l, want ? "" : "not ", got ? "it did" : "it did not");
    if (gots != !!want) wl_witness("%s: should %sbe passed to the other servers, but %s", l, want ? "" : "not ", gots ? "it was" : "it was not");
    if (*wh_out(ear2)) wl_witness("%s: somebody outside the channel was told", l);
    if (m && !want && !remote && (m->status & 0x93)) ;
  }
}
int main(int argc, char **argv) { return wh_run(argc, argv, sc, 4000, 60); }
