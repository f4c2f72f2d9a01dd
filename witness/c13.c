/* C13 replay: operator commands by operators with random privileges */
#include "wr.h"
#include "jupe.h"
static int did[20]; static void *who; static unsigned gflags; static int gaction;
enum { REHASH, MOTD, LOGS, TLSF, KILL, JADD, JACT, JDEA, GADD, GMOD, GDES, FORCE };
static int sig;
int __wrap_rehash(struct Client *c, int s) { did[REHASH]++; sig = s; return 0; }
void __wrap_motd_recache(void) { did[MOTD]++; }
void __wrap_log_reopen(void) { did[LOGS]++; }
int __wrap_ircd_tls_rehash(void) { did[TLSF]++; return 0; }
int __wrap_exit_client_msg(struct Client *c, struct Client *b, struct Client *s, const char *p, ...) { did[KILL]++; who = b; return 0; }
int __wrap_jupe_add(struct Client *c, struct Client *s, char *n, char *r, time_t e, time_t l, unsigned f) { did[JADD]++; gflags = f; return 0; }
int __wrap_jupe_activate(struct Client *c, struct Client *s, struct Jupe *j, time_t l, unsigned f) { did[JACT]++; gflags = f; return 0; }
int __wrap_jupe_deactivate(struct Client *c, struct Client *s, struct Jupe *j, time_t l, unsigned f) { did[JDEA]++; gflags = f; return 0; }
int __wrap_gline_add(struct Client *c, struct Client *s, char *u, char *r, time_t e, time_t l, time_t t, unsigned f) { did[GADD]++; gflags = f; return 0; }
int __wrap_gline_modify(struct Client *c, struct Client *s, struct Gline *g, enum GlineAction a, char *r, time_t e, time_t l, time_t t, unsigned f) { did[GMOD]++; gflags = f; gaction = a; return 0; }
int __wrap_gline_destroy(struct Client *c, struct Client *s, struct Gline *g) { did[GDES]++; return 0; }
int __wrap_mode_parse(struct ModeBuf *m, struct Client *c, struct Client *s, struct Channel *ch, int n, char **v, unsigned f, struct Membership *mm) { if (f & MODE_PARSE_FORCE) did[FORCE]++; who = ch; return 0; }
static struct Jupe fakejupe; static struct Gline fakegline; static int havejupe, havegline;
struct Jupe *__wrap_jupe_find(char *s) { return havejupe ? &fakejupe : 0; }
struct Gline *__wrap_gline_find(char *u, unsigned f) { return havegline ? &fakegline : 0; }
void __wrap_jupe_free(struct Jupe *j) { did[15]++; }
static const char *quar; const char *__wrap_find_quarantine(const char *n) { return quar; }
#define P(p) HasPriv(c, p)
static void sc(unsigned s)
{
  int i, j;
  wr_setup();
  fakejupe.ju_server = "x.test.net"; fakejupe.ju_reason = "r";
  for (i = 0; i < 60; i++) {
    struct Client *c = wr_u[wl_below(3)], *d; int op = wl_below(10), k, want = 0, got, cfg, star, bang; char privs[300] = "", why[600], cmd[400], what[200], pat[100]; struct Channel *ch; const char *n;
    static const struct { int p; const char *n; } pv[] = { { PRIV_DIE, "die" }, { PRIV_RESTART, "restart" }, { PRIV_REHASH, "rehash" }, { PRIV_KILL, "kill" }, { PRIV_LOCAL_KILL, "local_kill" }, { PRIV_JUPE, "jupe" }, { PRIV_LOCAL_JUPE, "local_jupe" }, { PRIV_GLINE, "gline" }, { PRIV_LOCAL_GLINE, "local_gline" }, { PRIV_WIDE_GLINE, "wide_gline" }, { PRIV_OPMODE, "opmode" }, { PRIV_LOCAL_OPMODE, "local_opmode" }, { PRIV_FORCE_OPMODE, "force_opmode" }, { PRIV_FORCE_LOCAL_OPMODE, "force_local_opmode" }, { PRIV_SET, "set" } };
    for (j = 0; j < 6; j++) { wr_join(j); wr_flags(wr_u[j]); ClrFlag(wr_u[j], FLAG_KILLED); }
    SetFlag(c, wl_chance(2) ? FLAG_OPER : FLAG_LOCOP); cli_handler(c) = OPER_HANDLER;
    for (j = 0; j < 15; j++) if (wl_chance(2)) { SetPriv(c, pv[j].p); strcat(privs, " "); strcat(privs, pv[j].n); }
    { const char *fs[3] = { "CONFIG_OPERCMDS", 0, 0 }; cfg = !wl_chance(4); fs[1] = cfg ? "TRUE" : "FALSE"; feature_set(0, fs, 2); }
    memset(did, 0, sizeof did); wh_died = wh_restarted = 0; who = 0; gflags = 0; gaction = -1; havejupe = wl_below(2); havegline = wl_below(2); fakejupe.ju_flags = wl_below(2) ? JUPE_LOCAL : 0; quar = wl_chance(3) ? "q" : 0; sig = -1;
    wh_clear();
    switch (op) {
    case 0: strcpy(cmd, "DIE"); wh_send(c, cmd); want = P(PRIV_DIE); got = wh_died; break;
    case 1: strcpy(cmd, "RESTART"); wh_send(c, cmd); want = P(PRIV_RESTART); got = wh_restarted; break;
    case 2: k = wl_below(5); sprintf(cmd, "REHASH%s", k == 0 ? "" : k == 1 ? " m" : k == 2 ? " l" : k == 3 ? " s" : " q"); wh_send(c, cmd);
      want = P(PRIV_REHASH) ? 1 << (k == 1 ? MOTD : k == 2 ? LOGS : k == 3 ? TLSF : REHASH) : 0; got = 0;
      for (j = REHASH; j <= TLSF; j++) if (did[j]) got |= 1 << j;
      if (did[REHASH] && (sig != 2) != (k != 4)) wl_witness("%s from an operator privileged%s: wrong resolver handling", cmd, privs);
      break;
    case 3: d = wr_u[wl_below(6)]; j = wl_chance(8); sprintf(cmd, "KILL %s :x", j ? "hub.test.net" : cli_name(d)); if (j) d = wr_S; wh_send(c, cmd);
      want = !j && !HasFlag(d, FLAG_CHSERV) && (MyConnect(d) ? P(PRIV_LOCAL_KILL) : P(PRIV_KILL)); got = did[KILL];
      if (got && who != d) wl_witness("%s killed %s", cmd, who ? cli_name((struct Client *)who) : "nobody");
      if (!j && (strstr(wh_out(wr_S2), " D ") != 0) != (want && !MyConnect(d))) wl_witness("%s of %s from an operator privileged%s: passed on wrongly", cmd, wr_say(d), privs);
      sprintf(cmd + strlen(cmd), " (%s%s)", j ? "" : wr_say(d), j ? "a server" : MyConnect(d) ? ", here" : ", elsewhere");
      break;
    case 4: { char sg = wl_below(2) ? '+' : '-'; k = wl_below(4);
      if (k == 0) sprintf(cmd, "JUPE %cx.test.net 100 :r", sg); else sprintf(cmd, "JUPE %cx.test.net %s 100 :r", sg, k == 1 ? "*" : k == 2 ? "irc.test.net" : "hub.test.net");
      wh_send(c, cmd); want = cfg && (k == 0 || k == 2 ? P(PRIV_LOCAL_JUPE) : P(PRIV_JUPE));
      got = did[JADD] || did[JACT] || did[JDEA] || strstr(wh_out(wr_S), " JU ") != 0;
      if (got && want && k != 3 && ((gflags & JUPE_LOCAL) != 0) != (k == 0 || k == 2)) wl_witness("%s: wrong scope", cmd);
      if (got && want && k != 3) { j = !havejupe || ((fakejupe.ju_flags & JUPE_LOCAL) && k == 1) ? JADD : sg == '+' ? JACT : JDEA; if (!did[j]) wl_witness("%s on %s: the wrong thing was done (%d)", cmd, havejupe ? fakejupe.ju_flags ? "a local jupe" : "a jupe" : "no jupe", j); }
      break; }
    case 5: case 6: { char sg = "+-<>"[wl_below(4)]; int loc, fwd; k = wl_below(4); bang = wl_chance(2);
      n = k == 0 ? "" : k == 1 ? "* " : k == 2 ? "irc.test.net " : "hub.test.net ";
      if (sg == '<' || sg == '>') { if (k == 1) k = 0, n = ""; sprintf(cmd, "GLINE %s%cu@h.x %s", bang ? "!" : "", sg, n); }
      else sprintf(cmd, "GLINE %s%cu@h.x %s100 :r", bang ? "!" : "", sg, n);
      wh_send(c, cmd);
      fwd = k == 3; loc = k == 0 || k == 2;
      if (fwd) { want = cfg && P(PRIV_GLINE); got = strstr(wh_out(wr_S), " GL ") != 0; if (did[GADD] || did[GMOD] || did[GDES]) wl_witness("%s was also carried out here", cmd); }
      else {
        int global = !loc;
        want = global ? cfg && P(PRIV_GLINE) : P(PRIV_LOCAL_GLINE);
        if (loc && sg == '+') want = want && !havegline;
        if (loc && sg != '+') want = want && havegline;
        got = did[GADD] || did[GMOD] || did[GDES];
        if (got && !did[GDES] && ((gflags & GLINE_OPERFORCE) != 0) != (bang && P(PRIV_WIDE_GLINE))) wl_witness("%s by an operator with%s: limits %soverridden", cmd, privs, gflags & GLINE_OPERFORCE ? "" : "not ");
        if (did[GMOD] && gaction != (sg == '+' ? GLINE_ACTIVATE : sg == '-' ? GLINE_DEACTIVATE : sg == '>' ? GLINE_LOCAL_ACTIVATE : GLINE_LOCAL_DEACTIVATE)) wl_witness("%s: wrong action %d", cmd, gaction);
        if (did[GADD] && ((gflags & GLINE_LOCAL) != 0) != loc) wl_witness("%s: wrong scope", cmd);
        if (did[GADD] && ((gflags & GLINE_ACTIVE) != 0) != (sg == '+')) wl_witness("%s: added %sactive", cmd, sg == '+' ? "in" : "");
      }
      break; }
    case 7: case 8: k = wl_below(3); bang = wl_chance(3); ch = wr_ch[k]; ch->mode.mode |= MODE_NOPRIVMSGS;
      sprintf(cmd, op == 7 ? "OPMODE %s%s +m" : "CLEARMODE %s%s n", bang ? "!" : "", wr_cn[k]); wh_send(c, cmd);
      want = cfg && (k == 2 ? P(PRIV_LOCAL_OPMODE) : P(PRIV_OPMODE)) && (bang ? k == 2 ? P(PRIV_FORCE_LOCAL_OPMODE) : P(PRIV_FORCE_OPMODE) : !quar);
      got = op == 7 ? did[FORCE] : !(ch->mode.mode & MODE_NOPRIVMSGS);
      if (op == 7 && got && who != ch) wl_witness("%s changed another channel", cmd);
      if (quar) strcat(cmd, " (quarantined)");
      break;
    default: { int v; v = feature_int(FEAT_MAXCHANNELSPERUSER); k = wl_below(2); { const char *fs[3] = { "MAXCHANNELSPERUSER", "33", 0 }; feature_set(0, fs, 2); }
      strcpy(cmd, k ? "SET MAXCHANNELSPERUSER 77" : "RESET MAXCHANNELSPERUSER"); wh_send(c, cmd); want = P(PRIV_SET); got = feature_int(FEAT_MAXCHANNELSPERUSER) != 33; break; }
    }
    if ((op == 2 ? got : got != 0) != (op == 2 ? want : want != 0)) wl_witness("%s from an operator privileged for%s%s%s should %sbe carried out, but %s", cmd, *privs ? privs : " nothing", cfg ? "" : " (operator commands off)", havegline || havejupe ? " (ban exists)" : "", want ? "" : "not ", got ? "was" : "was not");
  }
}
int main(int argc, char **argv) { return wh_run(argc, argv, sc, 250, 14); }
