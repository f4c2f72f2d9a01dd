/* C14, C23 replay: random lines from unregistered connections, users, operators and servers; the handlers are replaced by recorders */
#include "wr.h"
#ifndef ONLY
#define ONLY 0   /* 0: clients, 1: servers */
#endif
#include "handlers.h"
#include "parse.h"
extern struct Message msgtab[];
static struct Client *r_cptr, *r_sptr; static int r_ran, r_col, r_parc; static char r_parv[20][600]; static struct Message *r_want, *r_msg;
static void rec(int col, struct Client *c, struct Client *s, int parc, char *parv[])
{
  int i;
  r_ran++; r_col = col; r_cptr = c; r_sptr = s; r_parc = parc; r_msg = r_want;
  for (i = 0; i < parc && i < 20; i++) snprintf(r_parv[i], 600, "%s", parv[i] ? parv[i] : "(null)");
  if (parc <= 16 && parv[parc]) r_parc = -1;
}
static int rec0(struct Client *c, struct Client *s, int n, char *v[]) { rec(0, c, s, n, v); return 0; }
static int rec1(struct Client *c, struct Client *s, int n, char *v[]) { rec(1, c, s, n, v); return 0; }
static int rec2(struct Client *c, struct Client *s, int n, char *v[]) { rec(2, c, s, n, v); return 0; }
static int rec3(struct Client *c, struct Client *s, int n, char *v[]) { rec(3, c, s, n, v); return 0; }
static int rec4(struct Client *c, struct Client *s, int n, char *v[]) { rec(4, c, s, n, v); return 0; }
static int recx(struct Client *c, struct Client *s, int n, char *v[]) { rec(-1, c, s, n, v); return 0; }
int __wrap_do_numeric(int numeric, int nnn, struct Client *c, struct Client *s, int parc, char *parv[]) { rec(100 + numeric, c, s, parc, parv); return 0; }
static int in(MessageHandler h, MessageHandler *l) { for (; *l; l++) if (*l == h) return 1; return 0; }
static MessageHandler t_unreg[] = { m_unregistered, m_ignore, m_nick, m_user, mr_pass, m_quit, m_cap, m_sasl, m_webirc, mr_server, mr_error, mr_pong, m_proto, m_admin, m_version, 0 };
static MessageHandler t_user[] = { m_admin, m_away, m_cap, m_cnotice, m_cprivmsg, m_gline, m_hash, m_help, m_ignore, m_info, m_invite, m_ison, m_join, m_kick, m_links, m_list, m_lusers, m_map, m_mode, m_motd, m_names, m_nick, m_not_oper, m_notice, m_oper, m_part, m_ping, m_pong, m_privmsg, m_proto, m_quit, m_registered, m_sasl, m_silence, m_stats, m_tagmsg, m_time, m_topic, m_trace, m_userhost, m_userip, m_version, m_wallchops, m_wallvoices, m_who, m_whois, m_whowas, 0 };
static MessageHandler t_oper[] = { mo_admin, mo_asll, mo_clearmode, mo_close, mo_connect, mo_die, mo_get, mo_gline, mo_info, mo_jupe, mo_kill, mo_notice, mo_oper, mo_opmode, mo_ping, mo_privmsg, mo_privs, mo_rehash, mo_reset, mo_restart, mo_rping, mo_set, mo_settime, mo_squit, mo_tagmsg, mo_trace, mo_uping, mo_wallops, mo_wallusers, mo_xquery, 0 };
static MessageHandler t_serv[] = { ms_account, ms_admin, ms_asll, ms_away, ms_burst, ms_clearmode, ms_config, ms_connect, ms_create, ms_destruct, ms_desynch, ms_end_of_burst, ms_end_of_burst_ack, ms_error, ms_gline, ms_info, ms_invite, ms_join, ms_jupe, ms_kick, ms_kill, ms_links, ms_lusers, ms_mode, ms_nick, ms_notice, ms_oper, ms_opmode, ms_part, ms_ping, ms_pong, ms_privmsg, ms_privs, ms_quit, ms_rping, ms_rpong, ms_server, ms_settime, ms_silence, ms_sline, ms_squit, ms_tagmsg, ms_topic, ms_trace, ms_uping, ms_wallchops, ms_wallops, ms_wallusers, ms_wallvoices, ms_whois, ms_xquery, ms_xreply,
  m_hash, m_ignore, m_motd, m_names, m_proto, m_stats, m_time, m_version, m_whowas, 0 };
static int nmsg;
static void table(void)
{
  int i;
  for (i = 0; msgtab[i].cmd; i++) {
    struct Message *m = &msgtab[i];
    if (!in(m->handlers[0], t_unreg)) { wl_witness("%s runs something an unregistered connection must not", m->cmd); return; }
    if (!in(m->handlers[1], t_user)) { wl_witness("%s from an ordinary user runs something only operators or servers may", m->cmd); return; }
    if (!in(m->handlers[2], t_serv)) { wl_witness("%s from a server runs something else than a server's handler", m->cmd); return; }
    if (!in(m->handlers[3], t_oper) && !in(m->handlers[3], t_user)) { wl_witness("%s from an operator runs something only servers may", m->cmd); return; }
  }
  nmsg = i;
}
static int same(const char *a, const char *b) { while (*a && (*a & ~32) == (*b & ~32)) a++, b++; return *a == *b; }
static int fst;
static void prep(void) { int i; for (i = 0; msgtab[i].cmd; i++) { msgtab[i].handlers[0] = rec0; msgtab[i].handlers[1] = rec1; msgtab[i].handlers[2] = rec2; msgtab[i].handlers[3] = rec3; msgtab[i].handlers[4] = rec4; } }
static void word(char *w) { int n = 1 + wl_below(8), i; for (i = 0; i < n; i++) w[i] = "abcXYZ019#@!&*:-"[wl_below(i ? 16 : 14)]; w[n] = 0; }
static void sc(unsigned s)
{
  int i, j;
  wr_setup();
  table();
  if (!nmsg) return;
  struct Client *un = wh_local(0);   /* still unregistered */
  (void)un;
  SetFlag(wr_u[2], FLAG_OPER);
  struct Message save[200]; memcpy(save, msgtab, sizeof(struct Message) * (nmsg + 1));
  prep();
  for (i = 0; i < 120; i++) {
    char line[700], args[16][80], sent[700], pre[80] = "", cw[80], *p; int na = 0, n, col, mx, srv = ONLY >= 0 ? ONLY : wl_chance(2); struct Client *c, *src; struct Message *m = 0; const char *name0;
    memset(args, 0, sizeof args);
    j = wl_below(nmsg);
    if (wl_chance(8)) word(cw); else if (srv && wl_chance(2)) strcpy(cw, msgtab[j].tok); else strcpy(cw, msgtab[j].cmd);
    if (wl_chance(3)) for (p = cw; *p; p++) if (wl_chance(2) && *p >= 'A' && *p <= 'Z') *p |= 32;
    if (srv) {
      c = wr_S; col = 2;
      switch (wl_below(12)) {
      case 0: src = wr_S; strcpy(pre, "AC"); break;
      case 1: src = wr_S2; strcpy(pre, "AD"); break;
      case 2: case 3: src = wr_u[4]; sprintf(pre, "AC%s", cli_yxx(wr_u[4])); break;
      case 4: src = wr_u[4]; strcpy(pre, ":erin"); break;
      case 5: src = wr_S; strcpy(pre, ":hub.test.net"); break;
      case 6: src = wr_S2; strcpy(pre, ":leaf.test.net"); break;
      case 7: src = wr_u[wl_below(4)]; sprintf(pre, ":%s", cli_name(src)); break;
      case 8: src = wr_u[wl_below(4)]; sprintf(pre, "%s%s", cli_yxx(&me), cli_yxx(src)); break;
      case 9: src = &me; sprintf(pre, "%s", cli_yxx(&me)); break;
      case 10: src = 0; strcpy(pre, wl_chance(2) ? ":nobody" : wl_chance(2) ? "ACAZZ" : "ZZ"); break;
      default: src = wr_S; strcpy(pre, wl_chance(2) ? ":HUB.test.NET" : "AC"); break;
      }
    } else {
      int k = wl_below(5);
      c = k == 4 ? un : wr_u[k]; src = c;
      cli_handler(c) = k == 4 ? UNREGISTERED_HANDLER : k == 2 ? OPER_HANDLER : CLIENT_HANDLER;
      col = cli_handler(c);
      if (wl_chance(6)) sprintf(pre, ":%s", wl_chance(2) ? "erin" : cli_name(wr_u[wl_below(4)]));
    }
    for (j = 0; j < nmsg && !m; j++) if (same(cw, msgtab[j].tok) && srv) m = &msgtab[j];
    for (j = 0; j < nmsg && !m; j++) if (same(cw, msgtab[j].cmd)) m = &msgtab[j];
    if (srv && cw[0] >= '0' && cw[0] <= '9' && strlen(cw) == 3) continue;
    n = wl_below(18); if (n > 17) n = 17;
    p = line; p += sprintf(p, "%s%s%s", pre, *pre ? " " : "", cw);
    mx = m ? (int)m->parameters : 15; if (mx > 15) mx = 15;
    int colon = wl_chance(3), over = 0;
    for (j = 0; j < n; j++) {
      char w[90]; word(w);
      if (w[0] == ':') w[0] = 'x';
      if (j == n - 1 && colon) { char w2[90]; word(w2); p += sprintf(p, " :"); char full[90]; snprintf(full, 90, "%s %s", w, w2); p += sprintf(p, "%s", full);
        if (!over) { if (na >= mx && 0) ; snprintf(args[na++], 80, "%s", full); } else { strncat(args[na-1], " :", 70); strncat(args[na-1], full, 60); } break; }
      p += sprintf(p, " %s", w);
      if (!over) { snprintf(args[na++], 80, "%s", w); if (na >= mx) over = 1; }
      else { size_t l = strlen(args[na-1]); snprintf(args[na-1] + l, 80 - l, " %s", w); }
    }
    if (mx == 0 && n) { /* the first word is still taken; the rest with it */ }
    snprintf(sent, sizeof sent, "%s", line);
    r_ran = 0; r_want = m;
    if (srv) parse_server(c, line, line + strlen(line)); else parse_client(c, line, line + strlen(line));
    int stray = srv && !src && (cw[1] == 'Q' || (pre[0] != ':' && ((cw[0] == 'D' && !cw[1] && n) || (cw[0] == 'K' && cw[2] == 'L'))));
    int want = m && (!srv || stray || (src && cli_from(src) == wr_S));
    if (stray) src = wr_S;
    if (r_ran != want) { wl_witness("%s from %s: %d handlers run, expected %d\n%s", srv ? "a line" : "a line", srv ? "the server AC" : c == un ? "an unregistered connection" : wr_say(c), r_ran, want, sent); return; }
    if (!want) continue;
    if (r_col != col) { wl_witness("a line ran the handler for column %d, expected %d\n%s", r_col, col, sent); return; }
    if (r_cptr != c || r_sptr != src) { wl_witness("a line from %s ran on behalf of %s, expected %s\n%s", srv ? "the server AC" : cli_name(c), cli_name(r_sptr), cli_name(src), sent); return; }
    if (m->flags & MFLG_EXTRA) continue;
    if (r_parc != na + 1) { wl_witness("a line gave %d arguments, expected %d\n%s", r_parc - 1, na, sent); return; }
    for (j = 0; j < na; j++) if (strncmp(r_parv[j + 1], args[j], 70)) { wl_witness("argument %d is \"%s\", expected \"%s\"\n%s", j + 1, r_parv[j + 1], args[j], sent); return; }
    name0 = srv && pre[0] == ':' && !stray ? pre + 1 : cli_name(src);
    if (strcmp(r_parv[0], name0)) { wl_witness("the source is given as \"%s\", expected \"%s\"\n%s", r_parv[0], name0, sent); return; }
  }
  memcpy(msgtab, save, sizeof(struct Message) * (nmsg + 1));
}
int main(int argc, char **argv) { return wh_run(argc, argv, sc, 200, 14); }
