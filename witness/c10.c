/* C10 replay: kicks among users in random states, through the real parsers */
#include "wr.h"
static void sc(unsigned s)
{
  int i, j;
  wr_setup();
  for (i = 0; i < 25; i++) {
    int f = wl_below(6), t = wl_below(6), k = wl_below(3), want, fwd, gotm, gotf, bounce = 0; struct Membership *kf, *kt, *m; char pat[100], why[500], *o;
    if (f >= 4) k = wl_below(2);
    for (j = 0; j < 6; j++) { wr_join(j); wr_flags(wr_u[j]); }
    for (m = wr_ch[k]->members; m; m = m->next_member) wr_status(m, !MyConnect(m->user));
    if ((m = wr_mem(wr_u[3], wr_ch[k])) && t == 3) m->status &= ~0x10u;
    if (t != 3 && wl_chance(6)) t = wl_below(4);
    if (t == 3 || (f < 4 && f == t)) continue;
    if (MyConnect(wr_u[t]) && wl_chance(3)) SetPriv(wr_u[t], PRIV_DEOP_LCHAN);
    if (MyConnect(wr_u[t]) && HasFlag(wr_u[t], FLAG_HIDDENHOST)) ClrFlag(wr_u[t], FLAG_HIDDENHOST);
    kf = wr_live(wr_u[f], wr_ch[k]); kt = wr_live(wr_u[t], wr_ch[k]);
    if (f < 4) {
      want = kf && (kf->status & 1) && kt && !HasFlag(wr_u[t], FLAG_CHSERV) && !(k == 2 && MyConnect(wr_u[t]) && HasPriv(wr_u[t], PRIV_DEOP_LCHAN))
          && !(kt->oplevel < kf->oplevel || (kt->oplevel == kf->oplevel && kt->oplevel < MAXOPLEVEL));
      fwd = want && k != 2;
    } else {
      struct Membership *l = wr_mem(wr_u[f], wr_ch[k]);
      bounce = kt && cli_from(wr_u[t]) != wr_S && !(l && (l->status & 1));
      want = kt && !bounce; fwd = !bounce;
    }
    snprintf(why, sizeof why, "KICK %s: %s (%s), victim %s (%s%s)", wr_cn[k], wr_say(wr_u[f]), wr_saym(wr_mem(wr_u[f], wr_ch[k])), wr_say(wr_u[t]), wr_saym(wr_mem(wr_u[t], wr_ch[k])), MyConnect(wr_u[t]) && HasPriv(wr_u[t], PRIV_DEOP_LCHAN) ? " protected oper" : "");
    wh_clear();
    if (f < 4) wh_send(wr_u[f], "KICK %s %s :out%d", wr_cn[k], cli_name(wr_u[t]), i);
    else wh_send(wr_S, "AC%s K %s %s%s :out%d", f == 4 ? "AAA" : "AAB", wr_cn[k], t < 4 ? "AB" : "AC", t < 4 ? cli_yxx(wr_u[t]) : t == 4 ? "AAA" : "AAB", i);
    gotm = kt && !wr_live(wr_u[t], wr_ch[k]);
    if (gotm != (want != 0)) wl_witness("%s: the victim should %s, but %s", why, want ? "be removed" : "stay as it was", gotm ? "was removed" : "was not removed");
    sprintf(pat, " K %s ", wr_cn[k]);
    o = wh_out(wr_S2); gotf = strstr(o, pat) != 0;
    if (gotf != (fwd != 0)) wl_witness("%s: the KICK should %sbe passed on, but other servers saw %s", why, fwd ? "" : "not ", wl_quote(o));
    if (!FindChannel(wr_cn[k])) return;
  }
}
int main(int argc, char **argv) { return wh_run(argc, argv, sc, 250, 14); }
