/* C14: which functions stand in which column of the command table (parse.c msgtab) */
#include "config.h"
#include "verif.h"
#include "ircd/parse.c"
#define IS(f) (h == (f))
/* what a connection that has not registered can run */
static int spec_col_unreg(MessageHandler h)
{
  return IS(m_unregistered) || IS(m_ignore) || IS(m_nick) || IS(m_user) || IS(mr_pass) || IS(m_quit) || IS(m_cap) || IS(m_sasl) || IS(m_webirc)
    || IS(mr_server) || IS(mr_error) || IS(mr_pong) || IS(m_proto) || IS(m_admin) || IS(m_version);
}
/* what an ordinary user can run */
static int spec_col_user(MessageHandler h)
{
  return IS(m_admin) || IS(m_away) || IS(m_cap) || IS(m_cnotice) || IS(m_cprivmsg) || IS(m_gline) || IS(m_hash) || IS(m_help) || IS(m_ignore) || IS(m_info)
    || IS(m_invite) || IS(m_ison) || IS(m_join) || IS(m_kick) || IS(m_links) || IS(m_list) || IS(m_lusers) || IS(m_map) || IS(m_mode) || IS(m_motd)
    || IS(m_names) || IS(m_nick) || IS(m_not_oper) || IS(m_notice) || IS(m_oper) || IS(m_part) || IS(m_ping) || IS(m_pong) || IS(m_privmsg) || IS(m_proto)
    || IS(m_quit) || IS(m_registered) || IS(m_sasl) || IS(m_silence) || IS(m_stats) || IS(m_tagmsg) || IS(m_time) || IS(m_topic) || IS(m_trace)
    || IS(m_userhost) || IS(m_userip) || IS(m_version) || IS(m_wallchops) || IS(m_wallvoices) || IS(m_who) || IS(m_whois) || IS(m_whowas);
}
/* what only an operator can run */
static int spec_col_oper(MessageHandler h)
{
  return IS(mo_admin) || IS(mo_asll) || IS(mo_clearmode) || IS(mo_close) || IS(mo_connect) || IS(mo_die) || IS(mo_get) || IS(mo_gline) || IS(mo_info)
    || IS(mo_jupe) || IS(mo_kill) || IS(mo_notice) || IS(mo_oper) || IS(mo_opmode) || IS(mo_ping) || IS(mo_privmsg) || IS(mo_privs) || IS(mo_rehash)
    || IS(mo_reset) || IS(mo_restart) || IS(mo_rping) || IS(mo_set) || IS(mo_settime) || IS(mo_squit) || IS(mo_tagmsg) || IS(mo_trace) || IS(mo_uping)
    || IS(mo_wallops) || IS(mo_wallusers) || IS(mo_xquery);
}
/* what only a server link can run */
static int spec_col_server(MessageHandler h)
{
  return IS(ms_account) || IS(ms_admin) || IS(ms_asll) || IS(ms_away) || IS(ms_burst) || IS(ms_clearmode) || IS(ms_config) || IS(ms_connect) || IS(ms_create)
    || IS(ms_destruct) || IS(ms_desynch) || IS(ms_end_of_burst) || IS(ms_end_of_burst_ack) || IS(ms_error) || IS(ms_gline) || IS(ms_info) || IS(ms_invite)
    || IS(ms_join) || IS(ms_jupe) || IS(ms_kick) || IS(ms_kill) || IS(ms_links) || IS(ms_lusers) || IS(ms_mode) || IS(ms_nick) || IS(ms_notice) || IS(ms_oper)
    || IS(ms_opmode) || IS(ms_part) || IS(ms_ping) || IS(ms_pong) || IS(ms_privmsg) || IS(ms_privs) || IS(ms_quit) || IS(ms_rping) || IS(ms_rpong)
    || IS(ms_server) || IS(ms_settime) || IS(ms_silence) || IS(ms_sline) || IS(ms_squit) || IS(ms_tagmsg) || IS(ms_topic) || IS(ms_trace) || IS(ms_uping)
    || IS(ms_wallchops) || IS(ms_wallops) || IS(ms_wallusers) || IS(ms_wallvoices) || IS(ms_whois) || IS(ms_xquery) || IS(ms_xreply);
}
static int spec_col_common(MessageHandler h)
{
  return IS(m_hash) || IS(m_ignore) || IS(m_motd) || IS(m_names) || IS(m_proto) || IS(m_stats) || IS(m_time) || IS(m_version) || IS(m_whowas);
}
void table_lemma(int row)
{
  struct Message *m = &msgtab[row];
  verif_assert(spec_col_unreg(m->handlers[UNREGISTERED_HANDLER]));
  verif_assert(spec_col_user(m->handlers[CLIENT_HANDLER]));
  verif_assert(spec_col_server(m->handlers[SERVER_HANDLER]) || spec_col_common(m->handlers[SERVER_HANDLER]));
  verif_assert(spec_col_oper(m->handlers[OPER_HANDLER]) || spec_col_user(m->handlers[OPER_HANDLER]));
  verif_assert(m->handlers[SERVICE_HANDLER] == m_ignore);
}
void table_lemma(int row)
  __CPROVER_requires(row >= 0 && row < (int)(sizeof(msgtab) / sizeof(msgtab[0])) - 1)
  __CPROVER_ensures(1)
  __CPROVER_assigns();
