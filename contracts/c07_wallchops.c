/* C07: notices to a channel's operators (and voices): m_wallchops.c */
#include "c07_env.h"

#define TOK_chops 'C'
#define TOK_voices 'V'
#define SK_chops 0x07
#define SK_voices 0x0b
#define SENT(src, ch) (ghost_n == __CPROVER_old(ghost_n) || (ghost_from == (src) && ghost_to == (ch) && ghost_skip == SK_chops \
  && ghost_tok0 == 'W' && ghost_tok1 == TOK_chops && ghost_va0 == (ch)))
static int spec_m(struct Client *s, int parc, char **parv)
{
  struct Channel *ch;
  if (parc < 3 || !parv[1] || !*parv[1] || !parv[parc - 1] || !*parv[parc - 1] || (*parv[1] != '#' && *parv[1] != '&')) return 0;
  ch = uf_channel(parv[1]);
  return ch && spec_local_may(s, ch) && !uf_sline(s, ch, parv[parc - 1], 'W', 'C');
}
static int spec_ms(struct Client *s, int parc, char **parv)
{
  struct Channel *ch;
  if (parc < 3 || s->cli_status != 0x080 || *parv[1] == '&') return 0;
  ch = spec_chan(parv[1]);
  return ch && spec_speaks(ch, s);
}
int m_wallchops(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(sptr->cli_status == 0x080 && parc >= 1 && parc <= 16 && sptr == cptr)
  __CPROVER_ensures(ghost_n == __CPROVER_old(ghost_n) + (verif_old_int(spec_m(sptr, parc, parv)) ? 1 : 0))
  __CPROVER_ensures(SENT(sptr, OLDCHAN(parv[1])) && (ghost_n == __CPROVER_old(ghost_n) || ghost_va1 == verif_old_ptr(parv[parc - 1])))
  __CPROVER_assigns(verif_everything());
int ms_wallchops(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(sptr->cli_status != 4 && parc >= 1 && parc <= 16)
  __CPROVER_ensures(ghost_n == __CPROVER_old(ghost_n) + (verif_old_int(spec_ms(sptr, parc, parv)) ? 1 : 0))
  __CPROVER_ensures(SENT(sptr, OLDCHAN(parv[1])))
  __CPROVER_assigns(verif_everything());
#include "ircd/m_wallchops.c"
