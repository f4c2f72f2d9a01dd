/* C17: the modes of a channel as one client may see them (channel.c) */
#include "c17_env.h"
static int spec_opped_on(struct Channel *ch, struct Client *c);
int is_chan_op(struct Client *cptr, struct Channel *chptr)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (uf_member(chptr, cptr) != 0 && (uf_member(chptr, cptr)->status & 1)))
  __CPROVER_assigns();
static int spec_opped_on(struct Channel *ch, struct Client *c) { return uf_member(ch, c) != 0 && (uf_member(ch, c)->status & 1); }
static int spec_text_ok(const char *s)
{
  if ((s[0] == '*' || s[0] == ' ') && !s[1]) return 1;
  if (s == ghost_ch->mode.key) return spec_is_server(ghost_to) || spec_opped_on(ghost_ch, ghost_to);
  if (s == ghost_ch->mode.apass) return spec_is_server(ghost_to);
  if (s == ghost_ch->mode.upass) return spec_is_server(ghost_to) || (spec_opped_on(ghost_ch, ghost_to) && uf_member(ghost_ch, ghost_to)->oplevel == 0);
  return 1;
}
static int spec_off(const char *t, long n, const void *x) { return (const char *)x < t || (const char *)x > t + n; }
char *strcat(char *d, const char *s)
  __CPROVER_requires(spec_text_ok(s))
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_text_upto(d, 100));
char *strcpy(char *d, const char *s)
  __CPROVER_requires(spec_text_ok(s))
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_text_upto(d, 100));
char *ircd_strncpy(char *d, const char *s, size_t n)
  __CPROVER_requires(spec_text_ok(s))
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_text_upto(d, 100));
int ircd_snprintf(struct Client *dest, char *buf, size_t buf_len, const char *format, ...)
  __CPROVER_requires(format[1] == 'u' || spec_text_ok(verif_va_ptr(0)))
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_text_upto(buf, 100));
void channel_modes(struct Client *cptr, char *mbuf, char *pbuf, int buflen, struct Channel *chptr, struct Membership *member)
  __CPROVER_requires(cptr == ghost_to && chptr == ghost_ch && (!member || member == uf_member(chptr, cptr)))
  __CPROVER_requires(spec_off(mbuf, 100, &cptr->cli_status) && spec_off(pbuf, 300, &cptr->cli_status))
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_text_upto(mbuf, 100), verif_text_upto(pbuf, 300));
#include "ircd/channel.c"
