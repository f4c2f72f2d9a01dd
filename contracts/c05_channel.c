/* C05: the ban decision (channel.c find_ban): a positive entry matches and no exception does */
#include "config.h"
#include "verif.h"
#include "channel.h"
#include "client.h"
#include "ircd_defs.h"
#include "ircd_features.h"
#include "ircd_snprintf.h"
#include "ircd_string.h"
#include "match.h"
#include "res.h"
#include "struct.h"
#include "spec_cidr.h"

/* the three texts a mask is compared with, as recorded when they are built */
char *ghost_buf[3]; int ghost_nbuf; char *ghost_ip;
int uf_match(const char *mask, const char *name);

int match(const char *mask, const char *name)
  __CPROVER_ensures(__CPROVER_return_value == uf_match(mask, name))
  __CPROVER_assigns();
int ircd_snprintf(struct Client *dest, char *buf, size_t buf_len, const char *pattern, ...)
  __CPROVER_ensures(ghost_nbuf == __CPROVER_old(ghost_nbuf) + 1)
  __CPROVER_ensures(ghost_buf[0] == (__CPROVER_old(ghost_nbuf) == 0 ? buf : __CPROVER_old(ghost_buf[0])))
  __CPROVER_ensures(ghost_buf[1] == (__CPROVER_old(ghost_nbuf) == 1 ? buf : __CPROVER_old(ghost_buf[1])))
  __CPROVER_assigns(ghost_nbuf, ghost_buf[0], ghost_buf[1], __CPROVER_object_upto(buf, buf_len));
const char *ircd_ntoa_r(char *buf, const struct irc_in_addr *addr)
  __CPROVER_ensures(ghost_ip == buf)
  __CPROVER_assigns(ghost_ip, __CPROVER_object_upto(buf, SOCKIPLEN + 1));
const char *feature_str(enum Feature feat)
  __CPROVER_ensures(1)
  __CPROVER_assigns();
int ipmask_check(const struct irc_in_addr *addr, const struct irc_in_addr *mask, unsigned char bits)
  __CPROVER_ensures((__CPROVER_return_value != 0) == spec_prefix_eq(addr, mask, bits))
  __CPROVER_assigns();

static int spec_logged_in(struct Client *c) { return IsAccount(c) != 0; }
static int spec_hidden(struct Client *c) { return IsHiddenHost(c) && IsAccount(c); }
static const char *spec_altname(struct Client *c)
{
  return !spec_logged_in(c) ? (const char *)0 : spec_hidden(c) ? cli_user(c)->realhost : ghost_buf[1];
}
/* does one list entry cover the client? */
static int spec_covers(struct Client *c, struct Ban *b)
{
  const char *hm = b->banstr + b->nu_len + 1;
  return uf_match(b->banstr, ghost_buf[0]) == 0
      && (((b->flags & BAN_IPMASK) && spec_prefix_eq(&cli_ip(c), &b->address, b->addrbits))
          || uf_match(hm, cli_user(c)->host) == 0
          || uf_match(hm, ghost_ip) == 0
          || (spec_altname(c) && uf_match(hm, spec_altname(c)) == 0));
}
static int rec_excepted(struct Client *c, struct Ban *l)
{
  if (!l) return 0;
  if ((l->flags & BAN_EXCEPTION) && spec_covers(c, l)) return 1;
  return rec_excepted(c, l->next);
}
static int rec_denied(struct Client *c, struct Ban *l)
{
  if (!l) return 0;
  if (!(l->flags & BAN_EXCEPTION) && spec_covers(c, l)) return 1;
  return rec_denied(c, l->next);
}
struct Ban *find_ban(struct Client *cptr, struct Ban *banlist)
  __CPROVER_requires(ghost_nbuf == 0)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (rec_denied(cptr, banlist) && !rec_excepted(cptr, banlist)))
  __CPROVER_ensures(__CPROVER_return_value == 0 || (!(__CPROVER_return_value->flags & BAN_EXCEPTION) && spec_covers(cptr, __CPROVER_return_value)))
  __CPROVER_assigns(verif_everything());
void verif_inv_find_ban(struct Client *cptr, struct Ban *banlist, struct Ban *found)
  __CPROVER_ensures(rec_excepted(cptr, banlist) == rec_excepted(cptr, __CPROVER_old(banlist)))
  __CPROVER_ensures((found || rec_denied(cptr, banlist)) == (rec_denied(cptr, __CPROVER_old(banlist)) != 0))
  __CPROVER_ensures(found == 0 || (!(found->flags & BAN_EXCEPTION) && spec_covers(cptr, found)));

/* making an entry: the text is copied, what follows its last @ is the host part, and if that spells an
 * address or a block of addresses the entry is known to be one */
char *uf_last(const char *s, int c);
int uf_ipmask(const char *s);
char *ghost_to; const char *ghost_from; unsigned long ghost_len;
const char *ghost_spelled; struct irc_in_addr *ghost_addr; unsigned char *ghost_bits;
char *strrchr(const char *s, int c)
  __CPROVER_ensures(__CPROVER_return_value == uf_last(s, c))
  __CPROVER_assigns();
char *ircd_strncpy(char *d, const char *s, size_t n)
  __CPROVER_ensures(ghost_to == d && ghost_from == s && ghost_len == n)
  __CPROVER_assigns(ghost_to, ghost_from, ghost_len, verif_text_upto(d, n));
int ipmask_parse(const char *in, struct irc_in_addr *ip, unsigned char *pbits)
  __CPROVER_ensures(__CPROVER_return_value == uf_ipmask(in) && ghost_spelled == in && ghost_addr == ip && ghost_bits == pbits)
  __CPROVER_assigns(ghost_spelled, ghost_addr, ghost_bits, __CPROVER_object_upto(ip, sizeof(*ip)), *pbits);
#define MADE(b, old) (ghost_to == (b)->banstr && ghost_from == banstr && ghost_len >= NICKLEN + USERLEN + HOSTLEN + 2 && ghost_len < sizeof((b)->banstr) \
  && (!uf_last(banstr, '@') ? (b)->flags == (old) : (b)->nu_len == (unsigned char)(uf_last(banstr, '@') - banstr) && ghost_spelled == uf_last(banstr, '@') + 1 && ghost_addr == &(b)->address && ghost_bits == &(b)->addrbits \
     && (b)->flags == (uf_ipmask(uf_last(banstr, '@') + 1) ? (old) | BAN_IPMASK : (old))))
static void set_ban_mask(struct Ban *ban, const char *banstr)
  __CPROVER_ensures(MADE(ban, __CPROVER_old(ban->flags)))
  __CPROVER_assigns(ghost_to, ghost_from, ghost_len, ghost_spelled, ghost_addr, ghost_bits, verif_text_upto(ban->banstr, sizeof(ban->banstr)), ban->nu_len, ban->flags, ban->addrbits, __CPROVER_object_upto(&ban->address, sizeof(ban->address)));
struct Ban *make_ban(const char *banstr)
  __CPROVER_ensures(__CPROVER_return_value != 0 && MADE(__CPROVER_return_value, 0) && __CPROVER_return_value->next == 0)
  __CPROVER_assigns(verif_everything(), ghost_to, ghost_from, ghost_len, ghost_spelled, ghost_addr, ghost_bits);

#include "ircd/channel.c"
