#include "config.h"
#include "client.h"
#include "hash.h"
#include "ircd_chattr.h"
#include "ircd_features.h"
#include "ircd_string.h"
#include "list.h"
#include "struct.h"
#include "channel.h"
#include "wl.h"
#include "spec_str.h"
#include <unistd.h>
static char variant(char c)
{
  unsigned char u = (unsigned char)c, l = spec_fold(u);
  if (wl_chance(2)) return c;
  return (char)(spec_unfold(l));
}
int main(int argc, char **argv)
{
  long n = 0, i; int c, d;
  wl_init(argc, argv);
  for (c = -128; c < 128; c++) {
    n++;
    if ((unsigned char)ToLower(c) != spec_fold((unsigned char)c)) wl_witness("ToLower(%d) = %d, the casemapping says %d", c, (unsigned char)ToLower(c), spec_fold((unsigned char)c));
    if ((unsigned char)ToUpper(c) != spec_unfold((unsigned char)c)) wl_witness("ToUpper(%d) = %d, the casemapping says %d", c, (unsigned char)ToUpper(c), spec_unfold((unsigned char)c));
    for (d = -128; d < 128; d++) {
      char a[3] = { 'x', (char)c, 0 }, b[3] = { 'X', (char)d, 0 };
      if (spec_sign(ircd_strcmp(a, b)) != rec_order(a, b)) wl_witness("ircd_strcmp(%s, %s) = %d, expected sign %d", wl_quote(a), wl_quote(b), ircd_strcmp(a, b), rec_order(a, b));
    }
  }
  for (i = 0; i < (wl_thorough ? 4000000 : 400000); i++) {
    char a[24], b[24]; int la = wl_below(14), j, k = wl_below(18);
    for (j = 0; j < la; j++) a[j] = (char)(wl_chance(2) ? 1 + wl_below(255) : 'A' + wl_below(62)), b[j] = variant(a[j]);
    a[la] = b[la] = 0;
    if (la && wl_chance(3)) b[wl_below(la)] = (char)wl_below(256);
    if (wl_chance(6)) { b[la] = 'q'; b[la + 1] = 0; }
    n++;
    if (spec_sign(ircd_strcmp(a, b)) != rec_order(a, b)) wl_witness("ircd_strcmp(%s, %s) = %d, expected sign %d", wl_quote(a), wl_quote(b), ircd_strcmp(a, b), rec_order(a, b));
    if (spec_sign(ircd_strncmp(a, b, k)) != rec_norder(a, b, k)) wl_witness("ircd_strncmp(%s, %s, %d) = %d, expected sign %d", wl_quote(a), wl_quote(b), k, ircd_strncmp(a, b, k), rec_norder(a, b, k));
  }
  feature_init();
  init_hash();
  for (i = 0; i < (wl_thorough ? 200000 : 40000); i++) {
    struct Client *cl = (struct Client *)calloc(1, sizeof *cl);
    struct Channel *ch = (struct Channel *)calloc(1, sizeof *ch + 40);
    char b[40]; int la = 1 + wl_below(12), j;
    for (j = 0; j < la; j++) cli_name(cl)[j] = (char)(wl_chance(2) ? 1 + wl_below(255) : 'A' + wl_below(62));
    cli_name(cl)[la] = 0;
    strcpy(ch->chname, cli_name(cl));
    for (j = 0; j <= la; j++) b[j] = cli_name(cl)[j] ? variant(cli_name(cl)[j]) : 0;
    cli_magic(cl) = CLIENT_MAGIC;
    cli_status(cl) = STAT_USER;
    n++;
    hAddClient(cl); hAddChannel(ch);
    if (hSeekClient(b, ~0) != cl) wl_witness("client %s is not found under the equal name %s", wl_quote(cli_name(cl)), wl_quote(b));
    if (hSeekChannel(b) != ch) wl_witness("channel %s is not found under the equal name %s", wl_quote(cli_name(cl)), wl_quote(b));
    hRemClient(cl); hRemChannel(ch);
    free(cl); free(ch);
  }
  WL_DONE(n);
}
