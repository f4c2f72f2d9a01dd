/* Replay for C04: addresses, every word zero or not, through the real iptobase64() and base64toip() */
#include "wh.h"
#include "numnicks.h"
#include "res.h"
#include "ircd_string.h"
#include <arpa/inet.h>
static const char *show(const struct irc_in_addr *a)
{
  static char b[4][64]; static int k; int i; char *o = b[k = (k + 1) & 3];
  for (i = 0; i < 8; i++) o += sprintf(o, "%s%x", i ? ":" : "", ntohs(a->in6_16[i]));
  return b[k];
}
static void one(const unsigned w[8])
{
  struct irc_in_addr a, b, x; char t[40]; const char *r; int i, v4 = !w[0] && !w[1] && !w[2] && !w[3] && !w[4] && ((!w[5] && w[6]) || w[5] == 65535);
  for (i = 0; i < 8; i++) a.in6_16[i] = htons(w[i]);
  x = a;
  if (v4) x.in6_16[5] = w[6] || w[7] ? 65535 : 0;
  memset(t, '#', sizeof t);
  if ((r = iptobase64(t, &a, 25, 1)) != t) wl_witness("iptobase64(%s) does not return its buffer", show(&a));
  for (i = 25; i < 40; i++) if (t[i] != '#') wl_witness("iptobase64(%s) writes behind the 25 bytes of its buffer", show(&a));
  if (!memchr(t, 0, 25)) wl_witness("iptobase64(%s) does not end its text", show(&a));
  memset(&b, 0xa5, sizeof b); base64toip(t, &b);
  if (memcmp(&b, &x, sizeof b)) wl_witness("the address %s is sent as %s and arrives as %s", show(&a), t, show(&b));
  memset(t, '#', sizeof t); iptobase64(t, &a, 25, 0);
  if (t[6]) wl_witness("%s is sent to a server without IPv6 as %.24s", show(&a), t);
  memset(&x, 0, sizeof x);
  if (v4) { x.in6_16[6] = a.in6_16[6]; x.in6_16[7] = a.in6_16[7]; }
  else if (w[0] == 0x2002) { x.in6_16[6] = a.in6_16[1]; x.in6_16[7] = a.in6_16[2]; }
  if (x.in6_16[6] || x.in6_16[7]) x.in6_16[5] = 65535;
  memset(&b, 0xa5, sizeof b); base64toip(t, &b);
  if (memcmp(&b, &x, sizeof b)) wl_witness("the address %s is sent to a server without IPv6 as %s and arrives as %s", show(&a), t, show(&b));
}
static void text(const unsigned w[8])
{
  struct irc_in_addr a; char t[80], q[40]; unsigned char r[16]; int i, v4 = !w[0] && !w[1] && !w[2] && !w[3] && !w[4] && ((!w[5] && w[6]) || w[5] == 65535);
  for (i = 0; i < 8; i++) a.in6_16[i] = htons(w[i]);
  memset(t, '#', sizeof t);
  if (ircd_ntoa_r(t, &a) != t) wl_witness("ircd_ntoa_r(%s) does not return its buffer", show(&a));
  if (!memchr(t, 0, 40)) wl_witness("the text of %s takes more than 40 bytes", show(&a));
  for (i = 40; i < 80; i++) if (t[i] != '#') wl_witness("ircd_ntoa_r(%s) writes behind the 40 bytes of its buffer", show(&a));
  if (v4) {
    sprintf(q, "%u.%u.%u.%u", w[6] >> 8, w[6] & 255, w[7] >> 8, w[7] & 255);
    if (strcmp(q, t)) wl_witness("the IPv4 address %s is shown as %s", q, t);
  } else if (inet_pton(AF_INET6, t, r) != 1 || memcmp(r, &a, 16)) wl_witness("the address %s is shown as %s", show(&a), t);
}
static void sc(unsigned seed)
{
  static const unsigned V[] = { 1, 0x2001, 0x2002, 65535, 0x8000, 63, 64, 4095, 4096, 0xfc0, 0xf000 };
  unsigned w[8]; int i, z;
  for (z = 0; z < 256; z++) {
    for (i = 0; i < 8; i++) w[i] = z & 1 << i ? 0 : wl_chance(2) ? V[wl_below(11)] : 1 + wl_below(65535);
    if (wl_chance(4)) w[0] = 0x2002;
    one(w); text(w);
  }
  for (z = 0; z < 40; z++) {
    for (i = 0; i < 8; i++) w[i] = i < 5 ? 0 : i == 5 ? (z & 1) * 65535 : wl_chance(3) ? 0 : wl_below(65536);
    one(w); text(w);
  }
}
int main(int argc, char **argv) { return wh_run(argc, argv, sc, 3000, 60); }
