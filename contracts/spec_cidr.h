#ifndef SPEC_CIDR_H
#define SPEC_CIDR_H
/* do the first `bits' bits (network order) of two addresses agree? */
static int spec_word_eq(unsigned short a, unsigned short m, int n)
{
  unsigned x = ((unsigned)(unsigned char)(a & 255) << 8 | (unsigned)(a >> 8)) ^ ((unsigned)(unsigned char)(m & 255) << 8 | (unsigned)(m >> 8));
  return n <= 0 ? 1 : n >= 16 ? x == 0 : (x >> (16 - n)) == 0;
}
static int spec_prefix_eq(const struct irc_in_addr *addr, const struct irc_in_addr *mask, int bits)
{
  return spec_word_eq(addr->in6_16[0], mask->in6_16[0], bits)
      && spec_word_eq(addr->in6_16[1], mask->in6_16[1], bits - 16)
      && spec_word_eq(addr->in6_16[2], mask->in6_16[2], bits - 32)
      && spec_word_eq(addr->in6_16[3], mask->in6_16[3], bits - 48)
      && spec_word_eq(addr->in6_16[4], mask->in6_16[4], bits - 64)
      && spec_word_eq(addr->in6_16[5], mask->in6_16[5], bits - 80)
      && spec_word_eq(addr->in6_16[6], mask->in6_16[6], bits - 96)
      && spec_word_eq(addr->in6_16[7], mask->in6_16[7], bits - 112);
}
#endif
